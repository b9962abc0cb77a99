// Requests of one S3 connection (C28), one after the other: what each tells, how many reach the
// service, and all objects afterwards, as the calls whose data they are made of.
#include "cases.hh"
#include "s3.connection.hh"
#include <miniocpp/client.h>

static std::string data_of(int id, size_t n)
{
    std::string s(n, '\0');
    uint64_t h = id * 2654435761u + 1;
    for (auto& b : s) { h = h * 6364136223846793005ull + 1442695040888963407ull; b = h >> 56; }
    if (n) s[0] = (char)id;
    return s;
}
static void run(const json& c, const std::string&)
{
    auto& srv = fakes3::Server::get();
    srv.reset();
    for (auto* b : { "b", "c" }) srv.buckets[b];
    zarr::S3Connection conn("http://s3", "id", "key");
    std::vector<std::string> uploads, data{ "" }, etags{ "" };
    bool fail = false;
    srv.fail = [&](const fakes3::Request&, int) { return fail; };
    for (auto& o : c.at("ops")) {
        const std::string op = o.at("op"), b = o.at("b"), k = o.at("k");
        const int u = o.at("u");
        const std::string up = u < 0 ? "" : u == 0 || u > (int)uploads.size() ? "nope" : uploads[u - 1];
        const int id = (int)data.size();
        data.push_back(op == "put" || op == "part" ? data_of(id, o.at("n")) : "");
        etags.push_back("");
        std::string copy = data.back(), told;
        std::span<uint8_t> bytes((uint8_t*)copy.data(), copy.size());
        fail = o.at("fail");
        const size_t before = srv.log.size();
        try {
            bool yes = false;
            if (op == "valid") yes = conn.is_connection_valid();
            else if (op == "bucket") yes = conn.bucket_exists(b);
            else if (op == "stat") yes = conn.object_exists(b, k);
            else if (op == "put") yes = !conn.put_object(b, k, bytes).empty();
            else if (op == "del") yes = conn.delete_object(b, k);
            else if (op == "begin") {
                const auto x = conn.create_multipart_object(b, k);
                if ((yes = !x.empty())) uploads.push_back(x);
            } else if (op == "part") {
                etags.back() = conn.upload_multipart_object_part(b, k, up, bytes, o.at("num").get<unsigned>());
                yes = !etags.back().empty();
            } else if (op == "complete") {
                std::list<minio::s3::Part> parts;
                for (auto& p : o.at("parts")) {
                    minio::s3::Part x;
                    x.number = p.at("num").get<unsigned>();
                    const int e = p.at("e");
                    x.etag = e ? etags.at(e) : "none";
                    parts.push_back(x);
                }
                yes = conn.complete_multipart_object(b, k, up, parts);
            } else throw std::logic_error("op " + op);
            told = yes ? "yes" : "no";
        } catch (const std::logic_error&) {
            throw;
        } catch (const std::exception&) {
            told = "throws";
        }
        fail = false;
        json objs{ { "", json::array() } };
        for (auto& [bucket, os] : srv.buckets)
            for (auto& [key, x] : os) {
                json cs = json::array();
                for (size_t at = 0; at < x.size();) { // (the first byte tells the call)
                    const size_t i = (unsigned char)x[at];
                    if (i >= data.size() || data[i].empty() || x.compare(at, data[i].size(), data[i])) { cs.push_back(-1); break; }
                    cs.push_back(i);
                    at += data[i].size();
                }
                objs[bucket + "/" + key] = cs;
            }
        if (copy != data.back()) told = "changes the data";
        cases::emit({ { "ev", "call" }, { "told", told }, { "reqs", srv.log.size() - before }, { "objs", objs } });
    }
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
