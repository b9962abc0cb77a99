// One S3 sink: writes one after the other, finalization, with requests that fail.
#include "cases.hh"
#include "s3.sink.hh"
#include <miniocpp/client.h>
#include <set>

static void run(const json& c, const std::string&)
{
    auto& srv = fakes3::Server::get();
    srv.reset();
    srv.buckets["b"];
    auto pool = std::make_shared<zarr::S3ConnectionPool>(c.value("conns", 2), "http://s3", "id", "key");
    srv.log.clear();
    std::set<int> fail;
    for (auto& x : c.value("fail", json::array())) fail.insert(x.get<int>());
    const int from = c.value("failfrom", 0);
    int reqs = 0;
    srv.fail = [&](const fakes3::Request&, int) { return ++reqs, fail.count(reqs) > 0 || (from && reqs >= from); };
    uint64_t total = 0;
    for (auto& n : c.at("writes")) total += n.get<uint64_t>();
    std::string data(total, '\0');
    uint64_t h = c.value("seed", 1) * 2654435761u + 1;
    for (auto& b : data) { h = h * 6364136223846793005ull + 1442695040888963407ull; b = h >> 56; }
    std::unique_ptr<zarr::Sink> s = std::make_unique<zarr::S3Sink>("b", "the/key", pool);
    uint64_t at = 0;
    for (auto& w : c.at("writes")) {
        const uint64_t n = w.get<uint64_t>();
        const bool ok = s->write(at, std::span((const std::byte*)data.data() + at, n));
        at += n;
        cases::emit({ { "ev", "write" }, { "n", n }, { "ok", ok }, { "seen", !srv.buckets["b"].empty() } });
    }
    if (c.value("abandon", false)) {
        s.reset();
        cases::emit({ { "ev", "write" }, { "n", 0 }, { "ok", true }, { "seen", !srv.buckets["b"].empty() } });
        return;
    }
    const bool fin = zarr::finalize_sink(std::move(s));
    json log = json::array();
    for (auto& r : srv.log)
        log.push_back({ { "op", r.op }, { "part", r.part }, { "size", r.size }, { "ok", r.ok }, { "refused", r.refused } });
    auto& b = srv.buckets["b"];
    auto it = b.find("the/key");
    size_t objects = 0;
    for (auto& [name, o] : srv.buckets) objects += o.size();
    cases::emit({ { "ev", "fin" }, { "ok", fin }, { "log", log },
                  { "size", it == b.end() ? -1 : (int64_t)it->second.size() },
                  { "same", it != b.end() && it->second == data }, { "others", objects - (it != b.end()) } });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
