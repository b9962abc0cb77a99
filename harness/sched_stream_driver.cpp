// Whole streams under a controlled scheduler: one with its workers (C15), or
// several from as many threads (C22). The store of every distinct outcome is
// kept in WORKDIR/<id>/<stream>-<digest>.
#include "io_shim.hh"
#include "sched.hh"
#include "settings.hh"
#include <miniocpp/client.h>
#include <thread>
namespace fs = std::filesystem;

static uint64_t digest(const std::string& root)
{
    std::vector<std::string> ps;
    std::error_code ec;
    for (auto& e : fs::recursive_directory_iterator(root, ec))
        if (!e.is_directory()) ps.push_back(e.path());
    std::sort(ps.begin(), ps.end());
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](const std::string& s) {
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        h = (h ^ 0xff) * 1099511628211ull;
    };
    for (auto& p : ps) {
        mix(p.substr(root.size()));
        std::ifstream f(p, std::ios::binary);
        mix(std::string(std::istreambuf_iterator<char>(f), {}));
    }
    return h;
}

static void run(const json& sc, const std::string& dir)
{
    fs::create_directories(dir);
    C_CALL(Zarr_set_log_level(ZarrLogLevel_None));
    sched::explore(sc.at("explore"), [&] {
        const std::string root = dir + "/run-" + std::to_string(getpid());
        fs::create_directories(root);
        io::nprocs(sc.value("threads", 2));
        auto& srv = fakes3::Server::get();
        srv.reset();
        srv.buckets["bucket"];
        srv.on_request = [](const char*) { sched::point(); };
        if (sc.contains("s3fail")) {    // requests for one stream fail
            const std::string pre = sc["s3fail"].at("prefix");
            auto* n = new int(0);
            const int at = sc["s3fail"].at("at"), len = sc["s3fail"].value("len", -1);
            srv.fail = [=](const fakes3::Request& r, int) {
                if (r.key.compare(0, pre.size(), pre)) return false;
                ++*n;
                return *n >= at && (len < 0 || *n < at + len);
            };
        }
        std::vector<std::unique_ptr<Settings>> settings;
        for (auto& s : sc.at("streams")) settings.push_back(std::make_unique<Settings>(s, root));
        const size_t ns = settings.size();
        std::vector<ZarrStream*> streams(ns, nullptr);
        std::vector<size_t> total(ns, 0);
        std::vector<json> done(ns, json::array());
        io::on_op = [] { sched::point(); };
        io::watch(sc.contains("io") ? settings[sc["io"].at("s").get<size_t>()]->store : root);
        if (sc.contains("io"))
            io::plan(io::Kind::Fail, sc["io"].at("at").get<long>(), sc["io"].value("err", 28), sc["io"].value("len", -1L));
        const auto& ops = sc.at("ops");
        auto play = [&](size_t s) {
            for (size_t i = 0; i < ops.size(); ++i) {
                const json& op = ops[i];
                if (op.value("s", 0u) != s || (op["op"] != "create" && !streams[s])) continue;
                const std::string what = op.at("op");
                json e{ { "ev", what }, { "i", i } };
                if (what == "create") {
                    streams[s] = C_CALL(ZarrStream_create(&settings[s]->s));
                    e["ok"] = streams[s] != nullptr;
                } else if (what == "append") {
                    const size_t n = op.at("n");
                    auto data = settings[s]->bytes(total[s], n);
                    size_t out = 0xdeadbeef;
                    const auto st = C_CALL(ZarrStream_append(streams[s], data.get(), n, &out));
                    e["st"] = (int)st;
                    e["out"] = st == ZarrStatusCode_Success ? (long)out : -1L;
                    total[s] += n;
                } else if (what == "destroy") {
                    C_CALL(ZarrStream_destroy(streams[s]));
                    streams[s] = nullptr;
                }
                done[s].push_back(e);
            }
        };
        if (ns == 1) play(0);
        else {
            std::vector<std::thread> ts;
            for (size_t s = 0; s < ns; ++s) ts.emplace_back([&, s] { play(s); });
            for (auto& t : ts) t.join();
        }
        io::unwatch();
        for (auto& [bucket, objs] : srv.buckets)
            for (auto& [key, data] : objs) {
                const fs::path p = fs::path(root) / "s3" / bucket / key;
                fs::create_directories(p.parent_path());
                std::ofstream(p, std::ios::binary) << data;
            }
        for (size_t s = 0; s < ns; ++s) {
            const json& j = sc["streams"][s];
            const std::string store = j.value("fs", true) ? settings[s]->store : root + "/s3/bucket/" + settings[s]->store;
            char name[64];
            snprintf(name, sizeof name, "%zu-%016llx", s, (unsigned long long)digest(store));
            std::error_code ec;
            fs::create_directories(store, ec);
            if (!fs::exists(dir + "/" + name)) fs::rename(store, dir + "/" + name, ec);
            sched::note({ { "e", "stream" }, { "s", s }, { "calls", done[s] }, { "store", name } });
        }
        std::error_code ec;
        fs::remove_all(root, ec);
    });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
