// Streams for which memory or threads are refused (C27): every case is a number
// of streams, one after the other, with the same settings and calls.
#include "cases.hh"
#include "heap_shim.hh"
#include "io_shim.hh"
#include "scarce_shim.hh"
#include "settings.hh"
#include <dirent.h>
#include <miniocpp/client.h>
#include <thread>
namespace fs = std::filesystem;

static long entries(const char* d)
{
    long n = -2; // . and ..
    DIR* dir = opendir(d);
    while (dir && readdir(dir)) ++n;
    if (dir) closedir(dir);
    return n;
}
struct Sample
{
    long fds, threads, blocks, bytes;
    bool operator==(const Sample&) const = default;
};
// (and a thread that was joined may be listed for a moment; alone: nobody else should be there)
static Sample settled(bool alone = true)
{
    Sample last{};
    for (int i = 0, same = 0; i < 400 && (same < 3 || (alone && last.threads > 1)); ++i) {
        Sample s{ entries("/proc/self/fd"), entries("/proc/self/task"), heap::blocks(), heap::bytes() };
        same = s == last ? same + 1 : 0;
        last = s;
        usleep(same ? 300 : 1000);
    }
    return last;
}
static void quiet(int n)
{
    heap::pause(n);
    scarce::pause(n);
}
#define LIB(e) ([&] { quiet(-1); scarce::calling(true); auto r_ = C_CALL(e); scarce::calling(false); quiet(1); return r_; }())

static void run(const json& c, const std::string& dir)
{
    fs::create_directories(dir);
    auto& srv = fakes3::Server::get();
    srv.reset();
    fakes3::Quiet::pause = quiet;
    io::logging = false;
    io::nprocs(c.value("threads", 0));
    quiet(1);
    heap::on();
    Zarr_set_log_level(ZarrLogLevel_None);
    const json mem = c.value("mem", json::object()), thr = c.value("thr", json::object());
    const long cycles = c.value("cycles", 1L);
    for (long cycle = 0; cycle < cycles; ++cycle) {
        {
            std::scoped_lock lock(srv.mutex);
            srv.buckets.clear();
            srv.uploads.clear();
            srv.log.clear();
            srv.op_count.clear();
            srv.buckets["bucket"];
        }
        auto set = std::make_unique<Settings>(c.at("settings"), dir);
        scarce::memory(mem.value("at", 0L), mem.value("len", 1L), mem.value("min", 4096u));
        scarce::threads(thr.value("at", 0L), thr.value("len", 1L));
        ZarrStream* s = nullptr;
        json events = json::array();
        size_t total = 0;
        for (auto& op : c.at("ops")) {
            const std::string what = op.at("op");
            if (what != "create" && what != "dims" && !s) continue;
            const long r0 = scarce::refused(), a0 = scarce::allocs(), t0 = scarce::starts();
            json e{ { "op", what }, { "ok", true } };
            if (what == "create") {
                s = LIB(ZarrStream_create(&set->s));
                e["ok"] = s != nullptr;
            } else if (what == "append") {
                const size_t n = op.at("n");
                auto data = set->bytes(total, n);
                size_t out = 0;
                e["ok"] = LIB(ZarrStream_append(s, data.get(), n, &out)) == ZarrStatusCode_Success;
                total += n;
            } else if (what == "dims") {
                // settings with an array that has to survive
                ZarrStreamSettings x{};
                (void)ZarrStreamSettings_create_dimension_array(&x, 5);
                auto* before = x.dimensions;
                for (int d = 0; before && d < 5; ++d) before[d] = { "d", ZarrDimensionType_Space, 10u + d, 2u, 3u };
                const auto st = LIB(ZarrStreamSettings_create_dimension_array(&x, op.at("n").get<size_t>()));
                bool same = x.dimensions && x.dimension_count == 5;
                for (int d = 0; same && d < 5; ++d)
                    same = x.dimensions[d].array_size_px == 10u + d && x.dimensions[d].chunk_size_px == 2 && x.dimensions[d].shard_size_chunks == 3;
                e["ok"] = st == ZarrStatusCode_Success && x.dimension_count == op.at("n");
                e["same"] = same;
                ZarrStreamSettings_destroy_dimension_array(&x);
            } else {
                LIB((ZarrStream_destroy(s), 0));
                s = nullptr;
            }
            e["refused"] = scarce::refused() - r0;
            e["allocs"] = scarce::allocs() - a0;
            e["starts"] = scarce::starts() - t0;
            events.push_back(e);
        }
        const Sample x = settled();
        cases::emit({ { "ev", "stream" }, { "events", events }, { "fds", x.fds }, { "threads", x.threads }, { "blocks", x.blocks }, { "bytes", x.bytes } });
    }
    std::scoped_lock lock(srv.mutex);
    for (auto& [bucket, objs] : srv.buckets)
        for (auto& [key, data] : objs) {
            const fs::path p = fs::path(dir) / "s3" / bucket / key;
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << data;
        }
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
