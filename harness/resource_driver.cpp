// Measures what a stream holds (C24): open files, threads and heap blocks after
// every period of appends and after every stream.
#include "cases.hh"
#include "heap_shim.hh"
#include "io_shim.hh"
#include "settings.hh"
#include "unpriv.hh"
#include <dirent.h>
#include <miniocpp/client.h>
#include <thread>
namespace fs = std::filesystem;

static long entries(const char* d)
{
    long n = 0;
    DIR* dir = opendir(d);
    while (dir && readdir(dir)) ++n;
    if (dir) closedir(dir);
    return n;
}
struct Sample
{
    long fds, threads, blocks, bytes;
    bool operator==(const Sample&) const = default;
};
// (a worker may still be letting go of the job it has finished)
// (and a thread that was joined may be listed for a moment; alone: nobody else should be there)
static Sample settled(bool alone)
{
    Sample last{};
    for (int i = 0, same = 0; i < 400 && (same < 3 || (alone && last.threads > 1)); ++i) {
        Sample s{ entries("/proc/self/fd"), entries("/proc/self/task") - 2, heap::blocks(), heap::bytes() };
        same = s == last ? same + 1 : 0;
        last = s;
        usleep(same ? 300 : 1000);
    }
    return last;
}
static json sample(const char* at, long cycle, long n, long peak)
{
    const Sample s = settled(*at == 'e');
    return { { "at", at }, { "cycle", cycle }, { "n", n }, { "fds", s.fds }, { "threads", s.threads }, { "blocks", s.blocks }, { "bytes", s.bytes }, { "peak", peak } };
}
#define LIB(e) ([&] { heap::pause(-1); auto r_ = C_CALL(e); heap::pause(1); return r_; }())

static void run(const json& c, const std::string& dir)
{
    fs::create_directories(dir);
    unprivileged(dir);
    auto& srv = fakes3::Server::get();
    srv.reset();
    fakes3::Quiet::pause = heap::pause;
    io::logging = false;
    io::nprocs(c.value("threads", 0));
    heap::pause(1);
    heap::on();
    Zarr_set_log_level(ZarrLogLevel_None);
    std::unique_ptr<std::byte[]> data;
    size_t held = 0;
    // every cycle is one stream
    long cycle = 0;
    for (auto& cy : c.at("cycles")) {
        srv.buckets.clear();
        srv.uploads.clear();
        srv.log.clear();
        srv.op_count.clear();
        srv.fail = nullptr;
        if (!cy.value("nobucket", false)) srv.buckets["bucket"];
        if (cy.contains("s3fail")) {
            const long at = cy["s3fail"].at("at"), len = cy["s3fail"].value("len", -1L);
            const bool thr = cy["s3fail"].value("throw", false);
            auto total = std::make_shared<long>(0);
            srv.fail = [=](const fakes3::Request&, int) {
                const long k = ++*total;
                if (k < at || (len >= 0 && k >= at + len)) return false;
                if (thr) throw std::runtime_error("network down");
                return true;
            };
        }
        json js = c.at("settings");
        if (cy.contains("over")) js.merge_patch(cy["over"]);
        auto set = std::make_unique<Settings>(js, dir);
        if (cy.value("noname", false)) set->dims[1].name = nullptr;
        io::watch(dir);
        if (cy.contains("io")) io::plan(io::Kind::Fail, cy["io"].at("at").get<long>(), cy["io"].value("err", 28), cy["io"].value("len", -1L));
        else io::plan(io::Kind::None, -1);
        ZarrStream* s = LIB(ZarrStream_create(&set->s));
        json samples = json::array();
        long failed = 0, n = 0;
        size_t total = 0;
        heap::peak();
        if (s) {
            for (auto& period : cy.at("periods")) {
                for (auto& p : period) {
                    const size_t k = p;
                    if (k > held) { data = set->bytes(0, k); held = k; }
                    size_t out = 0;
                    failed += LIB(ZarrStream_append(s, data.get(), k, &out)) != ZarrStatusCode_Success;
                    total += k;
                }
                const long peak = heap::peak();
                samples.push_back(sample("period", cycle, n++, peak));
            }
            LIB((ZarrStream_destroy(s), 0));
        }
        io::unwatch();
        samples.push_back(sample("end", cycle, n, 0));
        cases::emit({ { "ev", "cycle" }, { "created", s != nullptr }, { "failed", failed }, { "samples", samples }, { "io", io::count() },
                      { "reqs", (long)srv.log.size() } });
        ++cycle;
    }
    std::error_code ec;
    fs::remove_all(dir, ec);
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
