// File sinks and gather writes: runs the operations of a case on one file and
// looks at all its bytes.
#include "cases.hh"
#include "file.sink.hh"
#include "io_shim.hh"
#include "vectorized.file.writer.hh"
#include <csignal>
#include <cstring>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>

namespace fs = std::filesystem;
static unsigned char val(int w, uint64_t j)
{
    return 1 + (w * 53 + j * 7 + (j >> 8) * 13 + (j >> 16) * 29) % 255;
}
static std::vector<std::byte> bytes(int w, uint64_t n)
{
    std::vector<std::byte> v(n);
    for (uint64_t j = 0; j < n; ++j) v[j] = std::byte{ val(w, j) };
    return v;
}
struct W { uint64_t at, len; int w; };

// does [lo, hi) of the file hold zeros / the bytes of write w from its offset?
static bool zero(int fd, uint64_t lo, uint64_t hi)
{
    std::vector<char> b(1 << 16);
    uint64_t x = lo;
    while (x < hi) {
        off_t d = lseek(fd, x, SEEK_DATA);
        if (d < 0 || (uint64_t)d >= hi) return true;
        const size_t n = std::min<uint64_t>(b.size(), hi - d);
        const ssize_t r = pread(fd, b.data(), n, d);
        if (r <= 0) return true;
        for (ssize_t k = 0; k < r; ++k) if (b[k]) return false;
        x = d + r;
    }
    return true;
}
static bool same(int fd, uint64_t lo, uint64_t hi, const W& w)
{
    if (lo < w.at || hi > w.at + w.len) return false;
    std::vector<unsigned char> b(1 << 16);
    for (uint64_t x = lo; x < hi;) {
        const ssize_t r = pread(fd, b.data(), std::min<uint64_t>(b.size(), hi - x), x);
        if (r <= 0) return false;
        for (ssize_t k = 0; k < r; ++k)
            if (b[k] != val(w.w, x + k - w.at)) return false;
        x += r;
    }
    return true;
}
static json look(const std::string& path, const std::vector<W>& ws, uint64_t pre)
{
    json e{ { "op", "look" }, { "pieces", json::array() } };
    int fd = ::open(path.c_str(), O_RDONLY);
    struct stat st{};
    if (fd < 0 || fstat(fd, &st)) { e["size"] = -1; return e; }
    const uint64_t size = st.st_size;
    e["size"] = size;
    std::set<uint64_t> cuts{ 0, size };
    if (pre < size) cuts.insert(pre);
    for (auto& w : ws) {
        if (w.at < size) cuts.insert(w.at);
        if (w.at + w.len < size && w.at + w.len >= w.at) cuts.insert(w.at + w.len);
    }
    const W prew{ 0, pre, 0 };
    for (auto it = cuts.begin(); std::next(it) != cuts.end(); ++it) {
        const uint64_t lo = *it, hi = *std::next(it);
        json is = json::array();
        if (zero(fd, lo, hi)) is.push_back("zero");
        if (same(fd, lo, hi, prew)) is.push_back("pre");
        for (auto& w : ws)
            if (same(fd, lo, hi, w)) is.push_back("w" + std::to_string(w.w));
        e["pieces"].push_back({ { "lo", lo }, { "hi", hi }, { "is", is } });
    }
    ::close(fd);
    return e;
}
static thread_local std::minstd_rand rng;
static std::atomic<unsigned> g_seed{ 1 };
static void jitter()
{
    thread_local bool seeded = (rng.seed(g_seed += 7919), true);
    (void)seeded;
    if (rng() % 3) usleep(rng() % 200);
    else sched_yield();
}
static void limit(uint64_t n)
{
    struct rlimit r{ n, RLIM_INFINITY };
    if (!n) r.rlim_cur = RLIM_INFINITY;
    setrlimit(RLIMIT_FSIZE, &r);
}

static uint64_t g_lim = 0;
// (the limit is for the files under test only)
static void tell(const json& j)
{
    if (g_lim) limit(0);
    cases::emit(j);
    if (g_lim) limit(g_lim);
}

static void run(const json& c, const std::string& dir)
{
    signal(SIGXFSZ, SIG_IGN);
    fs::create_directories(dir);
    const std::string path = dir + "/" + c.value("path", "f");
    const uint64_t pre = c.value("pre", 0u);
    if (pre) {
        auto b = bytes(0, pre);
        std::ofstream(path, std::ios::binary).write((const char*)b.data(), b.size());
    }
    io::watch(dir);
    if (c.contains("io")) {
        const json& f = c["io"];
        const std::string k = f.at("kind");
        io::plan(k == "short" ? io::Kind::Short : io::Kind::Fail, f.at("at").get<long>(), f.value("err", 28), f.value("len", 1L));
    }
    std::vector<W> ws;
    const bool sinks = c.at("kind") == "sink";
    const uint64_t lim = c.value("limit", 0ull);
    std::unique_ptr<zarr::Sink> sink;
    std::map<int, std::unique_ptr<zarr::VectorizedFileWriter>> writers;
    std::mutex m;

    auto gather = [&](const json& op) {
        const int w = op.at("w");
        std::vector<uint64_t> lens = op.at("lens");
        uint64_t n = 0;
        for (auto l : lens) n += l;
        const uint64_t at = op.at("at");
        auto all = bytes(w, n);
        std::vector<std::vector<std::byte>> bufs;
        std::vector<std::span<std::byte>> spans;
        uint64_t o = 0;
        for (auto l : lens) {
            bufs.emplace_back(all.begin() + o, all.begin() + o + l);
            o += l;
        }
        for (auto& b : bufs) spans.emplace_back(b);
        if (op.value("huge", 0)) { // the same buffer many times: more than a system call takes
            spans.assign(op["huge"].get<int>(), spans[0]);
        }
        bool ok, thrown = false;
        const long h0 = io::hits();
        try {
            ok = writers.at(op.value("writer", 0))->write_vectors(spans, at);
        } catch (const std::exception&) { ok = false; thrown = true; }
        std::scoped_lock l(m);
        for (size_t k = 0, x = 0; k < bufs.size(); x += bufs[k++].size())
            if (memcmp(bufs[k].data(), all.data() + x, bufs[k].size())) tell({ { "op", "clobbered" }, { "ev", "file" } });
        ws.push_back({ at, n, w });
        tell({ { "ev", "file" }, { "op", "write" }, { "at", at }, { "len", n }, { "w", "w" + std::to_string(w) },
                      { "ok", ok }, { "hits", io::hits() > h0 || c.contains("io") }, { "over", lim && at + n > lim }, { "thrown", thrown },
                      { "nbuf", lens.size() } });
    };
    const auto& ops = c.at("ops");
    if (c.value("threads", 0) > 0) {
        io::on_op = jitter;
        writers[0] = std::make_unique<zarr::VectorizedFileWriter>(path);
        if (c.value("shared", true)) ; else
            for (int k = 1; k < c["threads"].get<int>(); ++k) writers[k] = std::make_unique<zarr::VectorizedFileWriter>(path);
        std::vector<std::thread> ts;
        for (int k = 0; k < c["threads"].get<int>(); ++k)
            ts.emplace_back([&, k] {
                for (auto& op : ops) if (op.at("t") == k) gather(op);
            });
        for (auto& t : ts) t.join();
        writers.clear();
        json l = look(path, ws, pre);
        l["ev"] = "file";
        tell(l);
        return;
    }
    if (!sinks) writers[0] = std::make_unique<zarr::VectorizedFileWriter>(path);
    if (lim) limit(g_lim = lim);
    long h0 = io::hits();
    for (auto& op : ops) {
        const std::string what = op.at("op");
        if (what == "open") {
            bool ok = true;
            try { sink = std::make_unique<zarr::FileSink>(path); } catch (const std::exception&) { ok = false; sink.reset(); }
            if (ok) ws.clear();
            tell({ { "ev", "file" }, { "op", "open" }, { "ok", ok }, { "fault", io::hits() > h0 } });
            if (!ok) break;
        } else if (what == "write" && sinks) {
            const uint64_t at = op.at("at"), n = op.at("len");
            const int w = op.at("w");
            auto b = bytes(w, n);
            bool ok;
            try { ok = sink->write(at, b); } catch (const std::exception&) { ok = false; }
            ws.push_back({ at, n, w });
            tell({ { "ev", "file" }, { "op", "write" }, { "at", at }, { "len", n }, { "w", "w" + std::to_string(w) }, { "nbuf", 1 },
                          { "ok", ok }, { "hits", io::hits() > h0 || c.contains("io") }, { "over", lim && at + n > lim } });
        } else if (what == "write") {
            gather(op);
        } else if (what == "final") {
            bool ok;
            try { ok = zarr::finalize_sink(std::move(sink)); } catch (const std::exception&) { ok = false; }
            sink.reset();
            tell({ { "ev", "file" }, { "op", "final" }, { "ok", ok }, { "fault", io::hits() > h0 } });
        }
        if (what == "final" || c.value("peek", true)) {
            json l = look(path, ws, sinks ? 0 : pre);
            l["ev"] = "file";
            tell(l);
        }
    }
    if (!sinks) {
        writers.clear();
        json l = look(path, ws, pre);
        l["ev"] = "file";
        tell(l);
    }
    tell({ { "ev", "null" }, { "ok", zarr::finalize_sink(nullptr) } });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
