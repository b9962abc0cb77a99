// Replays scenarios (environment behaviours generated from the specification)
// through the public C interface and records what can be observed.
//
//   stream_driver IN.json OUT.ndjson WORKDIR
//
// Each scenario runs in a forked child, in WORKDIR/<id>/, whose stores are
// left behind for the reader (objects of the fake S3 server are written to
// WORKDIR/<id>/s3/<bucket>/<key>).
#include "io_shim.hh"
#include "settings.hh"
#include <miniocpp/client.h>

#include <cstdio>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace fs = std::filesystem;

static int g_out = -1;
static void emit(const json& j)
{
    const std::string s = j.dump() + "\n";
    (void)!::write(g_out, s.data(), s.size());
}

static void dump_s3(const std::string& dir)
{
    auto& srv = fakes3::Server::get();
    std::scoped_lock lock(srv.mutex);
    for (auto& [bucket, objs] : srv.buckets)
        for (auto& [key, data] : objs) {
            std::string name = key; // what a path cannot say
            if (name.starts_with("/")) name = "%2F" + name;
            for (size_t at; (at = name.find("//")) != std::string::npos;) name.replace(at, 2, "/%2F/");
            const fs::path p = fs::path(dir) / "s3" / bucket / name;
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << data;
        }
}

static void run(const json& sc, const std::string& dir)
{
    io::nprocs(sc.value("threads", 0));
    auto& srv = fakes3::Server::get();
    srv.reset();
    {
        std::scoped_lock lock(srv.mutex);
        if (!sc.value("nobucket", false)) srv.buckets["bucket"];
        // objects that are there before
        if (sc.contains("s3pre"))
            for (auto& [k, v] : sc["s3pre"].items()) srv.buckets["bucket"][k] = v.get<std::string>();
        if (sc.contains("s3fail")) {
            const json f = sc["s3fail"];
            auto* total = new int(0);
            srv.fail = [f, total](const fakes3::Request& r, int n) {
                ++*total;
                for (auto& e : f) {
                    const bool op = !e.contains("op") || e["op"] == r.op;
                    const int k = e.contains("op") ? n : *total;
                    const int at = e.value("at", 1), len = e.value("len", 1);
                    if (op && k >= at && (len < 0 || k < at + len)) {
                        emit({ { "ev", "s3fault" }, { "op", r.op }, { "key", r.key } });
                        if (e.value("throw", false)) throw std::runtime_error("network down");
                        return true;
                    }
                }
                return false;
            };
        }
    }
    if (sc.contains("pre")) // files that are there before
        for (auto& [k, v] : sc["pre"].items()) {
            const fs::path p = fs::path(dir) / k;
            fs::create_directories(p.parent_path());
            if (v.is_null()) fs::create_directories(p);
            else std::ofstream(p, std::ios::binary) << v.get<std::string>();
        }

    std::vector<std::unique_ptr<Settings>> settings;
    for (auto& s : sc.at("streams")) settings.push_back(std::make_unique<Settings>(s, dir));
    const size_t ns = settings.size();
    std::vector<ZarrStream*> streams(ns, nullptr);
    std::vector<size_t> total(ns, 0);

    io::watch(dir);
    if (sc.contains("io")) {
        const json& f = sc["io"];
        const std::string k = f.at("kind");
        io::plan(k == "crash" ? io::Kind::Crash : k == "torn" ? io::Kind::Torn
                 : k == "short" ? io::Kind::Short : io::Kind::Fail,
                 f.at("at").get<long>(), f.value("err", 28), f.value("len", 1L));
    }
    const bool snap = sc.value("snap", false);
    std::mutex emit_mutex;

    auto step = [&](size_t i, const json& op) {
        const size_t s = op.value("s", 0);
        const std::string what = op.at("op");
        json e{ { "ev", what }, { "i", i }, { "s", s } };
        const long h0 = io::hits(), m0 = io::makes();
        if (what == "create") {
            streams[s] = C_CALL(ZarrStream_create(&settings[s]->s));
            e["ok"] = streams[s] != nullptr;
        } else if (what == "append") {
            const size_t n = op.at("n");
            auto data = settings[s]->bytes(total[s], n);
            size_t out = 0xdeadbeef;
            const auto st = C_CALL(ZarrStream_append(streams[s], data.get(), n, &out));
            e["n"] = n;
            e["st"] = static_cast<int>(st);
            e["out"] = st == ZarrStatusCode_Success ? (long)out : -1L;
            total[s] += n;
        } else if (what == "destroy") {
            C_CALL(ZarrStream_destroy(streams[s]));
            streams[s] = nullptr;
        }
        e["io"] = io::count();
        e["hits"] = io::hits() - h0;
        e["makes"] = io::makes() > m0;
        std::scoped_lock lock(emit_mutex);
        emit(e);
        if (snap && what == "append") {
            io::unwatch();
            fs::create_directories(fs::path(dir) / "snap");
            fs::copy(settings[s]->store, fs::path(dir) / "snap" / std::to_string(i),
                     fs::copy_options::recursive);
            // keep counting from where we were (the watch table is per descriptor)
            io::rewatch();
        }
    };
    const auto& ops = sc.at("ops");
    if (sc.value("parallel", false)) {
        std::vector<std::thread> ts;
        for (size_t s = 0; s < ns; ++s)
            ts.emplace_back([&, s] {
                for (size_t i = 0; i < ops.size(); ++i)
                    if (ops[i].value("s", 0u) == s && (ops[i]["op"] == "create" || streams[s])) step(i, ops[i]);
            });
        for (auto& t : ts) t.join();
    } else {
        for (size_t i = 0; i < ops.size(); ++i)
            if (ops[i]["op"] == "create" || streams[ops[i].value("s", 0u)]) step(i, ops[i]);
    }
    io::unwatch();
    dump_s3(dir);
    if (sc.value("iolog", false)) {
        json l = json::array();
        for (auto& o : io::log()) l.push_back(o.what);
        emit({ { "ev", "iolog" }, { "ops", l } });
    }
    json reqs = json::array();
    if (sc.value("s3log", false)) {
        std::scoped_lock lock(srv.mutex);
        for (auto& r : srv.log)
            reqs.push_back({ { "op", r.op }, { "key", r.key }, { "part", r.part }, { "size", r.size }, { "ok", r.ok } });
        emit({ { "ev", "s3log" }, { "reqs", reqs } });
    }
    emit({ { "ev", "end" } });
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    json in = json::parse(std::ifstream(argv[1]));
    g_out = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    const std::string work = argv[3];
    const bool quiet = !getenv("VERIF_LOG");
    int hangs = 0;
    for (auto& sc : in) {
        const std::string dir = work + "/" + sc.at("id").get<std::string>();
        fs::create_directories(dir);
        emit({ { "ev", "scenario" }, { "id", sc["id"] } });
        if (hangs > 12) { // (a tree on which everything hangs should not take for ever)
            emit({ { "ev", "exit" }, { "how", "hang" }, { "skipped", true } });
            continue;
        }
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            C_CALL(Zarr_set_log_level(quiet ? ZarrLogLevel_None : ZarrLogLevel_Error));
            if (quiet) {
                int n = ::open("/dev/null", O_WRONLY);
                dup2(n, 1);
                if (!getenv("VERIF_STDERR")) dup2(n, 2);
            }
#ifndef __SANITIZE_ADDRESS__ // (a tree that takes memory without end should not take the machine's)
            const rlim_t most = sc.value("gigabytes", rlim_t(5)) << 30;
            const struct rlimit data{ most, most };
            setrlimit(RLIMIT_DATA, &data);
#endif
            alarm(hangs > 1 ? 1 : sc.value("timeout", 20));
            try {
                run(sc, dir);
            } catch (const std::bad_alloc&) {
                abort(); // it took all there was
            } catch (const std::exception& e) {
                emit({ { "ev", "driver-error" }, { "what", e.what() } });
                _exit(3);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        json e{ { "ev", "exit" } };
        if (WIFSIGNALED(st)) {
            hangs += WTERMSIG(st) == SIGALRM;
            e["how"] = WTERMSIG(st) == SIGALRM ? "hang" : "signal";
            e["sig"] = WTERMSIG(st);
        } else {
            e["how"] = WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 77 ? "crashpoint" : "error";
            e["code"] = WEXITSTATUS(st);
        }
        emit(e);
    }
    return 0;
}
