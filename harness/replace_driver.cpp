// Creates a stream where something is already (C21), and records everything
// there is around it before and after, and every change made in between.
#include "cases.hh"
#include "io_shim.hh"
#include "settings.hh"
#include "unpriv.hh"
#include <miniocpp/client.h>
#include <thread>
namespace fs = std::filesystem;

static json tree(const fs::path& root)
{
    json j = json::object();
    j["."] = "dir";
    std::error_code ec;
    for (auto& e : fs::recursive_directory_iterator(root, fs::directory_options::skip_permission_denied, ec)) {
        const std::string p = e.path().string().substr(root.string().size() + 1);
        struct stat s{};
        ::lstat(e.path().c_str(), &s);
        const std::string mode = " " + std::to_string(s.st_mode & 07777);
        if (S_ISLNK(s.st_mode)) j[p] = "-> " + fs::read_symlink(e.path()).string();
        else if (S_ISDIR(s.st_mode)) j[p] = "dir" + mode;
        else {
            std::ifstream f(e.path(), std::ios::binary);
            j[p] = "file" + mode + " " + std::string(std::istreambuf_iterator<char>(f), {});
        }
    }
    return j;
}
static json buckets()
{
    json j = json::object();
    j["."] = "s3";
    auto& srv = fakes3::Server::get();
    std::scoped_lock lock(srv.mutex);
    for (auto& [b, objs] : srv.buckets) {
        j[b] = "bucket";
        for (auto& [k, v] : objs) j[b + "/" + k] = "=" + v;
    }
    return j;
}
static void put(const fs::path& p, const json& e, const fs::path& root)
{
    const std::string t = e.at("t");
    fs::create_directories(p.parent_path());
    if (t != "dir") fs::remove_all(p);
    if (t == "dir") {
        if (!fs::is_directory(fs::symlink_status(p))) fs::remove_all(p);
        fs::create_directories(p);
    } else if (t == "locked") {
        fs::create_directories(p);
        std::ofstream(p / "kept") << "kept";
        fs::permissions(p, fs::perms(0555));
    } else if (t == "file") std::ofstream(p, std::ios::binary) << e.at("to").get<std::string>();
    else if (t == "readonly") {
        std::ofstream(p, std::ios::binary) << "read only";
        fs::permissions(p, fs::perms(0444));
    } else if (t == "link") fs::create_symlink(root / e.at("to").get<std::string>(), p);
    else if (t == "hard") fs::create_hard_link(root / e.at("to").get<std::string>(), p);
}
static void tell(const json& j)
{
    io::trace(false);
    cases::emit(j);
    io::trace(true);
}
static bool run_stream(Settings& set, const json& ops, bool emit, const char* move = nullptr)
{
    ZarrStream* s = nullptr;
    size_t total = 0;
    for (auto& op : ops) {
        const std::string w = op.at("op");
        if (s && move && (w == "destroy" || total > 0)) { // the working directory changes while the stream is open
            io::trace(false);
            if (::chdir(move)) throw std::runtime_error("chdir");
            io::trace(true);
            move = nullptr;
        }
        json e{ { "ev", w } };
        if (w == "create") {
            s = C_CALL(ZarrStream_create(&set.s));
            if (emit) tell({ { "ev", "create" }, { "ok", s != nullptr }, { "st", 0 } });
            if (!s) return false;
        } else if (w == "append") {
            const size_t n = op.at("n");
            auto data = set.bytes(total, n);
            size_t out = 0;
            const auto st = C_CALL(ZarrStream_append(s, data.get(), n, &out));
            if (emit) tell({ { "ev", "append" }, { "n", n }, { "st", (int)st }, { "out", out } });
            total += n;
        } else if (w == "destroy") {
            C_CALL(ZarrStream_destroy(s));
            if (emit) tell({ { "ev", "destroy" }, { "st", 0 } });
        }
    }
    return true;
}

static void run(const json& c, const std::string& dir_)
{
    fs::create_directories(dir_);
    unprivileged(dir_);
    const fs::path dir = fs::canonical(dir_), box = dir / "box";
    auto& srv = fakes3::Server::get();
    srv.reset();
    io::nprocs(c.value("threads", 0));
    // the same stream where there is nothing
    fs::create_directories(dir / "ref");
    srv.buckets["bucket"];
    Settings ref(c.at("settings"), (dir / "ref").string());
    const bool onfs = c["settings"].value("fs", true);
    run_stream(ref, c.at("ops"), false);
    cases::emit({ { "ev", "ref" }, { "tree", onfs ? tree(dir / "ref" / "s.zarr") : buckets() } });

    // what is there
    fs::create_directories(box);
    for (auto& e : c.at("around")) put(box / e.at("p").get<std::string>(), e, box);
    const fs::path store = box / c.at("store").get<std::string>();
    if (c.contains("old")) {
        json s = c["old"]["settings"];
        s["fs"] = true;
        s["store"] = c.at("store");
        Settings old(s, box.string());
        if (!run_stream(old, c["old"]["ops"], false)) throw std::runtime_error("the old stream failed");
    }
    if (c.contains("at")) put(store, c["at"], box);
    for (auto& e : c.at("inside")) put(store / e.at("p").get<std::string>(), e, box);
    srv.reset();
    srv.buckets["bucket"];
    srv.buckets["other"]["s.zarr/x"] = "1";
    if (!onfs)
        for (auto* k : { "s.zarr2/zarr.json", "s.zarr2/0/.zarray", "s.zar", "s.zarrx", "0/.zarray", "zarr.json", "a/s.zarr/zarr.json" })
            srv.buckets["bucket"][k] = "old";

    if (::chdir(box.c_str())) throw std::runtime_error("chdir");
    json s = c.at("settings");
    Settings set(s, box.string());
    const std::string given = c.at("given");
    const std::string path = !onfs ? "s.zarr" : c.value("relative", false) ? given : (box / given).string();
    set.s.store_path = path.c_str();
    cases::emit({ { "ev", "before" }, { "tree", tree(box) }, { "s3", buckets() } });
    io::watch(dir.string());
    if (c.contains("io")) io::plan(io::Kind::Fail, c["io"].at("at").get<long>(), c["io"].value("err", 28), c["io"].value("len", 1L));
    io::trace(true);
    const std::string move = (box / "adir").string();
    run_stream(set, c.at("ops"), true, c.value("moves", false) ? move.c_str() : nullptr);
    io::trace(false);
    io::unwatch();
    json ops = json::array(), reqs = json::array();
    const std::string root = box.string() + "/";
    for (auto& o : io::touched())
        ops.push_back({ { "what", o.what }, { "path", o.path.starts_with(root) ? o.path.substr(root.size()) : o.path } });
    for (auto& r : srv.log) reqs.push_back({ { "what", r.op }, { "path", r.bucket + "/" + r.key } });
    cases::emit({ { "ev", "after" }, { "tree", tree(box) }, { "s3", buckets() }, { "touched", ops }, { "reqs", reqs }, { "count", io::count() } });
    // (so that the harness can delete it)
    std::error_code ec;
    for (auto& e : fs::recursive_directory_iterator(box, ec))
        if (e.is_directory() && !e.is_symlink()) fs::permissions(e.path(), fs::perms(0755), ec);
    for (auto& [b, objs] : srv.buckets)
        for (auto& [key, data] : objs) {
            const fs::path p = dir / "s3" / b / key;
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << data;
        }
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
