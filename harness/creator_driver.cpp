// Parallel creation of directories and files under a controlled scheduler, with
// obstacles in the way and operations that fail.
#include "io_shim.hh"
#include "sched.hh"
#include "sink.creator.hh"
#include <map>
namespace fs = std::filesystem;

static void obstacles(const json& c, const std::string& root)
{
    for (auto& o : c.at("obstacles")) {
        const std::string p = root + "/" + o.at(1).get<std::string>();
        fs::create_directories(fs::path(p).parent_path());
        if (o.at(0) == "dir") fs::create_directories(p);
        else if (o.at(0) == "file") std::ofstream(p) << "old content of the file";
        else if (o.at(0) == "link") fs::create_symlink("nowhere/at/all", p);
    }
}
static json listing(const std::string& root)
{
    json dirs = json::array(), files = json::array();
    std::error_code ec;
    for (auto it = fs::recursive_directory_iterator(root, ec); it != fs::recursive_directory_iterator(); it.increment(ec)) {
        const std::string rel = it->path().string().substr(root.size() + 1);
        (it->is_directory() && !it->is_symlink() ? dirs : files).push_back(rel);
    }
    std::vector<std::string> d = dirs, f = files;
    std::sort(d.begin(), d.end());
    std::sort(f.begin(), f.end());
    return { { "dirs", d }, { "files", f } };
}
static std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return { std::istreambuf_iterator<char>(f), {} };
}

static __attribute__((noinline)) void frames_below_are_dead() { sched::watch_stack(__builtin_frame_address(0)); }

static void run(const json& c, const std::string& dir)
{
    const auto one = [&] {
        const std::string root = dir + "-" + std::to_string(getpid());
        fs::create_directories(root);
        obstacles(c, root);
        const std::string base = root + "/" + c.at("base").get<std::string>();
        const std::string uri = (c.value("uri", false) ? "file://" : "") + base;
        json result{ { "e", "ret" } };
        {
            auto pool = std::make_shared<zarr::ThreadPool>(c.at("workers").get<unsigned>(), [](const std::string&) {});
            std::vector<std::unique_ptr<zarr::Sink>> sinks;
            std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> named;
            std::vector<ZarrDimension> dims;
            const auto& parts = c.at("parts");
            for (size_t i = 0; i < parts.size(); ++i)
                dims.emplace_back("d" + std::to_string(i), ZarrDimensionType_Space, parts[i].get<uint32_t>(), 1, 1);
            ArrayDimensions ad(std::move(dims), ZarrDataType_uint8);
            auto along = [&](const ZarrDimension& d) -> size_t { return parts[std::stoi(d.name.substr(1))].get<size_t>(); };
            bool ok = false;
            const std::string kind = c.at("kind");
            io::on_op = [] { sched::point(); };
            io::watch(root);
            if (c.contains("fault"))
                io::plan(io::Kind::Fail, c["fault"]["at"], c["fault"].value("err", EIO), c["fault"].value("len", 1));
            std::string threw;
            {
                zarr::SinkCreator cr(pool, nullptr);
                const std::function<size_t(const ZarrDimension&)> fn = along;
                try {
                    ok = kind == "data" ? cr.make_data_sinks(uri, &ad, fn, sinks)
                                        : cr.make_metadata_sinks(c.at("version"), uri, named);
                } catch (const std::exception& e) {
                    threw = "exception";
                }
                frames_below_are_dead();
                const long hits = io::hits();
                io::plan(io::Kind::None, 0);
                io::unwatch();
                result["ok"] = ok;
                result["hits"] = hits;
                result.update(listing(root));
                // whoever is still at it gets the chance
                for (int i = 0; i < 20; ++i) sched::yielded();
                sched::watch_stack(nullptr);
            }
            // every sink handed out is usable: what is written to it arrives in its file
            json to = json::array();
            const std::string root1 = root + "/";
            std::vector<std::pair<std::string, std::unique_ptr<zarr::Sink>>> all;
            if (kind == "data")
                for (size_t i = 0; i < sinks.size(); ++i) all.emplace_back(std::to_string(i), std::move(sinks[i]));
            else
                for (auto& [k, s] : named) all.emplace_back(k, std::move(s));
            std::sort(all.begin(), all.end(), [&](auto& a, auto& b) {
                return kind == "data" ? std::stoi(a.first) < std::stoi(b.first) : a.first < b.first;
            });
            std::map<std::string, std::string> want;
            std::vector<std::string> keys;
            for (auto& [k, s] : all) {
                const std::string m = "written to sink " + k + ";";
                keys.push_back(k);
                if (s && s->write(0, std::span((const std::byte*)m.data(), m.size())) && zarr::finalize_sink(std::move(s)))
                    want[m] = k;
                else want["-" + k] = k;
            }
            std::map<std::string, std::string> got; // key -> file
            for (std::string f : result["files"].get<std::vector<std::string>>()) {
                auto it = want.find(slurp(root1 + f));
                if (it != want.end()) got[it->second] = f;
            }
            json sk = json::array(), sf = json::array();
            for (auto& k : keys) {
                sk.push_back(k);
                sf.push_back(got.count(k) ? got[k] : "");
            }
            result["keys"] = sk;
            result["arrive"] = sf;
            pool.reset();
        }
        sched::note(result);
        std::error_code ec;
        fs::remove_all(root, ec);
    };
    sched::explore(c.at("explore"), one);
    std::error_code ec;
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
