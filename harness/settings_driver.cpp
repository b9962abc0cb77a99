// Creates a stream from settings given member by member (C07). "<null>" is a
// null pointer. Each case has its own directory, which is the current one:
//   adir/, afile, alink -> adir, readonly/ (mode 555), and at s.zarr (and
//   adir/s.zarr) what the case says; other things around it.
// Records whether a stream was returned and everything there before and after.
#include "acquire.zarr.h"
#include "cases.hh"
#include "ccall.hh"
#include "unpriv.hh"
#include <cstring>
#include <deque>
#include <miniocpp/client.h>
#include <vector>
namespace fs = std::filesystem;

static json tree(const fs::path& root)
{
    json j = json::object();
    std::error_code ec;
    for (auto& e : fs::recursive_directory_iterator(root, ec)) {
        const std::string p = e.path().string().substr(root.string().size() + 1);
        if (e.is_symlink()) j[p] = "-> " + fs::read_symlink(e.path()).string();
        else if (e.is_directory()) j[p] = "dir";
        else {
            std::ifstream f(e.path(), std::ios::binary);
            j[p] = "=" + std::string(std::istreambuf_iterator<char>(f), {});
        }
    }
    auto& srv = fakes3::Server::get();
    for (auto& [b, objs] : srv.buckets)
        for (auto& [k, v] : objs) j["s3:" + b + "/" + k] = "=" + v;
    if (j.empty()) j["(nothing)"] = "";
    return j;
}
static void put(const fs::path& p, const std::string& s)
{
    fs::create_directories(p.parent_path());
    std::ofstream(p, std::ios::binary) << s;
}

static void run(const json& c, const std::string& dir)
{
    const json& s = c.at("s");
    fs::create_directories(dir);
    const fs::path d(dir);
    fs::create_directories(d / "adir");
    fs::create_directories(d / "readonly");
    fs::create_directory_symlink("adir", d / "alink");
    put(d / "afile", "a file");
    put(d / "adir/other", "x");
    put(d / "s.zarr2/.zarray", "y");
    const std::string pre = s.at("pre");
    for (const char* at : { "s.zarr", "adir/s.zarr", "readonly/s.zarr" }) {
        if (pre == "file") put(d / at, "old file");
        if (pre == "dir") { put(d / at / "old/thing", "1"); put(d / at / "0/0/0", "2"); fs::create_directories(d / at / "empty"); }
        if (pre == "store") { put(d / at / ".zattrs", "{}"); put(d / at / "0/.zarray", "{}"); put(d / at / "zarr.json", "{}"); }
    }
    auto& srv = fakes3::Server::get();
    srv.reset();
    srv.buckets["bucket"];
    if (pre != "none") {
        srv.buckets["bucket"]["s.zarr/.zattrs"] = "old";
        srv.buckets["bucket"]["s.zarr/0/0/0/0/0"] = "old";
    }
    srv.buckets["bucket"]["other"] = "z";
    if (!s.at("s3").empty() && s["s3"][0]["bucket"].is_string()) {  // any valid bucket exists
        std::string b = s["s3"][0]["bucket"];
        const auto x = b.find_first_not_of(" \t\n"), y = b.find_last_not_of(" \t\n");
        if (x != std::string::npos) srv.buckets[b.substr(x, y - x + 1)];
    }

    unprivileged(dir);
    if (::chmod((dir + "/readonly").c_str(), 0555) || ::chdir(dir.c_str())) throw std::runtime_error("chdir");

    std::deque<std::string> keep;
    auto str = [&](const json& j) -> const char* {
        if (j == "<null>") return nullptr;
        keep.push_back(j.get<std::string>());
        return keep.back().c_str();
    };
    ZarrStreamSettings z{};
    ZarrS3Settings s3{};
    ZarrCompressionSettings comp{};
    std::vector<ZarrDimensionProperties> dims;
    z.version = (ZarrVersion)s.at("version").get<int>();
    z.data_type = (ZarrDataType)s.at("dtype").get<int>();
    const std::string path = s.at("path");
    z.store_path = path != "<null>" && path.find('/') != std::string::npos && std::string(". \t").find(path[0]) == std::string::npos && s["s3"].empty()
                     ? (keep.push_back(dir + "/" + path), keep.back().c_str()) : str(path);
    z.custom_metadata = str(s.at("custom"));
    z.multiscale = s.at("ms");
    if (!s["s3"].empty()) {
        auto& x = s["s3"][0];
        s3 = { str(x.at("endpoint")), str(x.at("bucket")), str(x.at("key")), str(x.at("secret")) };
        z.s3_settings = &s3;
    }
    if (!s.at("comp").empty()) {
        auto& x = s["comp"][0];
        comp = { (ZarrCompressor)x.at("compressor").get<int>(), (ZarrCompressionCodec)x.at("codec").get<int>(),
                 (uint8_t)x.at("level").get<int>(), (uint8_t)x.at("shuffle").get<int>() };
        z.compression_settings = &comp;
    }
    for (auto& x : s.at("dims")) {
        const char* name = x.at("utf8").get<bool>() ? str(x.at("name")) : "bad \xff\xfe name";
        dims.push_back({ name, (ZarrDimensionType)x.at("type").get<int>(), x.at("size").get<uint32_t>(),
                         x.at("chunk").get<uint32_t>(), x.at("shard").get<uint32_t>() });
    }
    z.dimension_count = s.at("count");
    if (!s.at("nodims").get<bool>()) {
        if (dims.capacity() == dims.size()) dims.reserve(dims.size() + 1); // (data() is never null)
        z.dimensions = dims.data();
    }
    const json before = tree(dir);
    cases::emit({ { "ev", "before" }, { "tree", before } });
    C_CALL(Zarr_set_log_level(ZarrLogLevel_None));
    ZarrStream* stream = C_CALL(ZarrStream_create(&z));
    const json after = tree(dir);
    cases::emit({ { "ev", "created" }, { "ok", stream != nullptr }, { "same", after == before } });
    if (after != before && !stream) cases::emit({ { "ev", "after" }, { "tree", after } });
    if (stream) C_CALL(ZarrStream_destroy(stream));
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
