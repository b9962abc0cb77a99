// Calls the C interface in the orders of Api.tla (C20) and records results and
// the state of the settings after every call.
#include "cases.hh"
#include "settings.hh"
#include "unpriv.hh"
#ifndef NO_HEAP
#include "heap_shim.hh"
#endif
#include <deque>
#include <miniocpp/client.h>
namespace fs = std::filesystem;

static void dump_s3(const std::string& dir)
{
    for (auto& [bucket, objs] : fakes3::Server::get().buckets)
        for (auto& [key, data] : objs) {
            const fs::path p = fs::path(dir) / "s3" / bucket / key;
            fs::create_directories(p.parent_path());
            std::ofstream(p, std::ios::binary) << data;
        }
}
static void run(const json& c, const std::string& dir)
{
    fs::create_directories(dir);
    unprivileged(dir);
    fakes3::Server::get().buckets["bucket"];
    C_CALL(Zarr_set_log_level(ZarrLogLevel_Debug));     // everything there is to initialise
    C_CALL(ZarrStream_append(nullptr, nullptr, 0, nullptr));
    C_CALL(ZarrStreamSettings_create_dimension_array(nullptr, 3));
    C_CALL(Zarr_set_log_level(ZarrLogLevel_None));
    auto good = std::make_unique<Settings>(c.at("settings"), dir);
    ZarrStreamSettings z = good->s;
    z.dimensions = nullptr;
    z.dimension_count = 0;
    std::deque<std::string> names;
    ZarrStream* stream = nullptr;
    size_t total = 0, made = 0;
    long arrays = 0;
    const size_t frame = c.at("frame");
#ifndef NO_HEAP
    heap::on();
    auto live = [] { return heap::blocks(); };
#else
    auto live = [] { return 0L; };
#endif
    for (auto& op : c.at("ops")) {
        const std::string what = op.at("op");
        json e = op, r = json::object();
        if (what == "set") r["st"] = (int)C_CALL(Zarr_set_log_level((ZarrLogLevel)op.at("n").get<int>()));
        else if (what == "get") { r["level"] = (int)C_CALL(Zarr_get_log_level()); r["version"] = Zarr_get_api_version(); }
        else if (what == "msg") {
            const char* m = Zarr_get_status_message((ZarrStatusCode)op.at("n").get<int>());
            r["text"] = m ? m : "";
        } else if (what == "newdims") {
            const long n = op.at("n");
            auto* before = z.dimensions;
            const auto nb = z.dimension_count;
            const size_t want = n < 0 ? (made % 2 ? SIZE_MAX / 2 : ((size_t)1 << 58)) : n;
            ++made;
            const bool given = op.at("given");
            const long a = live();
            const int st = C_CALL(ZarrStreamSettings_create_dimension_array(given ? &z : nullptr, want));
            arrays += live() - a;
            r["st"] = st;
            if (r["st"] == 0 && z.dimensions) memset(z.dimensions, 0, z.dimension_count * sizeof *z.dimensions);
            else if (before != z.dimensions || nb != z.dimension_count) r["st"] = 100; // changed by a refused call
        } else if (what == "dropdims") {
            const bool given = op.at("given");
            const long a = live();
            C_CALL(ZarrStreamSettings_destroy_dimension_array(given ? &z : nullptr));
            arrays += live() - a;
        } else if (what == "fill") {
            for (size_t i = 0; i < z.dimension_count; ++i) {
                if (op.at("good").get<bool>()) {
                    z.dimensions[i] = good->s.dimensions[i];
                    names.push_back(good->names[i]);
                    z.dimensions[i].name = names.back().c_str();
                } else z.dimensions[i].name = nullptr;
            }
        } else if (what == "create") {
            // (a stream does not clear what an S3 bucket holds under its path)
            auto& bucket = fakes3::Server::get().buckets["bucket"];
            const auto saved = bucket;
            bucket.clear();
            stream = C_CALL(ZarrStream_create(op.at("given").get<bool>() ? &z : nullptr));
            r["ok"] = stream != nullptr;
            if (!stream) bucket = saved;
            if (stream) {           // the stream keeps nothing of the caller's
                for (auto& n : names) n.assign(n.size(), '?');
                total = 0;
                for (size_t i = 0; i < z.dimension_count; ++i) {    // (the array stays valid)
                    names.push_back(good->names[i]);
                    z.dimensions[i].name = names.back().c_str();
                }
            }
        } else if (what == "append") {
            const std::string a = op.at("amount");
            size_t n = a == "zero" ? 0 : a == "one" ? 1 : a == "part" ? frame / 2 + 1 : a == "frame" ? frame : 2 * frame + 1;
            auto data = good->bytes(total, n);
            const size_t mark = 0xfeedfacefeedfaceull;
            size_t out = mark;
            r["st"] = (int)C_CALL(ZarrStream_append(op.at("given").get<bool>() ? stream : nullptr, op.at("data").get<bool>() ? data.get() : nullptr,
                                             n, op.at("out").get<bool>() ? &out : nullptr));
            r["untouched"] = out == mark;
            r["out"] = out == mark ? -1L : (long)out;
            if (r["st"] == 0) total += n;
            e["n"] = n;
        } else if (what == "destroy") {
            C_CALL(ZarrStream_destroy(op.at("given").get<bool>() ? stream : nullptr));
            if (op.at("given").get<bool>()) stream = nullptr;
        } else continue;
        e["r"] = r;
        e["s"] = { { "null", z.dimensions == nullptr }, { "count", z.dimension_count },
#ifndef NO_HEAP
                   { "arrays", arrays } };
#else
                   { "arrays", -1 } };
#endif
        cases::emit({ { "ev", "call" }, { "e", e } });
    }
    if (stream) C_CALL(ZarrStream_destroy(stream));
    C_CALL(ZarrStreamSettings_destroy_dimension_array(&z));
    dump_s3(dir);
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
