// The C interface as the Python binding sees it: records what it is called
// with and answers as told. Loaded into the process together with the binding.
#include "acquire.zarr.h"
#include <nlohmann/json.hpp>
#include <map>
#include <string>

using json = nlohmann::json;
struct ZarrStream_s { int id; };

namespace {
std::string g_log;
int g_next = 0, g_level = 3, g_status = 0;
bool g_refuse = false;
std::map<ZarrStream*, int> g_live;

void log(json j) { g_log += j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n"; }
json str(const char* s) { return s ? json(std::string(s)) : json("<null>"); }
#define NAME(p, n, t) case p##_##n: return t;
std::string name(ZarrDataType t)
{
    switch (t) {
        NAME(ZarrDataType, uint8, "UINT8") NAME(ZarrDataType, uint16, "UINT16") NAME(ZarrDataType, uint32, "UINT32")
        NAME(ZarrDataType, uint64, "UINT64") NAME(ZarrDataType, int8, "INT8") NAME(ZarrDataType, int16, "INT16")
        NAME(ZarrDataType, int32, "INT32") NAME(ZarrDataType, int64, "INT64") NAME(ZarrDataType, float32, "FLOAT32")
        NAME(ZarrDataType, float64, "FLOAT64") default: return "?" + std::to_string((int)t);
    }
}
std::string name(ZarrVersion v)
{
    switch (v) { NAME(ZarrVersion, 2, "V2") NAME(ZarrVersion, 3, "V3") default: return "?" + std::to_string((int)v); }
}
std::string name(ZarrCompressor v)
{
    switch (v) { NAME(ZarrCompressor, None, "NONE") NAME(ZarrCompressor, Blosc1, "BLOSC1") default: return "?" + std::to_string((int)v); }
}
std::string name(ZarrCompressionCodec v)
{
    switch (v) {
        NAME(ZarrCompressionCodec, None, "NONE") NAME(ZarrCompressionCodec, BloscLZ4, "BLOSC_LZ4")
        NAME(ZarrCompressionCodec, BloscZstd, "BLOSC_ZSTD") default: return "?" + std::to_string((int)v);
    }
}
std::string name(ZarrDimensionType v)
{
    switch (v) {
        NAME(ZarrDimensionType, Space, "SPACE") NAME(ZarrDimensionType, Channel, "CHANNEL")
        NAME(ZarrDimensionType, Time, "TIME") NAME(ZarrDimensionType, Other, "OTHER")
        default: return "?" + std::to_string((int)v);
    }
}
std::string name(ZarrLogLevel v)
{
    switch (v) {
        NAME(ZarrLogLevel, Debug, "DEBUG") NAME(ZarrLogLevel, Info, "INFO") NAME(ZarrLogLevel, Warning, "WARNING")
        NAME(ZarrLogLevel, Error, "ERROR") NAME(ZarrLogLevel, None, "NONE") default: return "?" + std::to_string((int)v);
    }
}
int id(ZarrStream* s) { auto it = g_live.find(s); return it == g_live.end() ? -1 : it->second; }
}

extern "C" {
__attribute__((visibility("default"))) const char* stub_take()
{
    static std::string s;
    s.swap(g_log);
    g_log.clear();
    return s.c_str();
}
__attribute__((visibility("default"))) void stub_answer(int refuse, int status) { g_refuse = refuse; g_status = status; }

const char* Zarr_get_api_version() { return "0"; }
ZarrStatusCode Zarr_set_log_level(ZarrLogLevel level)
{
    log({ { "c", "set_level" }, { "level", name(level) } });
    if (g_status) return (ZarrStatusCode)g_status;
    g_level = level;
    return ZarrStatusCode_Success;
}
ZarrLogLevel Zarr_get_log_level() { return (ZarrLogLevel)g_level; }
const char* Zarr_get_status_message(ZarrStatusCode code)
{
    static std::string m[64];
    m[code % 64] = "status " + std::to_string((int)code) + "!";
    return m[code % 64].c_str();
}
ZarrStatusCode ZarrStreamSettings_create_dimension_array(ZarrStreamSettings* s, size_t n)
{
    s->dimensions = new ZarrDimensionProperties[n]();
    s->dimension_count = n;
    return ZarrStatusCode_Success;
}
void ZarrStreamSettings_destroy_dimension_array(ZarrStreamSettings* s)
{
    delete[] s->dimensions;
    s->dimensions = nullptr;
    s->dimension_count = 0;
}
ZarrStream* ZarrStream_create(ZarrStreamSettings* s)
{
    json j{ { "c", "create" }, { "store_path", str(s->store_path) }, { "custom", str(s->custom_metadata) },
            { "multiscale", s->multiscale }, { "data_type", name(s->data_type) }, { "version", name(s->version) } };
    j["s3"] = json::array();
    if (s->s3_settings)
        j["s3"] = { str(s->s3_settings->endpoint), str(s->s3_settings->bucket_name),
                    str(s->s3_settings->access_key_id), str(s->s3_settings->secret_access_key) };
    j["comp"] = json::array();
    if (s->compression_settings)
        j["comp"] = { name(s->compression_settings->compressor), name(s->compression_settings->codec),
                      std::to_string(s->compression_settings->level), std::to_string(s->compression_settings->shuffle) };
    j["dims"] = json::array();
    for (size_t i = 0; i < s->dimension_count; ++i) {
        auto& d = s->dimensions[i];
        // (sizes as text: they may be beyond TLC's integers)
        j["dims"].push_back({ str(d.name), name(d.type), std::to_string(d.array_size_px),
                              std::to_string(d.chunk_size_px), std::to_string(d.shard_size_chunks) });
    }
    if (g_refuse) {
        j["id"] = 0;
        log(j);
        return nullptr;
    }
    auto* z = new ZarrStream_s{ ++g_next };
    g_live[z] = z->id;
    j["id"] = z->id;
    log(j);
    return z;
}
void ZarrStream_destroy(ZarrStream* z)
{
    log({ { "c", "destroy" }, { "id", id(z) } });
    if (g_live.erase(z)) delete z;
}
ZarrStatusCode ZarrStream_append(ZarrStream* z, const void* data, size_t n, size_t* out)
{
    json b = json::array();
    for (size_t i = 0; i < n; ++i) b.push_back((int)static_cast<const unsigned char*>(data)[i]);
    log({ { "c", "append" }, { "id", id(z) }, { "bytes", b }, { "null", data == nullptr } });
    if (out) *out = g_status ? 0 : n;
    return (ZarrStatusCode)g_status;
}
}
