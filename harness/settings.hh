// Settings and pixel data of a scenario (JSON), shared by the drivers.
#pragma once
#include "acquire.zarr.h"
#include "ccall.hh"
#include <cmath>
#include <cstring>
#include <memory>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

using json = nlohmann::json;


struct Settings
{
    ZarrStreamSettings s{};
    ZarrS3Settings s3{};
    ZarrCompressionSettings comp{};
    std::vector<std::string> names;
    std::vector<ZarrDimensionProperties> dims;
    std::string store, custom, endpoint, bucket, key, secret;
    // pixel values
    long add = 0, mul = 1, step = 1, off = 0, m = 251, unit = 0;

    static ZarrDimensionType dim_type(const std::string& t)
    {
        return t == "space"     ? ZarrDimensionType_Space
               : t == "channel" ? ZarrDimensionType_Channel
               : t == "time"    ? ZarrDimensionType_Time
                                : ZarrDimensionType_Other;
    }
    static int dtype_of(const std::string& t)
    {
        static const char* n[] = { "uint8", "uint16", "uint32", "uint64", "int8",
                                   "int16", "int32", "int64", "float32", "float64" };
        for (int i = 0; i < 10; ++i)
            if (t == n[i]) return i;
        return 99;
    }
    static int bytes_of(int t) { static const int b[] = { 1, 2, 4, 8, 1, 2, 4, 8, 4, 8 }; return b[t]; }

    Settings(const json& j, const std::string& root)
    {
        const bool fs = j.value("fs", true);
        store = fs ? root + "/" + j.value("store", "s.zarr") : j.value("store", "s.zarr");
        s.store_path = store.c_str();
        s.version = static_cast<ZarrVersion>(j.at("v").get<int>());
        s.multiscale = j.value("ms", false);
        s.data_type = static_cast<ZarrDataType>(dtype_of(j.at("dtype")));
        if (j.contains("custom") && !j["custom"].is_null()) {
            custom = j["custom"];
            s.custom_metadata = custom.c_str();
        }
        if (j.contains("comp") && !j["comp"].is_null()) {
            comp.compressor = static_cast<ZarrCompressor>(j["comp"].value("compressor", 1));
            comp.codec = static_cast<ZarrCompressionCodec>(j["comp"].value("codec", 1));
            comp.level = j["comp"].value("level", 1);
            comp.shuffle = j["comp"].value("shuffle", 1);
            s.compression_settings = &comp;
        }
        if (!fs) {
            endpoint = j.value("endpoint", "http://localhost:9000");
            bucket = j.value("bucket", "bucket");
            key = "access"; secret = "secret";
            s3 = { endpoint.c_str(), bucket.c_str(), key.c_str(), secret.c_str() };
            s.s3_settings = &s3;
        }
        for (auto& d : j.at("dims")) names.push_back(d.at("n"));
        size_t i = 0;
        for (auto& d : j.at("dims"))
            dims.push_back({ names[i++].c_str(), dim_type(d.at("ty")), d.at("s").get<uint32_t>(),
                             d.at("c").get<uint32_t>(), d.at("h").get<uint32_t>() });
        s.dimensions = dims.data();
        s.dimension_count = dims.size();
        if (j.contains("val")) {
            auto& v = j["val"];
            add = v.at("add"); mul = v.at("mul"); step = v.at("step"); off = v.at("off"); m = v.at("m");
        }
        unit = j.value("unit", 0);
    }
    Settings(const Settings&) = delete;

    int bpp() const { return bytes_of(s.data_type); }

    template<typename T> static void put(std::byte* p, long a, long unit)
    {
        T t;
        if constexpr (std::is_floating_point_v<T>) t = static_cast<T>(std::ldexp(static_cast<double>(a), unit));
        else t = static_cast<T>(static_cast<uint64_t>(a) << unit);
        memcpy(p, &t, sizeof t);
    }
    void pixel(std::byte* p, size_t k) const
    {
        const long a = add + mul * static_cast<long>((k * static_cast<size_t>(step) + off) % m);
        switch (s.data_type) {
            case ZarrDataType_uint8: return put<uint8_t>(p, a, unit);
            case ZarrDataType_uint16: return put<uint16_t>(p, a, unit);
            case ZarrDataType_uint32: return put<uint32_t>(p, a, unit);
            case ZarrDataType_uint64: return put<uint64_t>(p, a, unit);
            case ZarrDataType_int8: return put<int8_t>(p, a, unit);
            case ZarrDataType_int16: return put<int16_t>(p, a, unit);
            case ZarrDataType_int32: return put<int32_t>(p, a, unit);
            case ZarrDataType_int64: return put<int64_t>(p, a, unit);
            case ZarrDataType_float32: return put<float>(p, a, unit);
            default: return put<double>(p, a, unit);
        }
    }
    // bytes [from, from + n) of the stream, in a buffer of exactly n bytes
    std::unique_ptr<std::byte[]> bytes(size_t from, size_t n) const
    {
        const size_t b = bpp(), period = b * m; // the values repeat after m pixels
        if (values.empty()) {
            values.resize(period);
            for (long k = 0; k < m; ++k) pixel(values.data() + k * b, k);
        }
        std::unique_ptr<std::byte[]> out(new std::byte[n ? n : 1]);
        for (size_t i = 0; i < n;) {
            const size_t o = (from + i) % period, c = std::min(period - o, n - i);
            memcpy(out.get() + i, values.data() + o, c);
            i += c;
        }
        return out;
    }

  private:
    mutable std::vector<std::byte> values;
};
