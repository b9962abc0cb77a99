// The arithmetic of array layouts, asked through ArrayDimensions.
#include "cases.hh"
#include "zarr.common.hh"
#include "zarr.dimension.hh"

static void run(const json& c, const std::string&)
{
    std::vector<ZarrDimension> dims;
    for (auto& d : c.at("dims"))
        dims.emplace_back(d.at("n").get<std::string>(), ZarrDimensionType_Space, d.at("s").get<uint32_t>(),
                          d.at("c").get<uint32_t>(), d.at("h").get<uint32_t>());
    const auto type = static_cast<ZarrDataType>(c.at("dtype").get<int>());
    auto copy = dims;
    ArrayDimensions a(std::move(copy), type);
    const int n = a.ndims();
    json along = json::array(), salong = json::array();
    for (auto& d : dims) {
        along.push_back(zarr::chunks_along_dimension(d));
        salong.push_back(zarr::shards_along_dimension(d));
    }
    cases::emit({ { "ev", "counts" }, { "nd", n }, { "along", along }, { "salong", salong },
                  { "chunks", a.number_of_chunks_in_memory() }, { "bpc", a.bytes_per_chunk() },
                  { "bpp", zarr::bytes_of_type(type) }, { "bpf", zarr::bytes_of_frame(a, type) },
                  { "shards", a.number_of_shards() }, { "cps", a.chunks_per_shard() } });
    json fr = json::array(), sh = json::array();
    for (auto& f : c.at("frames")) {
        const uint64_t id = f;
        json lat = json::array();
        for (int i = 0; i < n - 2; ++i) lat.push_back(a.chunk_lattice_index(id, i));
        fr.push_back({ { "f", id }, { "lat", lat }, { "tgo", a.tile_group_offset(id) }, { "cio", a.chunk_internal_offset(id) } });
    }
    for (auto& k : c.at("chunks")) {
        const uint32_t id = k;
        sh.push_back({ { "k", id }, { "shard", a.shard_index_for_chunk(id) }, { "slot", a.shard_internal_index(id) } });
    }
    cases::emit({ { "ev", "maps" }, { "frames", fr }, { "chunks", sh } });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
