// Reference model: what was asked to be stored, an independent record codec, an independent byte-level parser and
// validator of LAS 1.4 / LAZ / COPC files, and an independent encoder that lays files out in ways the writer does not.
#pragma once
#include "core.hpp"
#include <array>
#include <set>
#include <tuple>

namespace sim
{
struct K
{
    int32_t d = -1, x = -1, y = -1, z = -1;
    bool operator<(const K &o) const { return std::tie(d, x, y, z) < std::tie(o.d, o.x, o.y, o.z); }
    bool operator==(const K &o) const { return d == o.d && x == o.x && y == o.y && z == o.z; }
    bool operator!=(const K &o) const { return !(*this == o); }
    bool valid() const { return d >= 0 && x >= 0 && y >= 0 && z >= 0; }
    bool octree() const // a descendant of the root
    {
        if (!valid())
            return false;
        int64_t n = d >= 31 ? (int64_t(1) << 31) : (int64_t(1) << d);
        return x < n && y < n && z < n;
    }
    K up(int to) const
    {
        int s = d - to;
        if (s >= 31)
            return K{to, 0, 0, 0};
        return K{to, x >> s, y >> s, z >> s};
    }
    bool under(const K &p) const { return valid() && p.valid() && p.d <= d && up(p.d) == p; }
    std::string s() const
    {
        return std::to_string(d) + "-" + std::to_string(x) + "-" + std::to_string(y) + "-" + std::to_string(z);
    }
};
static const K ROOT{0, 0, 0, 0};

struct Eb
{
    uint8_t reserved[2]{};
    uint8_t data_type = 1;
    uint8_t options = 0;
    std::string name, desc;
    double nodata[3]{}, minv[3]{}, maxv[3]{}, scale[3]{}, offset[3]{};
    int bytes() const;
    std::string encode() const; // 192 bytes
};
struct Ext
{
    double mn = 0, mx = 0, mean = 0, var = 1;
};
struct Meta
{
    int pf = 6;
    double scale[3]{0.01, 0.01, 0.01}, offset[3]{0, 0, 0};
    uint16_t fsid = 0, genc = 0, day = 0, year = 0;
    std::string guid, sysid, gensw;
    double mn[3]{}, mx[3]{};
    uint64_t pbr[15]{};
    std::string wkt;
    std::vector<Eb> eb;
    int raw_eb = 0; // extra bytes in the records that no description record covers
    bool copc = true;
    double info[5]{}; // center x y z, halfsize, spacing
    bool ext = false;
    bool has_extents = true;
    std::vector<Ext> extents;
    int ebbytes() const;
    int reclen() const;
    int nbase() const { return pf == 6 ? 14 : pf == 7 ? 17 : 18; }
};
inline int base_len(int pf) { return pf == 6 ? 30 : pf == 7 ? 36 : 38; }

struct NodeM
{
    std::string recs;
    int64_t count = 0;
    K page;
};

// ---- independent parser
struct VlrP
{
    uint64_t at, data, len;
    bool ev;
    std::string user, desc;
    int id;
};
struct EntryP
{
    K key, page;
    uint64_t off;
    int32_t size, count;
    uint64_t at; // where the 32 bytes are
};
struct PageP
{
    K key, parent;
    uint64_t off;
    uint64_t size;
};
struct Parsed
{
    std::string err; // first problem, empty if the file is well formed
    Meta m;
    uint64_t point_count = 0, evlr_offset = 0, root_off = 0, root_size = 0;
    uint32_t legacy_count = 0, point_offset = 0, vlr_count = 0, evlr_count = 0;
    int reclen = 0;
    double gps_min = 0, gps_max = 0;
    std::vector<VlrP> vlrs;
    std::vector<std::pair<uint64_t, uint64_t>> chunks; // absolute offset, point count
    uint64_t chunk_table = 0, chunk_end = 0;
    std::map<K, EntryP> nodes;
    std::map<K, PageP> pages;
    std::vector<uint64_t> key_spots; // file offsets of structural fields, for targeted damage
};
// strict: everything a writer of this library must satisfy; otherwise only what a reader needs.
Parsed parse_file(const std::string &bytes, bool copc);
std::string decode_chunk(const std::string &bytes, uint64_t off, uint64_t end, const Meta &m, uint64_t count);
std::string encode_chunk(const std::string &recs, const Meta &m);

// ---- independent encoder
struct EncOpts
{
    uint64_t seed = 0;
    int wkt_as_vlr = 0;   // 0: EVLR, 1: plain VLR
    int extents = 1;      // 0: no extents record
    int single_hier = 0;  // 1: all pages in one EVLR
    int odd_vlrs = 0;     // unknown records in between
    int shuffle = 0;      // chunks and entries in another order
    int eb_vlr = 1;       // 0: extra bytes without description record
    int evlr = 0;         // stored as EVLRs: 1 extra bytes description, 2 extents, 4 extended stats
};
std::string encode_copc(const Meta &m, const std::map<K, NodeM> &nodes, const std::set<K> &pages, const EncOpts &o);
std::string encode_laz(const Meta &m, const std::vector<std::string> &chunks, const EncOpts &o);

// ---- generators
Meta gen_meta(Rng &r, bool copc, int style);
std::string gen_records(Rng &r, const Meta &m, int64_t n, int style, const int64_t *lo = nullptr,
                        const int64_t *hi = nullptr);
std::string gen_text(Rng &r, size_t n);
std::string as_guid(std::string s);
K gen_key(Rng &r, int maxd);

// differences between the metadata read from bytes and the expected one ("" if none)
std::string diff_meta(const Meta &want, const Meta &got);
inline std::string hexs(const std::string &s, size_t n = 16)
{
    static const char *h = "0123456789abcdef";
    std::string o;
    for (size_t i = 0; i < s.size() && i < n; i++)
    {
        o += h[(s[i] >> 4) & 15];
        o += h[s[i] & 15];
    }
    return o;
}
} // namespace sim
