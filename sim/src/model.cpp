#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <lazperf/lazperf.hpp>
#include <limits>

namespace sim
{
static const int EBLEN[31] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 2, 2, 4, 4, 8, 8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24};
int Eb::bytes() const { return data_type == 0 ? options : data_type < 31 ? EBLEN[data_type] : 0; }
int Meta::ebbytes() const
{
    int n = raw_eb;
    for (auto &e : eb)
        n += e.bytes();
    return n;
}
int Meta::reclen() const { return base_len(pf) + ebbytes(); }

namespace
{
struct W
{
    std::string s;
    template <typename T> W &n(T v)
    {
        s.append(reinterpret_cast<const char *>(&v), sizeof v);
        return *this;
    }
    W &str(const std::string &t, size_t len)
    {
        std::string u = t.substr(0, len);
        u.resize(len, '\0');
        s += u;
        return *this;
    }
    W &raw(const std::string &t)
    {
        s += t;
        return *this;
    }
};
struct R
{
    const std::string &b;
    uint64_t at;
    bool ok = true;
    template <typename T> T n()
    {
        T v{};
        if (at > b.size() || b.size() - at < sizeof(T))
        {
            ok = false;
            return v;
        }
        std::memcpy(&v, b.data() + at, sizeof(T));
        at += sizeof(T);
        return v;
    }
    // binary field: only the padding goes
    std::string bin(size_t len)
    {
        size_t from = at;
        str(len);
        if (!ok)
            return "";
        std::string t = b.substr(from, len);
        while (!t.empty() && !t.back())
            t.pop_back();
        return t;
    }
    std::string str(size_t len)
    {
        if (at > b.size() || b.size() - at < len)
        {
            ok = false;
            return "";
        }
        std::string t = b.substr(at, len);
        at += len;
        size_t z = t.find('\0');
        return z == std::string::npos ? t : t.substr(0, z);
    }
};
void put_varint(std::string &o, uint64_t v)
{
    while (v >= 0x80)
    {
        o += static_cast<char>(v | 0x80);
        v >>= 7;
    }
    o += static_cast<char>(v);
}
uint64_t get_varint(R &r)
{
    uint64_t v = 0;
    for (int sh = 0; sh < 64; sh += 7)
    {
        uint8_t b = r.n<uint8_t>();
        v |= static_cast<uint64_t>(b & 0x7f) << sh;
        if (!(b & 0x80) || !r.ok)
            return v;
    }
    r.ok = false;
    return v;
}
} // namespace

std::string Eb::encode() const
{
    W w;
    w.n(reserved[0]).n(reserved[1]).n(data_type).n(options).str(name, 32).n<uint32_t>(0);
    for (auto a : {nodata, minv, maxv, scale, offset})
        for (int i = 0; i < 3; i++)
            w.n(a[i]);
    w.str(desc, 32);
    return w.s;
}

Parsed parse_file(const std::string &b, bool copc)
{
    Parsed p;
    auto bad = [&](const std::string &e)
    {
        if (p.err.empty())
            p.err = e;
    };
    auto S = [](uint64_t v) { return std::to_string(v); };
    if (b.size() < 375)
    {
        bad("file of " + S(b.size()) + " bytes is shorter than a LAS header");
        return p;
    }
    R r{b, 0};
    if (b.compare(0, 4, "LASF") != 0)
    {
        bad("no LASF signature");
        return p;
    }
    r.at = 4;
    Meta &m = p.m;
    m.copc = copc;
    m.fsid = r.n<uint16_t>();
    m.genc = r.n<uint16_t>();
    m.guid = r.bin(16);
    uint8_t vj = r.n<uint8_t>(), vn = r.n<uint8_t>();
    if (vj != 1 || vn != 4)
        bad("version is not 1.4");
    m.sysid = r.str(32);
    m.gensw = r.str(32);
    m.day = r.n<uint16_t>();
    m.year = r.n<uint16_t>();
    uint16_t hs = r.n<uint16_t>();
    if (hs != 375)
        bad("header size is " + S(hs));
    p.point_offset = r.n<uint32_t>();
    p.vlr_count = r.n<uint32_t>();
    uint8_t pf = r.n<uint8_t>();
    if (pf != (128 | 6) && pf != (128 | 7) && pf != (128 | 8))
    {
        bad("point format byte is " + S(pf));
        return p;
    }
    m.pf = pf & 63;
    p.reclen = r.n<uint16_t>();
    if (p.reclen < base_len(m.pf))
        bad("record length " + S(static_cast<uint64_t>(p.reclen)) + " too small for the format");
    p.legacy_count = r.n<uint32_t>();
    for (int i = 0; i < 5; i++)
        if (r.n<uint32_t>() != 0)
            bad("legacy return counts are not zero");
    for (auto &v : m.scale)
        v = r.n<double>();
    for (auto &v : m.offset)
        v = r.n<double>();
    for (int i = 0; i < 3; i++)
    {
        m.mx[i] = r.n<double>();
        m.mn[i] = r.n<double>();
    }
    if (r.n<uint64_t>() != 0)
        bad("waveform offset is not zero");
    p.evlr_offset = r.n<uint64_t>();
    p.evlr_count = r.n<uint32_t>();
    p.point_count = r.n<uint64_t>();
    for (auto &v : m.pbr)
        v = r.n<uint64_t>();
    if (p.legacy_count != 0 && p.legacy_count != p.point_count)
        bad("legacy point count differs from the point count");
    if (!(m.genc & 0x10))
        bad("WKT bit not set");
    // VLRs
    uint64_t at = 375;
    auto vlr = [&](bool ev) -> bool
    {
        VlrP v;
        v.at = at;
        v.ev = ev;
        R q{b, at};
        q.n<uint16_t>();
        v.user = q.str(16);
        v.id = q.n<uint16_t>();
        v.len = ev ? q.n<uint64_t>() : q.n<uint16_t>();
        v.desc = q.str(32);
        v.data = q.at;
        if (!q.ok || v.len > b.size() || v.data + v.len > b.size())
        {
            bad(std::string(ev ? "EVLR" : "VLR") + " at " + S(at) + " runs past the end of the file");
            return false;
        }
        at = v.data + v.len;
        p.vlrs.push_back(v);
        return true;
    };
    for (uint32_t i = 0; i < p.vlr_count; i++)
    {
        if (!vlr(false))
            return p;
        if (at > p.point_offset)
        {
            bad("VLR " + S(i) + " runs into the point data");
            return p;
        }
    }
    if (at != p.point_offset)
        bad("VLRs end at " + S(at) + " but point data starts at " + S(p.point_offset));
    // chunk table
    R c{b, p.point_offset};
    p.chunk_table = c.n<uint64_t>();
    if (!c.ok || p.chunk_table < p.point_offset + 8ull || p.chunk_table + 8 > b.size())
    {
        bad("chunk table offset " + S(p.chunk_table) + " is outside the file");
        return p;
    }
    c.at = p.chunk_table;
    if (c.n<uint32_t>() != 0)
        bad("chunk table version is not 0");
    uint32_t nc = c.n<uint32_t>();
    uint64_t pos = p.point_offset + 8ull, total = 0;
    for (uint32_t i = 0; i < nc && c.ok; i++)
    {
        uint64_t cnt = get_varint(c), len = get_varint(c);
        p.chunks.push_back({pos, cnt});
        pos += len;
        total += cnt;
    }
    if (!c.ok)
    {
        bad("chunk table runs past the end of the file");
        return p;
    }
    p.chunk_end = pos;
    if (pos > p.chunk_table)
        bad("chunks end at " + S(pos) + ", beyond the chunk table at " + S(p.chunk_table));
    if (total != p.point_count)
        bad("chunk table holds " + S(total) + " points, header says " + S(p.point_count));
    // EVLRs
    at = p.evlr_offset;
    if (p.evlr_count)
    {
        if (at < c.at)
            bad("EVLRs at " + S(at) + " overlap the chunk table ending at " + S(c.at));
        for (uint32_t i = 0; i < p.evlr_count; i++)
            if (!vlr(true))
                return p;
        if (at != b.size())
            bad("file continues after the last EVLR (" + S(at) + " of " + S(b.size()) + ")");
    }
    else if (c.at != b.size())
        bad("file continues after the chunk table");
    // known records
    auto find = [&](const std::string &u, int id) -> const VlrP *
    {
        const VlrP *f = nullptr;
        for (auto &v : p.vlrs)
            if (v.user == u && v.id == id)
            {
                if (f)
                    bad("record " + u + "/" + std::to_string(id) + " appears twice");
                else
                    f = &v;
            }
        return f;
    };
    const VlrP *lz = find("laszip encoded", 22204);
    if (!lz || lz->ev)
        bad("no LASZIP record");
    else
    {
        R q{b, lz->data};
        uint16_t comp = q.n<uint16_t>();
        q.at += 10;
        uint32_t cs = q.n<uint32_t>();
        q.at += 16;
        uint16_t ni = q.n<uint16_t>();
        uint64_t sum = 0;
        for (int i = 0; i < ni; i++)
        {
            q.n<uint16_t>();
            sum += q.n<uint16_t>();
            q.n<uint16_t>();
        }
        if (comp != 3 || cs != 0xffffffffu || lz->len != 34u + 6u * ni || sum != static_cast<uint64_t>(p.reclen))
            bad("LASZIP record does not describe the points");
    }
    if (const VlrP *e = find("LASF_Spec", 4))
    {
        if (e->len % 192)
            bad("extra bytes record has a bad length");
        for (uint64_t i = 0; i + 192 <= e->len; i += 192)
        {
            R q{b, e->data + i};
            Eb x;
            x.reserved[0] = q.n<uint8_t>();
            x.reserved[1] = q.n<uint8_t>();
            x.data_type = q.n<uint8_t>();
            x.options = q.n<uint8_t>();
            x.name = q.str(32);
            q.n<uint32_t>();
            for (auto a : {x.nodata, x.minv, x.maxv, x.scale, x.offset})
                for (int j = 0; j < 3; j++)
                    a[j] = q.n<double>();
            x.desc = q.str(32);
            m.eb.push_back(x);
        }
    }
    // a record may have extra bytes that nothing describes, not the reverse
    m.raw_eb = 0;
    m.raw_eb = p.reclen - base_len(m.pf) - m.ebbytes();
    if (m.raw_eb < 0)
    {
        bad("record length does not match the extra bytes description");
        m.raw_eb = 0;
    }
    if (const VlrP *w = find("LASF_Projection", 2112))
        m.wkt = b.substr(w->data, w->len);
    if (!copc)
        return p;
    const VlrP *in = find("copc", 1);
    if (!in || in->at != 375 || in->len != 160)
    {
        bad("COPC info record is not at its place");
        return p;
    }
    {
        R q{b, in->data};
        for (auto &v : m.info)
            v = q.n<double>();
        p.root_off = q.n<uint64_t>();
        p.root_size = q.n<uint64_t>();
        p.gps_min = q.n<double>();
        p.gps_max = q.n<double>();
    }
    const VlrP *ex = find("copc", 10000), *es = find("rock_robotic", 10001);
    m.ext = es != nullptr;
    m.has_extents = ex != nullptr;
    if (ex)
    {
        size_t want = static_cast<size_t>(m.nbase()) + m.eb.size();
        if (ex->len != want * 16 || (es && es->len != want * 16))
            bad("extents record has " + S(ex->len / 16) + " entries instead of " + S(want));
        R q{b, ex->data};
        for (uint64_t i = 0; i < ex->len / 16; i++)
        {
            Ext e;
            e.mn = q.n<double>();
            e.mx = q.n<double>();
            m.extents.push_back(e);
        }
        if (es)
        {
            R t{b, es->data};
            for (uint64_t i = 0; i < es->len / 16 && i < m.extents.size(); i++)
            {
                m.extents[i].mean = t.n<double>();
                m.extents[i].var = t.n<double>();
            }
        }
        if (m.extents.size() > 13 && (m.extents[13].mn != p.gps_min || m.extents[13].mx != p.gps_max))
            bad("GPS time range in the COPC info record differs from the extents");
    }
    // hierarchy
    std::vector<std::pair<uint64_t, uint64_t>> hier; // payloads of hierarchy EVLRs
    for (auto &v : p.vlrs)
        if (v.user == "copc" && v.id == 1000)
            hier.push_back({v.data, v.data + v.len});
    struct Todo
    {
        K key, parent;
        uint64_t off, size;
    };
    std::vector<Todo> todo{{ROOT, K{}, p.root_off, p.root_size}};
    std::map<uint64_t, uint64_t> ranges;
    while (!todo.empty())
    {
        Todo t = todo.back();
        todo.pop_back();
        if (p.pages.count(t.key))
        {
            bad("page " + t.key.s() + " is referenced twice");
            continue;
        }
        p.pages[t.key] = PageP{t.key, t.parent, t.off, t.size};
        bool inside = t.size == 0;
        for (auto &h : hier)
            if (t.off >= h.first && t.off <= h.second && t.size <= h.second - t.off)
                inside = true;
        if (!inside || t.size % 32)
        {
            bad("page " + t.key.s() + " is not inside a hierarchy record");
            continue;
        }
        if (t.size)
            ranges[t.off] = t.off + t.size;
        for (uint64_t i = 0; i < t.size; i += 32)
        {
            R q{b, t.off + i};
            EntryP e;
            e.at = t.off + i;
            e.key.d = q.n<int32_t>();
            e.key.x = q.n<int32_t>();
            e.key.y = q.n<int32_t>();
            e.key.z = q.n<int32_t>();
            e.off = q.n<uint64_t>();
            e.size = q.n<int32_t>();
            e.count = q.n<int32_t>();
            e.page = t.key;
            if (!e.key.octree() || e.size < 0 || e.count < -1 || !e.key.under(t.key))
            {
                bad("entry " + e.key.s() + " in page " + t.key.s() + " is invalid");
                continue;
            }
            if (e.count == -1)
                todo.push_back({e.key, t.key, e.off, static_cast<uint64_t>(e.size)});
            else if (p.nodes.count(e.key))
                bad("node " + e.key.s() + " is stored twice");
            else
                p.nodes[e.key] = e;
        }
    }
    uint64_t last = 0;
    for (auto &g : ranges)
    {
        if (g.first < last)
            bad("hierarchy pages overlap");
        last = std::max(last, g.second);
    }
    // nodes <-> chunks
    std::map<uint64_t, size_t> by_off;
    for (size_t i = 0; i < p.chunks.size(); i++)
        by_off[p.chunks[i].first] = i;
    std::set<size_t> hit;
    for (auto &n : p.nodes)
    {
        if (n.second.count == 0 && n.second.size == 0)
            continue;
        auto i = by_off.find(n.second.off);
        if (i == by_off.end())
        {
            bad("node " + n.first.s() + " does not point at a chunk");
            continue;
        }
        uint64_t end = i->second + 1 < p.chunks.size() ? p.chunks[i->second + 1].first : p.chunk_end;
        if (static_cast<uint64_t>(n.second.size) != end - n.second.off ||
            static_cast<uint64_t>(n.second.count) != p.chunks[i->second].second)
            bad("node " + n.first.s() + " and its chunk differ in size or point count");
        if (!hit.insert(i->second).second)
            bad("two nodes share a chunk");
    }
    if (hit.size() != p.chunks.size())
        bad(S(p.chunks.size() - hit.size()) + " chunk(s) belong to no node");
    return p;
}

std::string encode_chunk(const std::string &recs, const Meta &m)
{
    std::string out;
    auto c = lazperf::build_las_compressor([&](const unsigned char *p, size_t n)
                                           { out.append(reinterpret_cast<const char *>(p), n); },
                                           m.pf, m.ebbytes());
    size_t len = static_cast<size_t>(m.reclen());
    for (size_t i = 0; i + len <= recs.size(); i += len)
        c->compress(recs.data() + i);
    c->done();
    return out;
}
std::string decode_chunk(const std::string &b, uint64_t off, uint64_t end, const Meta &m, uint64_t count)
{
    std::string out;
    uint64_t pos = off;
    auto d = lazperf::build_las_decompressor(
        [&](unsigned char *p, size_t n)
        {
            if (pos + n > end || end > b.size())
                throw std::runtime_error("chunk too short");
            std::memcpy(p, b.data() + pos, n);
            pos += n;
        },
        m.pf, m.ebbytes());
    std::string rec(static_cast<size_t>(m.reclen()), '\0');
    for (uint64_t i = 0; i < count; i++)
    {
        d->decompress(&rec[0]);
        out += rec;
    }
    return out;
}

// ---------------------------------------------------------------- encoder
namespace
{
void vlr_head(W &w, const std::string &user, int id, uint64_t len, const std::string &desc, bool ev)
{
    w.n<uint16_t>(0).str(user, 16).n<uint16_t>(static_cast<uint16_t>(id));
    if (ev)
        w.n<uint64_t>(len);
    else
        w.n<uint16_t>(static_cast<uint16_t>(len));
    w.str(desc, 32);
}
std::string laz_payload(const Meta &m)
{
    W w;
    w.n<uint16_t>(3).n<uint16_t>(0).n<uint8_t>(3).n<uint8_t>(4).n<uint16_t>(3).n<uint32_t>(0).n<uint32_t>(0xffffffffu);
    w.n<int64_t>(-1).n<int64_t>(-1);
    int eb = m.ebbytes();
    w.n<uint16_t>(static_cast<uint16_t>(1 + (m.pf > 6) + (eb > 0)));
    w.n<uint16_t>(10).n<uint16_t>(30).n<uint16_t>(3);
    if (m.pf == 7)
        w.n<uint16_t>(11).n<uint16_t>(6).n<uint16_t>(3);
    if (m.pf == 8)
        w.n<uint16_t>(12).n<uint16_t>(8).n<uint16_t>(3);
    if (eb)
        w.n<uint16_t>(14).n<uint16_t>(static_cast<uint16_t>(eb)).n<uint16_t>(3);
    return w.s;
}
void odd(W &w, Rng &r, bool ev, uint32_t &count)
{
    for (uint64_t k = r.below(3); k--;)
    {
        size_t n = r.below(120);
        vlr_head(w, r.chance(1, 3) ? "LASF_Spec" : "acme", 7 + static_cast<int>(r.below(50)), n, "other", ev);
        for (size_t i = 0; i < n; i++)
            w.n<uint8_t>(static_cast<uint8_t>(r.next()));
        count++;
    }
}
// the descriptions that were left out of the VLRs, as EVLRs
void late_vlrs(W &e, const Meta &m, const EncOpts &o, bool extents, uint32_t &evs)
{
    if ((o.evlr & 1) && !m.eb.empty())
    {
        vlr_head(e, "LASF_Spec", 4, m.eb.size() * 192, "", true);
        for (auto &x : m.eb)
            e.raw(x.encode());
        evs++;
    }
    if (extents && (o.evlr & 2))
    {
        vlr_head(e, "copc", 10000, m.extents.size() * 16, "COPC extents", true);
        for (auto &x : m.extents)
            e.n(x.mn).n(x.mx);
        evs++;
    }
    if (extents && m.ext && (o.evlr & 4))
    {
        vlr_head(e, "rock_robotic", 10001, m.extents.size() * 16, "x", true);
        for (auto &x : m.extents)
            e.n(x.mean).n(x.var);
        evs++;
    }
}
std::string header(const Meta &m, uint32_t point_offset, uint32_t vlrs, uint64_t ev_off, uint32_t evs, uint64_t points)
{
    W w;
    w.raw("LASF").n(m.fsid).n<uint16_t>(m.genc | 0x10).str(m.guid, 16).n<uint8_t>(1).n<uint8_t>(4);
    w.str(m.sysid, 32).str(m.gensw, 32).n(m.day).n(m.year).n<uint16_t>(375).n(point_offset).n(vlrs);
    w.n<uint8_t>(static_cast<uint8_t>(128 | m.pf)).n<uint16_t>(static_cast<uint16_t>(m.reclen()));
    w.n<uint32_t>(0);
    for (int i = 0; i < 5; i++)
        w.n<uint32_t>(0);
    for (auto v : m.scale)
        w.n(v);
    for (auto v : m.offset)
        w.n(v);
    for (int i = 0; i < 3; i++)
        w.n(m.mx[i]).n(m.mn[i]);
    w.n<uint64_t>(0).n(ev_off).n(evs).n(points);
    for (auto v : m.pbr)
        w.n(v);
    return w.s;
}
} // namespace

std::string encode_copc(const Meta &m, const std::map<K, NodeM> &nodes, const std::set<K> &pages_in, const EncOpts &o)
{
    Rng r(mix(o.seed, 0xe0c));
    std::set<K> pages = pages_in;
    pages.insert(ROOT);
    for (auto &n : nodes)
        pages.insert(n.second.page);
    for (int pass = 0;; pass++)
    {
        uint32_t vlrs = 0, evs = 0;
        W v;
        vlr_head(v, "copc", 1, 160, "COPC info VLR", false);
        size_t info_at = 375 + v.s.size();
        v.raw(std::string(160, '\0'));
        vlrs++;
        if (o.odd_vlrs)
            odd(v, r, false, vlrs);
        const bool extents = m.has_extents && o.extents;
        if (extents)
        {
            if (!(o.evlr & 2))
            {
                vlr_head(v, "copc", 10000, m.extents.size() * 16, "COPC extents", false);
                for (auto &e : m.extents)
                    v.n(e.mn).n(e.mx);
                vlrs++;
            }
            if (m.ext && !(o.evlr & 4))
            {
                vlr_head(v, "rock_robotic", 10001, m.extents.size() * 16, "x", false);
                for (auto &e : m.extents)
                    v.n(e.mean).n(e.var);
                vlrs++;
            }
        }
        if (!m.eb.empty() && !(o.evlr & 1))
        {
            vlr_head(v, "LASF_Spec", 4, m.eb.size() * 192, "", false);
            for (auto &e : m.eb)
                v.raw(e.encode());
            vlrs++;
        }
        if (o.wkt_as_vlr && !m.wkt.empty() && m.wkt.size() < 65536)
        {
            vlr_head(v, "LASF_Projection", 2112, m.wkt.size(), "", false);
            v.raw(m.wkt);
            vlrs++;
        }
        std::string lz = laz_payload(m);
        vlr_head(v, "laszip encoded", 22204, lz.size(), "", false);
        v.raw(lz);
        vlrs++;
        if (o.odd_vlrs)
            odd(v, r, false, vlrs);
        uint32_t po = static_cast<uint32_t>(375 + v.s.size());
        std::string out = std::string(375, '\0') + v.s + std::string(8, '\0');
        // chunks
        std::vector<K> order;
        for (auto &n : nodes)
            order.push_back(n.first);
        if (o.shuffle)
            for (size_t i = order.size(); i > 1; i--)
                std::swap(order[i - 1], order[r.below(i)]);
        std::map<K, std::pair<uint64_t, int32_t>> where;
        std::string table;
        uint32_t nch = 0;
        uint64_t points = 0;
        for (auto &k : order)
        {
            auto &n = nodes.at(k);
            if (n.count == 0)
            {
                where[k] = {r.chance(1, 2) ? 0 : out.size(), 0};
                continue;
            }
            std::string c = encode_chunk(n.recs, m);
            where[k] = {out.size(), static_cast<int32_t>(c.size())};
            out += c;
            put_varint(table, static_cast<uint64_t>(n.count));
            put_varint(table, c.size());
            nch++;
            points += static_cast<uint64_t>(n.count);
        }
        uint64_t ct = out.size();
        std::memcpy(&out[po], &ct, 8);
        W t;
        t.n<uint32_t>(0).n(nch).raw(table);
        out += t.s;
        uint64_t ev_off = out.size();
        W e;
        if (o.odd_vlrs && r.chance(1, 2))
            odd(e, r, true, evs);
        if (o.seed & 1)
            late_vlrs(e, m, o, extents, evs);
        if (!o.wkt_as_vlr && !m.wkt.empty() && r.chance(1, 2))
        {
            vlr_head(e, "LASF_Projection", 2112, m.wkt.size(), "", true);
            e.raw(m.wkt);
            evs++;
        }
        bool wkt_done = evs && e.s.find("LASF_Projection") != std::string::npos;
        // pages
        auto parent = [&](const K &k)
        {
            for (int d = k.d - 1; d >= 0; d--)
                if (pages.count(k.up(d)))
                    return k.up(d);
            return ROOT;
        };
        std::map<K, std::vector<K>> sub;
        std::map<K, uint64_t> psize, poff;
        for (auto &k : pages)
            if (k != ROOT)
                sub[parent(k)].push_back(k);
        for (auto &k : pages)
        {
            uint64_t n = sub[k].size();
            for (auto &x : nodes)
                n += x.second.page == k;
            psize[k] = n * 32;
        }
        std::vector<K> po_order(pages.begin(), pages.end());
        if (o.shuffle)
            for (size_t i = po_order.size(); i > 1; i--)
                std::swap(po_order[i - 1], po_order[r.below(i)]);
        uint64_t at = ev_off + e.s.size();
        if (o.single_hier)
            at += 60;
        for (auto &k : po_order)
        {
            if (!o.single_hier)
                at += 60;
            poff[k] = at;
            at += psize[k];
        }
        if (o.single_hier)
        {
            uint64_t tot = 0;
            for (auto &k : psize)
                tot += k.second;
            vlr_head(e, "copc", 1000, tot, "EPT Hierarchy", true);
            evs++;
        }
        for (auto &k : po_order)
        {
            if (!o.single_hier)
            {
                vlr_head(e, "copc", 1000, psize[k], k.s(), true);
                evs++;
            }
            std::vector<std::string> ent;
            for (auto &x : nodes)
                if (x.second.page == k)
                {
                    W q;
                    q.n(x.first.d).n(x.first.x).n(x.first.y).n(x.first.z).n(where[x.first].first);
                    q.n(where[x.first].second).n(static_cast<int32_t>(x.second.count));
                    ent.push_back(q.s);
                }
            for (auto &c : sub[k])
            {
                W q;
                q.n(c.d).n(c.x).n(c.y).n(c.z).n(poff[c]).n(static_cast<int32_t>(psize[c])).n<int32_t>(-1);
                ent.push_back(q.s);
            }
            if (o.shuffle)
                for (size_t i = ent.size(); i > 1; i--)
                    std::swap(ent[i - 1], ent[r.below(i)]);
            for (auto &s : ent)
                e.raw(s);
        }
        if (!o.wkt_as_vlr && !m.wkt.empty() && !wkt_done)
        {
            vlr_head(e, "LASF_Projection", 2112, m.wkt.size(), "", true);
            e.raw(m.wkt);
            evs++;
        }
        if (!(o.seed & 1))
            late_vlrs(e, m, o, extents, evs);
        if (o.odd_vlrs)
            odd(e, r, true, evs);
        out += e.s;
        std::string h = header(m, po, vlrs, ev_off, evs, points);
        std::memcpy(&out[0], h.data(), h.size());
        W i;
        for (auto d : m.info)
            i.n(d);
        i.n(poff[ROOT]).n(psize[ROOT]);
        double gmin = 0, gmax = 0;
        if (m.extents.size() > 13)
        {
            gmin = m.extents[13].mn;
            gmax = m.extents[13].mx;
        }
        i.n(gmin).n(gmax);
        std::memcpy(&out[info_at], i.s.data(), i.s.size());
        return out;
    }
}

std::string encode_laz(const Meta &m, const std::vector<std::string> &chunks, const EncOpts &o)
{
    Rng r(mix(o.seed, 0x1a2));
    uint32_t vlrs = 0, evs = 0;
    W v;
    if (o.odd_vlrs)
        odd(v, r, false, vlrs);
    if (!m.eb.empty() && !(o.evlr & 1))
    {
        vlr_head(v, "LASF_Spec", 4, m.eb.size() * 192, "", false);
        for (auto &e : m.eb)
            v.raw(e.encode());
        vlrs++;
    }
    if (o.wkt_as_vlr && !m.wkt.empty() && m.wkt.size() < 65536)
    {
        vlr_head(v, "LASF_Projection", 2112, m.wkt.size(), "", false);
        v.raw(m.wkt);
        vlrs++;
    }
    std::string lz = laz_payload(m);
    vlr_head(v, "laszip encoded", 22204, lz.size(), "", false);
    v.raw(lz);
    vlrs++;
    uint32_t po = static_cast<uint32_t>(375 + v.s.size());
    std::string out = std::string(375, '\0') + v.s + std::string(8, '\0'), table;
    uint64_t points = 0;
    for (auto &c : chunks)
    {
        std::string e = encode_chunk(c, m);
        uint64_t n = c.size() / static_cast<size_t>(m.reclen());
        put_varint(table, n);
        put_varint(table, e.size());
        out += e;
        points += n;
    }
    uint64_t ct = out.size();
    std::memcpy(&out[po], &ct, 8);
    W t;
    t.n<uint32_t>(0).n(static_cast<uint32_t>(chunks.size())).raw(table);
    out += t.s;
    uint64_t ev = out.size();
    W e;
    if (!o.wkt_as_vlr && !m.wkt.empty())
    {
        vlr_head(e, "LASF_Projection", 2112, m.wkt.size(), "", true);
        e.raw(m.wkt);
        evs++;
    }
    late_vlrs(e, m, o, false, evs);
    if (o.odd_vlrs)
        odd(e, r, true, evs);
    out += e.s;
    std::string h = header(m, po, vlrs, ev, evs, points);
    std::memcpy(&out[0], h.data(), h.size());
    return out;
}

// ---------------------------------------------------------------- generators
std::string gen_text(Rng &r, size_t n)
{
    static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ[]\",.0123456789 abcdefghijklmnopqrstuvwxyz_-:";
    std::string s;
    for (size_t i = 0; i < n; i++)
        s += al[r.below(sizeof al - 1)];
    return s;
}
// a GUID is binary: turn some texts into bytes of all kinds, zeros included
std::string as_guid(std::string s)
{
    if (s.size() > 2 && (s[0] & 1))
        for (size_t i = 1; i < s.size(); i++)
        {
            if (s[i] % 5 == 0)
                s[i] = 0;
            else if (s[i] % 7 == 0)
                s[i] = static_cast<char>(s[i] | 0x80);
        }
    while (!s.empty() && !s.back())
        s.pop_back();
    return s;
}
static double gen_double(Rng &r)
{
    switch (r.below(6))
    {
    case 0:
        return 0;
    case 1:
        return static_cast<double>(r.range(-1000000, 1000000));
    case 2:
        return static_cast<double>(r.range(-100000000, 100000000)) / 1024.0;
    case 3:
        return static_cast<double>(r.range(-1000000000, 1000000000)) * 1.1e-3;
    case 4:
        return static_cast<double>(r.range(-1000, 1000)) * 1e200;
    default:
        return static_cast<double>(r.range(-1000, 1000)) * 1e-200;
    }
}
Meta gen_meta(Rng &r, bool copc, int style)
{
    if (style >= 10)
    {
        // the same with the values from some constructor argument on left at their defaults
        Meta m = gen_meta(r, copc, style - 10);
        uint64_t k = r.below(6);
        if (k < 5)
        {
            m.ext = false;
            for (auto &e : m.extents)
            {
                e.mean = Ext().mean;
                e.var = Ext().var;
            }
        }
        if (k < 4)
        {
            m.eb.clear();
            if (copc)
                m.extents.resize(static_cast<size_t>(m.nbase()));
        }
        if (k < 3)
            m.wkt.clear();
        for (int i = 0; i < 3; i++)
        {
            if (k < 2)
                m.offset[i] = 0;
            if (k < 1)
                m.scale[i] = 0.01;
        }
        return m;
    }
    Meta m;
    m.copc = copc;
    m.pf = static_cast<int>(6 + r.below(3));
    static const std::vector<double> sc{0.01, 0.001, 1.0, 0.25, 0.0078125, 0.0001, 2.5, 0.01};
    static const std::vector<double> of{0, 1000, -12345.678, 1000000, 0.5, -0.125};
    for (int i = 0; i < 3; i++)
    {
        m.scale[i] = r.pick(sc);
        m.offset[i] = r.pick(of);
    }
    auto str = [&](size_t max)
    {
        switch (r.below(4))
        {
        case 0:
            return std::string();
        case 1:
            return gen_text(r, max);
        default:
            return gen_text(r, r.below(max + 1));
        }
    };
    if (style >= 1)
    {
        m.fsid = static_cast<uint16_t>(r.next());
        m.genc = static_cast<uint16_t>(r.next());
        m.day = static_cast<uint16_t>(r.next());
        m.year = static_cast<uint16_t>(r.next());
        m.guid = as_guid(str(16));
        m.sysid = str(32);
        m.gensw = str(32);
        for (int i = 0; i < 3; i++)
        {
            double a = gen_double(r), b = gen_double(r);
            m.mn[i] = std::min(a, b);
            m.mx[i] = std::max(a, b);
        }
        for (auto &v : m.pbr)
            v = r.chance(1, 3) ? r.next() : r.below(1000);
    }
    size_t wl = 0;
    switch (r.below(style >= 2 ? 6 : 4))
    {
    case 0:
        break;
    case 1:
        wl = 1 + r.below(40);
        break;
    case 2:
    case 3:
        wl = 100 + r.below(600);
        break;
    case 4:
        wl = 9000 + r.below(3000);
        break;
    default:
        wl = 66000 + r.below(3000);
    }
    m.wkt = gen_text(r, wl);
    size_t ne = r.chance(1, 2) ? 0 : 1 + r.below(style >= 2 ? 12 : 4);
    if (style >= 2 && r.chance(1, 6))
        ne = 30 + r.below(40);
    bool wide = style == 3; // long records
    if (wide)
        ne = 3 + r.below(8);
    bool many = style == 4; // as many extra bytes as the format can describe, or nearly
    if (many)
        ne = r.chance(1, 3) ? 341 : 200 + r.below(142);
    for (size_t i = 0; i < ne; i++)
    {
        Eb e;
        e.data_type = static_cast<uint8_t>(r.below(31));
        if (e.data_type == 0)
            e.options = static_cast<uint8_t>(r.chance(1, 8) ? 0 : 1 + r.below(style >= 2 ? 255 : 20));
        else
            e.options = static_cast<uint8_t>(r.next());
        if (wide && r.chance(4, 5))
        {
            e.data_type = 0;
            e.options = static_cast<uint8_t>(200 + r.below(56));
        }
        if (many)
        {
            e.data_type = static_cast<uint8_t>(r.below(11));
            e.options = static_cast<uint8_t>(e.data_type ? r.next() : 1 + r.below(4));
        }
        if (style >= 1)
        {
            e.reserved[0] = static_cast<uint8_t>(r.next());
            e.reserved[1] = static_cast<uint8_t>(r.next());
            for (auto a : {e.nodata, e.minv, e.maxv, e.scale, e.offset})
                for (int j = 0; j < 3; j++)
                    a[j] = gen_double(r);
        }
        e.name = r.chance(1, 5) ? gen_text(r, 32) : gen_text(r, r.below(20));
        e.desc = r.chance(1, 5) ? gen_text(r, 32) : gen_text(r, r.below(20));
        m.eb.push_back(e);
        if (m.ebbytes() > 3000)
            break;
    }
    if (copc)
    {
        for (auto &v : m.info)
            v = gen_double(r);
        m.ext = r.chance(1, 2);
        for (size_t i = 0; i < static_cast<size_t>(m.nbase()) + m.eb.size(); i++)
        {
            Ext e;
            if (style >= 1)
            {
                double a = gen_double(r), b = gen_double(r);
                e.mn = std::min(a, b);
                e.mx = std::max(a, b);
                if (m.ext)
                {
                    e.mean = gen_double(r);
                    e.var = std::fabs(gen_double(r));
                }
            }
            m.extents.push_back(e);
        }
    }
    return m;
}
std::string gen_records(Rng &r, const Meta &m, int64_t n, int style, const int64_t *lo, const int64_t *hi)
{
    std::string out;
    size_t len = static_cast<size_t>(m.reclen());
    std::string prev;
    for (int64_t i = 0; i < n; i++)
    {
        std::string rec(len, '\0');
        if (style == 0 || i == 0)
            for (auto &c : rec)
                c = static_cast<char>(r.next());
        else if (style == 1)
        {
            rec = prev;
            for (uint64_t k = r.below(6); k--;)
                rec[r.below(len)] = static_cast<char>(r.next());
        }
        else
            rec = prev;
        int32_t c[3];
        for (int j = 0; j < 3; j++)
        {
            if (lo)
                c[j] = static_cast<int32_t>(r.range(lo[j], hi[j]));
            else if (r.chance(1, 40))
                c[j] = r.chance(1, 2) ? std::numeric_limits<int32_t>::max() : std::numeric_limits<int32_t>::min();
            else if (style == 0)
                c[j] = static_cast<int32_t>(r.next());
            else
                c[j] = static_cast<int32_t>(r.range(-50000, 50000));
        }
        std::memcpy(&rec[0], c, 12);
        double gps = style == 2 ? 7.5 : gen_double(r);
        std::memcpy(&rec[22], &gps, 8);
        prev = rec;
        out += rec;
    }
    return out;
}
K gen_key(Rng &r, int maxd)
{
    K k;
    k.d = static_cast<int32_t>(r.below(static_cast<uint64_t>(maxd) + 1));
    int64_t n = int64_t(1) << k.d;
    k.x = static_cast<int32_t>(r.range(0, n - 1));
    k.y = static_cast<int32_t>(r.range(0, n - 1));
    k.z = static_cast<int32_t>(r.range(0, n - 1));
    return k;
}

std::string diff_meta(const Meta &w, const Meta &g)
{
    auto ne = [](double a, double b) { return std::memcmp(&a, &b, 8) != 0; };
    if (w.pf != g.pf)
        return "point format";
    for (int i = 0; i < 3; i++)
    {
        if (ne(w.scale[i], g.scale[i]))
            return "scale";
        if (ne(w.offset[i], g.offset[i]))
            return "offset";
        if (ne(w.mn[i], g.mn[i]))
            return "header min";
        if (ne(w.mx[i], g.mx[i]))
            return "header max";
    }
    if (w.fsid != g.fsid)
        return "file source id";
    if ((w.genc | 0x10) != g.genc)
        return "global encoding";
    if (w.day != g.day || w.year != g.year)
        return "creation date";
    if (w.guid != g.guid)
        return "GUID ('" + w.guid + "' became '" + g.guid + "')";
    if (w.sysid != g.sysid)
        return "system identifier ('" + w.sysid + "' became '" + g.sysid + "')";
    if (w.gensw != g.gensw)
        return "generating software ('" + w.gensw + "' became '" + g.gensw + "')";
    for (int i = 0; i < 15; i++)
        if (w.pbr[i] != g.pbr[i])
            return "points by return";
    if (w.wkt != g.wkt)
        return "coordinate reference text (" + std::to_string(w.wkt.size()) + " bytes became " +
               std::to_string(g.wkt.size()) + ")";
    if (w.eb.size() != g.eb.size())
        return "number of extra-byte items (" + std::to_string(w.eb.size()) + " became " + std::to_string(g.eb.size()) +
               ")";
    for (size_t i = 0; i < w.eb.size(); i++)
        if (w.eb[i].encode() != g.eb[i].encode())
            return "extra-byte item " + std::to_string(i);
    if (w.ebbytes() != g.ebbytes())
        return "extra bytes per point";
    if (w.copc)
    {
        for (int i = 0; i < 5; i++)
            if (ne(w.info[i], g.info[i]))
                return "COPC info field " + std::to_string(i);
        if (w.ext != g.ext)
            return "presence of extended statistics";
        if (w.extents.size() != g.extents.size())
            return "number of extents (" + std::to_string(w.extents.size()) + " became " +
                   std::to_string(g.extents.size()) + ")";
        for (size_t i = 0; i < w.extents.size(); i++)
        {
            if (ne(w.extents[i].mn, g.extents[i].mn) || ne(w.extents[i].mx, g.extents[i].mx))
                return "extent " + std::to_string(i);
            if (w.ext && (ne(w.extents[i].mean, g.extents[i].mean) || ne(w.extents[i].var, g.extents[i].var)))
                return "extended statistics of dimension " + std::to_string(i);
        }
    }
    return "";
}
} // namespace sim
