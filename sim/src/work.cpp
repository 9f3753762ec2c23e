#include "work.hpp"
#include <numeric>
#include <algorithm>
#include <cmath>
#include <fstream>

namespace sim
{
Profile g_profile;

// ---------------------------------------------------------------- conversions
copc::las::EbVlr to_ebvlr(const std::vector<Eb> &eb)
{
    copc::las::EbVlr v(0);
    for (auto &e : eb)
    {
        copc::las::EbVlr::ebfield f;
        f.reserved[0] = e.reserved[0];
        f.reserved[1] = e.reserved[1];
        f.data_type = e.data_type;
        f.options = e.options;
        f.name = e.name;
        f.description = e.desc;
        for (int i = 0; i < 3; i++)
        {
            f.no_data[i] = e.nodata[i];
            f.minval[i] = e.minv[i];
            f.maxval[i] = e.maxv[i];
            f.scale[i] = e.scale[i];
            f.offset[i] = e.offset[i];
        }
        v.items.push_back(f);
    }
    return v;
}
void eb_from_vlr(const copc::las::EbVlr &v, std::vector<Eb> &out)
{
    Off off;
    for (auto &f : v.items)
    {
        Eb e;
        e.reserved[0] = f.reserved[0];
        e.reserved[1] = f.reserved[1];
        e.data_type = f.data_type;
        e.options = f.options;
        e.name = std::string(f.name.c_str(), f.name.size());
        e.desc = std::string(f.description.c_str(), f.description.size());
        for (int i = 0; i < 3; i++)
        {
            e.nodata[i] = f.no_data[i];
            e.minv[i] = f.minval[i];
            e.maxv[i] = f.maxval[i];
            e.scale[i] = f.scale[i];
            e.offset[i] = f.offset[i];
        }
        out.push_back(e);
    }
}
void set_header(copc::las::LasHeader &h, const Meta &m)
{
    h.file_source_id = m.fsid;
    h.global_encoding = m.genc;
    h.creation_day = m.day;
    h.creation_year = m.year;
    h.GUID(m.guid);
    h.SystemIdentifier(m.sysid);
    h.GeneratingSoftware(m.gensw);
    h.min = v3(m.mn);
    h.max = v3(m.mx);
    for (size_t i = 0; i < 15; i++)
        h.points_by_return[i] = m.pbr[i];
}
static void set_dim(copc::CopcExtents &e, int i, const std::shared_ptr<copc::CopcExtent> &v)
{
    switch (i)
    {
    case 0:
        return e.X(v);
    case 1:
        return e.Y(v);
    case 2:
        return e.Z(v);
    case 3:
        return e.Intensity(v);
    case 4:
        return e.ReturnNumber(v);
    case 5:
        return e.NumberOfReturns(v);
    case 6:
        return e.ScannerChannel(v);
    case 7:
        return e.ScanDirectionFlag(v);
    case 8:
        return e.EdgeOfFlightLine(v);
    case 9:
        return e.Classification(v);
    case 10:
        return e.UserData(v);
    case 11:
        return e.ScanAngle(v);
    case 12:
        return e.PointSourceId(v);
    case 13:
        return e.GpsTime(v);
    case 14:
        return e.Red(v);
    case 15:
        return e.Green(v);
    case 16:
        return e.Blue(v);
    default:
        return e.Nir(v);
    }
}
static std::shared_ptr<copc::CopcExtent> get_dim(copc::CopcExtents &e, int i)
{
    switch (i)
    {
    case 0:
        return e.X();
    case 1:
        return e.Y();
    case 2:
        return e.Z();
    case 3:
        return e.Intensity();
    case 4:
        return e.ReturnNumber();
    case 5:
        return e.NumberOfReturns();
    case 6:
        return e.ScannerChannel();
    case 7:
        return e.ScanDirectionFlag();
    case 8:
        return e.EdgeOfFlightLine();
    case 9:
        return e.Classification();
    case 10:
        return e.UserData();
    case 11:
        return e.ScanAngle();
    case 12:
        return e.PointSourceId();
    case 13:
        return e.GpsTime();
    case 14:
        return e.Red();
    case 15:
        return e.Green();
    case 16:
        return e.Blue();
    default:
        return e.Nir();
    }
}
// the extents asked for one dimension at a time are those of the list
static void check_dims(copc::CopcExtents e, int pf)
{
    auto all = e.Extents();
    int n = pf == 6 ? 14 : pf == 7 ? 17 : 18;
    auto same = [](const copc::CopcExtent &a, const copc::CopcExtent &b)
    {
        auto eq = [](double p, double q) { return std::memcmp(&p, &q, 8) == 0; };
        return eq(a.minimum, b.minimum) && eq(a.maximum, b.maximum) && eq(a.mean, b.mean) && eq(a.var, b.var);
    };
    for (int i = 0; i < 18; i++)
    {
        std::shared_ptr<copc::CopcExtent> d;
        try
        {
            d = get_dim(e, i);
        }
        catch (const std::runtime_error &)
        {
        }
        if ((d != nullptr) != (i < n))
            fail("metadata", "dimension " + std::to_string(i) + " of format " + std::to_string(pf) +
                                 (d ? " has an extent" : " has no extent"));
        if (d && (i >= static_cast<int>(all.size()) || !same(*d, *all[i])))
            fail("metadata", "the extent of dimension " + std::to_string(i) + " is not the one listed");
    }
    auto eb = e.ExtraBytes();
    if (eb.size() + n != all.size())
        fail("metadata", std::to_string(eb.size()) + " extents of extra bytes, but " + std::to_string(all.size()) + " in all");
    for (size_t i = 0; i < eb.size(); i++)
        if (!same(*eb[i], *all[n + i]))
            fail("metadata", "the extent of extra bytes " + std::to_string(i) + " is not the one listed");
}
void apply_meta(copc::CopcConfigWriter &c, const Meta &m)
{
    set_header(*c.LasHeader(), m);
    auto info = c.CopcInfo();
    info->center_x = m.info[0];
    info->center_y = m.info[1];
    info->center_z = m.info[2];
    info->halfsize = m.info[3];
    info->spacing = m.info[4];
    auto all = c.CopcExtents();
    auto ext = all->Extents();
    if (ext.size() != m.extents.size())
        fail("metadata", "configuration holds " + std::to_string(ext.size()) + " extents instead of " +
                             std::to_string(m.extents.size()));
    for (size_t i = 0; i < ext.size(); i++)
    {
        const Ext &x = m.extents[i];
        if (x.mn <= x.mx && x.var >= 0 && (m.fsid + i) % 3 != 0)
        {
            // a whole value at once
            if (!m.ext)
                *ext[i] = (m.fsid + i) % 3 == 1 ? copc::CopcExtent(x.mn, x.mx) : copc::CopcExtent(std::vector<double>{x.mn, x.mx});
            else if ((m.fsid + i) % 3 == 1)
                *ext[i] = copc::CopcExtent(x.mn, x.mx, x.mean, x.var);
            else
                *ext[i] = copc::CopcExtent(std::vector<double>{x.mn, x.mx, x.mean, x.var});
            continue;
        }
        ext[i]->minimum = x.mn;
        ext[i]->maximum = x.mx;
        if (m.ext)
        {
            ext[i]->mean = m.extents[i].mean;
            ext[i]->var = m.extents[i].var;
        }
    }
    // every other configuration is filled in through the setters of the single dimensions
    if ((m.wkt.size() + m.eb.size() + m.fsid) & 1)
        return;
    int n = m.nbase();
    std::vector<std::shared_ptr<copc::CopcExtent>> ebs;
    for (int i = 0; i < static_cast<int>(ext.size()); i++)
    {
        auto e = std::make_shared<copc::CopcExtent>(*ext[i]);
        *ext[i] = copc::CopcExtent(-1e9, 1e9, 3, 4);
        if (i < n)
            set_dim(*all, i, e);
        else
            ebs.push_back(e);
    }
    all->ExtraBytes(ebs);
    for (int i = n; i < 18; i++)
    {
        bool threw = false;
        try
        {
            set_dim(*all, i, std::make_shared<copc::CopcExtent>());
        }
        catch (const std::exception &)
        {
            threw = true;
        }
        if (!threw)
            fail("metadata", "the extent of a dimension the point format does not have was accepted");
    }
}
void apply_meta(copc::las::LazConfigWriter &c, const Meta &m) { set_header(*c.LasHeader(), m); }
// how many of the arguments with defaults have to be given
static int given(const Meta &m)
{
    auto is = [](const double *d, double v) { return d[0] == v && d[1] == v && d[2] == v; };
    if (m.copc && m.ext)
        return 5;
    if (!m.eb.empty())
        return 4;
    if (!m.wkt.empty())
        return 3;
    if (!is(m.offset, 0))
        return 2;
    return is(m.scale, 0.01) ? 0 : 1;
}
std::shared_ptr<copc::CopcConfigWriter> make_copc_cfg(const Meta &m)
{
    int8_t pf = static_cast<int8_t>(m.pf);
    auto sc = v3(m.scale), of = v3(m.offset);
    std::shared_ptr<copc::CopcConfigWriter> c;
    switch (given(m))
    {
    case 0:
        c = std::make_shared<copc::CopcConfigWriter>(pf);
        break;
    case 1:
        c = std::make_shared<copc::CopcConfigWriter>(pf, sc);
        break;
    case 2:
        c = std::make_shared<copc::CopcConfigWriter>(pf, sc, of);
        break;
    case 3:
        c = std::make_shared<copc::CopcConfigWriter>(pf, sc, of, m.wkt);
        break;
    case 4:
        c = std::make_shared<copc::CopcConfigWriter>(pf, sc, of, m.wkt, to_ebvlr(m.eb));
        break;
    default:
        c = std::make_shared<copc::CopcConfigWriter>(pf, sc, of, m.wkt, to_ebvlr(m.eb), m.ext);
    }
    apply_meta(*c, m);
    return c;
}
std::shared_ptr<copc::las::LazConfigWriter> make_laz_cfg(const Meta &m)
{
    int8_t pf = static_cast<int8_t>(m.pf);
    auto sc = v3(m.scale), of = v3(m.offset);
    std::shared_ptr<copc::las::LazConfigWriter> c;
    switch (given(m))
    {
    case 0:
        c = std::make_shared<copc::las::LazConfigWriter>(pf);
        break;
    case 1:
        c = std::make_shared<copc::las::LazConfigWriter>(pf, sc);
        break;
    case 2:
        c = std::make_shared<copc::las::LazConfigWriter>(pf, sc, of);
        break;
    case 3:
        c = std::make_shared<copc::las::LazConfigWriter>(pf, sc, of, m.wkt);
        break;
    default:
        c = std::make_shared<copc::las::LazConfigWriter>(pf, sc, of, m.wkt, to_ebvlr(m.eb));
    }
    apply_meta(*c, m);
    return c;
}
void meta_from_header(const copc::las::LasHeader &h, Meta &m)
{
    m.pf = h.PointFormatId();
    auto put = [](double *d, const copc::Vector3 &v)
    {
        d[0] = v.x;
        d[1] = v.y;
        d[2] = v.z;
    };
    put(m.scale, h.Scale());
    put(m.offset, h.Offset());
    put(m.mn, h.min);
    put(m.mx, h.max);
    m.fsid = h.file_source_id;
    m.genc = h.global_encoding;
    m.day = h.creation_day;
    m.year = h.creation_year;
    std::string g = h.GUID(), s = h.SystemIdentifier(), w = h.GeneratingSoftware();
    Off off;
    m.guid = std::string(g.data(), g.size());
    m.sysid = std::string(s.data(), s.size());
    m.gensw = std::string(w.data(), w.size());
    for (size_t i = 0; i < 15; i++)
        m.pbr[i] = h.points_by_return[i];
}
static void meta_laz_part(const copc::las::LazConfig &c, Meta &m)
{
    auto h = c.LasHeader();
    meta_from_header(h, m);
    std::string w = c.Wkt();
    {
        Off off;
        m.wkt = std::string(w.data(), w.size());
    }
    auto e = c.ExtraBytesVlr();
    eb_from_vlr(e, m.eb);
    int sum = 0;
    for (auto &x : m.eb)
        sum += x.bytes();
    m.raw_eb = static_cast<int>(h.EbByteSize()) - sum;
}
Meta meta_from(const copc::CopcConfig &c)
{
    Meta m;
    m.copc = true;
    meta_laz_part(c, m);
    const copc::CopcInfo i = c.CopcInfo();
    m.info[0] = i.center_x;
    m.info[1] = i.center_y;
    m.info[2] = i.center_z;
    m.info[3] = i.halfsize;
    m.info[4] = i.spacing;
    const copc::CopcExtents e = c.CopcExtents();
    m.ext = e.HasExtendedStats();
    check_dims(e, m.pf);
    for (auto &x : e.Extents())
    {
        Off off;
        m.extents.push_back(Ext{x.minimum, x.maximum, x.mean, x.var});
    }
    return m;
}
Meta meta_from(const copc::las::LazConfig &c)
{
    Meta m;
    m.copc = false;
    meta_laz_part(c, m);
    return m;
}
copc::las::Points to_points(const std::string &recs, const Meta &m)
{
    std::vector<char> v(recs.begin(), recs.end());
    return copc::las::Points::Unpack(v, static_cast<int8_t>(m.pf), static_cast<uint16_t>(m.ebbytes()), v3(m.scale),
                                     v3(m.offset));
}
// the same records built in other ways a caller has: one attribute at a time, attribute by attribute over the whole
// set, or converted from another point format
static copc::las::Points points_how(const std::string &recs, const Meta &m, int how, const copc::las::LasHeader &h)
{
    size_t len = static_cast<size_t>(m.reclen()), n = recs.size() / len, base = static_cast<size_t>(base_len(m.pf));
    uint16_t ebs = static_cast<uint16_t>(m.ebbytes());
    auto u16 = [](const char *c)
    {
        uint16_t v;
        std::memcpy(&v, c, 2);
        return v;
    };
    auto coord = [&](const char *c, int j)
    {
        int32_t v;
        std::memcpy(&v, c + 4 * j, 4);
        return static_cast<double>(v) * m.scale[j] + m.offset[j];
    };
    if (how >= 6 && how <= 8)
    {
        Meta src = m;
        src.pf = how;
        std::string from;
        size_t sb = static_cast<size_t>(base_len(how));
        for (size_t i = 0; i < n; i++)
        {
            const char *p = &recs[i * len];
            std::string rec(p, 30);
            rec.resize(sb, '\x5c');
            std::memcpy(&rec[0], p, std::min(sb, base));
            from += rec + std::string(p + base, len - base);
        }
        auto pts = to_points(from, src);
        pts.ToPointFormat(static_cast<int8_t>(m.pf));
        return pts;
    }
    copc::las::Points pts = how == 1 ? copc::las::Points(static_cast<int8_t>(m.pf), ebs) : copc::las::Points(h);
    std::vector<double> x[3];
    std::vector<uint8_t> cls;
    std::vector<uint16_t> rgb[3];
    for (size_t i = 0; i < n; i++)
    {
        const char *c = &recs[i * len];
        auto p = pts.CreatePoint();
        for (int j = 0; j < 3; j++)
            x[j].push_back(coord(c, j));
        cls.push_back(static_cast<uint8_t>(c[16]));
        uint8_t ret = static_cast<uint8_t>(c[14]), fl = static_cast<uint8_t>(c[15]);
        p->Intensity(u16(c + 12));
        if (how == 1)
        {
            p->EdgeOfFlightLineFlag(fl >> 7);
            p->ScanDirectionFlag((fl >> 6) & 1);
            p->ScannerChannel((fl >> 4) & 3);
            p->Overlap((fl >> 3) & 1);
            p->Withheld((fl >> 2) & 1);
            p->KeyPoint((fl >> 1) & 1);
            p->Synthetic(fl & 1);
            p->NumberOfReturns(ret >> 4);
            p->ReturnNumber(ret & 15);
            p->X(x[0][i]);
            p->Y(x[1][i]);
            p->Z(x[2][i]);
            p->Classification(cls[i]);
        }
        else
        {
            p->ReturnsBitField(ret);
            p->FlagsBitField(fl);
        }
        p->UserData(static_cast<uint8_t>(c[17]));
        p->ScanAngle(static_cast<int16_t>(u16(c + 18)));
        p->PointSourceId(u16(c + 20));
        double gps;
        std::memcpy(&gps, c + 22, 8);
        p->GPSTime(gps);
        if (m.pf > 6)
        {
            for (int j = 0; j < 3; j++)
                rgb[j].push_back(u16(c + 30 + 2 * j));
            if (how == 1 && i % 2)
                p->Rgb(rgb[0][i], rgb[1][i], rgb[2][i]);
            else if (how == 1)
            {
                p->Red(rgb[0][i]);
                p->Green(rgb[1][i]);
                p->Blue(rgb[2][i]);
            }
        }
        if (m.pf == 8)
            p->Nir(u16(c + 36));
        p->ExtraBytes(std::vector<uint8_t>(c + base, c + len));
        pts.AddPoint(i % 3 == 2 ? std::make_shared<copc::las::Point>(*p) : p);
    }
    if (how != 1)
    {
        pts.X(x[0]);
        pts.Y(x[1]);
        pts.Z(x[2]);
        pts.Classification(cls);
        if (m.pf > 6)
        {
            pts.Red(rgb[0]);
            pts.Green(rgb[1]);
            pts.Blue(rgb[2]);
        }
        copc::las::Points more(h);
        more.AddPoints(pts);
        return copc::las::Points(more.Get());
    }
    return pts;
}
// what the records look like once their points have gone through another point format
static void shape_records(std::string &recs, const Meta &m, int how)
{
    size_t len = static_cast<size_t>(m.reclen());
    if (how >= 6 && how <= 8)
        for (size_t i = 0; i + len <= recs.size(); i += len)
            for (int j = base_len(how); j < base_len(m.pf); j++)
                recs[i + static_cast<size_t>(j)] = 0;
}
// points of another record length or format whose bytes together make whole records of the given kind
static copc::las::Points foreign_points(Rng &r, const Meta &m, bool other_format)
{
    int pf = m.pf;
    if (other_format)
        pf = 6 + (m.pf - 6 + 1 + static_cast<int>(r.below(2))) % 3;
    int64_t own = m.reclen(), ebs = static_cast<int64_t>(r.below(static_cast<uint64_t>(m.ebbytes()) + 13)), len = base_len(pf) + ebs;
    if (len == own && (!other_format || r.chance(1, 2)))
    {
        ebs++;
        len++;
    }
    copc::las::Points q(static_cast<int8_t>(pf), static_cast<uint16_t>(ebs));
    for (int64_t n = own / std::gcd(own, len); n--;)
        q.AddPoint(q.CreatePoint());
    return q;
}
std::string from_points(const copc::las::Points &p, const Meta &m)
{
    auto v = p.Pack(v3(m.scale), v3(m.offset));
    Off off;
    return vs(v);
}
static double gd(Rng &r)
{
    return r.chance(1, 3) ? 0.0 : static_cast<double>(r.range(-100000000, 100000000)) / 777.0;
}
void change_meta(Rng &r, Meta &m)
{
    for (int k = 1 + static_cast<int>(r.below(6)); k--;)
        switch (r.below(10))
        {
        case 0:
            m.fsid = static_cast<uint16_t>(r.next());
            break;
        case 1:
            m.genc = static_cast<uint16_t>(r.next());
            break;
        case 2:
            m.day = static_cast<uint16_t>(r.next());
            m.year = static_cast<uint16_t>(r.next());
            break;
        case 3:
            m.guid = as_guid(gen_text(r, r.chance(1, 3) ? 16 : r.below(17)));
            break;
        case 4:
            m.sysid = gen_text(r, r.chance(1, 3) ? 32 : r.below(33));
            break;
        case 5:
            m.gensw = gen_text(r, r.chance(1, 3) ? 32 : r.below(33));
            break;
        case 6:
            for (int i = 0; i < 3; i++)
            {
                double a = gd(r), b = gd(r);
                m.mn[i] = std::min(a, b);
                m.mx[i] = std::max(a, b);
            }
            break;
        case 7:
            m.pbr[r.below(15)] = r.next();
            break;
        case 8:
            m.info[r.below(5)] = gd(r);
            break;
        default:
            if (!m.extents.empty())
            {
                Ext &e = m.extents[r.chance(1, 3) && m.extents.size() > 13 ? 13 : r.below(m.extents.size())];
                double a = gd(r), b = gd(r);
                e.mn = std::min(a, b);
                e.mx = std::max(a, b);
                if (m.ext)
                {
                    e.mean = gd(r);
                    e.var = std::fabs(gd(r));
                }
            }
        }
}
// what a writer created with these overrides starts from
Meta apply_overrides(const Meta &base, int mask, uint64_t seed, Meta &over)
{
    Rng r(mix(seed, 0x0e));
    over = gen_meta(r, true, 1);
    Meta m = base;
    if (mask & 1)
        m.pf = over.pf;
    for (int i = 0; i < 3; i++)
    {
        if (mask & 2)
            m.scale[i] = over.scale[i];
        if (mask & 4)
            m.offset[i] = over.offset[i];
    }
    if (mask & 8)
        m.wkt = over.wkt;
    if (mask & 16)
        m.eb = over.eb;
    if (mask & 32)
        m.ext = over.ext;
    if (mask)
    {
        m.raw_eb = 0;
        std::vector<Ext> e(static_cast<size_t>(m.nbase()) + m.eb.size());
        size_t common = static_cast<size_t>(std::min(m.nbase(), base.nbase()));
        for (size_t i = 0; i < common; i++)
            e[i] = base.extents[i];
        if (m.eb.size() == base.eb.size())
            for (size_t i = 0; i < m.eb.size(); i++)
                e[static_cast<size_t>(m.nbase()) + i] = base.extents[static_cast<size_t>(base.nbase()) + i];
        m.extents = e;
        if (m.ext && !base.ext)
            for (auto &x : m.extents)
            {
                x.mean = 0;
                x.var = 1;
            }
    }
    return m;
}

// ---------------------------------------------------------------- targets and inputs
static std::string path(const std::string &n) { return "simfs:/" + n; }
void put_file(const std::string &name, const std::string &bytes)
{
    auto f = fs.get(path(name), true);
    f->data = bytes;
}

void Target::open_out(int k, const std::string &n, int bufsize, bool throws, int mask)
{
    kind = k;
    name = path(n);
    if (k != 2)
        file = fs.get(name, true);
    std::ostream *o = nullptr;
    if (k == 1)
    {
        file->data.clear();
        buf = std::make_unique<SimBuf>(file, StreamOpts{bufsize, throws});
        os = std::make_unique<std::ostream>(buf.get());
        o = os.get();
    }
    else if (k == 2)
    {
        ss = std::make_unique<std::stringstream>(std::ios::in | std::ios::out | std::ios::binary);
        o = ss.get();
    }
    else if (k == 3)
    {
        fst = std::make_unique<std::fstream>();
        fst->open(name, std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary);
        o = fst.get();
    }
    if (o && mask && o->good())
        o->exceptions(mask == 1 ? std::ios::badbit : std::ios::badbit | std::ios::failbit);
}
std::ostream &Target::out() { return kind == 1 ? *os : kind == 2 ? static_cast<std::ostream &>(*ss) : *fst; }
bool Target::stream_failed() const
{
    switch (kind)
    {
    case 1:
        return os->fail();
    case 2:
        return ss->fail();
    case 3:
        return fst->fail();
    default:
        return false;
    }
}
bool Target::finish()
{
    if (kind == 0)
        return true;
    try
    {
        out().flush();
        if (kind == 3 && fst->is_open())
            fst->close();
    }
    catch (std::exception &)
    {
        return false;
    }
    return !out().fail();
}
std::string Target::bytes() const { return kind == 2 ? ss->str() : file->data; }

CallRes Input::open(int k, const std::string &n, int bufsize, bool throws, bool isLaz, std::string *what)
{
    kind = k;
    std::string nm = path(n);
    file = fs.get(nm, false);
    if (k == 0)
        return call(
            [&]
            {
                if (isLaz)
                    lfr = std::make_unique<copc::laz::LazFileReader>(nm);
                else
                    fr = std::make_unique<copc::FileReader>(nm);
            },
            what);
    if (k == 1)
    {
        buf = std::make_unique<SimBuf>(file, StreamOpts{bufsize, throws});
        is = std::make_unique<std::istream>(buf.get());
    }
    else if (k == 2)
        is = std::make_unique<std::istringstream>(file->data, std::ios::in | std::ios::binary);
    else
    {
        auto f = std::make_unique<std::fstream>();
        f->open(nm, std::ios::in | std::ios::binary);
        is = std::move(f);
    }
    return call(
        [&]
        {
            if (isLaz)
                lr = std::make_unique<copc::laz::LazReader>(is.get());
            else
                r = std::make_unique<copc::Reader>(is.get());
        },
        what);
}
void Input::close()
{
    Lib lib;
    r.reset();
    lr.reset();
    fr.reset();
    lfr.reset();
    Off off;
    is.reset();
    buf.reset();
}

// ---------------------------------------------------------------- queries
ReadModel read_model(const std::string &bytes, const Meta &m, const std::map<K, NodeM> *nodes)
{
    ReadModel x;
    x.bytes = bytes;
    x.m = m;
    x.p = parse_file(bytes, true);
    if (!x.p.err.empty())
        fail("harness", "the reference parser refuses the input file: " + x.p.err);
    for (auto &n : x.p.nodes)
    {
        if (nodes)
            x.recs[n.first] = nodes->at(n.first).recs;
        else
            x.recs[n.first] = decode_chunk(bytes, n.second.off, n.second.off + static_cast<uint64_t>(n.second.size), m,
                                           static_cast<uint64_t>(n.second.count));
    }
    return x;
}
std::string node_text(const EntryP &e)
{
    return e.key.s() + "@" + std::to_string(e.off) + "+" + std::to_string(e.size) + "#" + std::to_string(e.count) + "/" +
           e.page.s();
}
static std::string node_text(const copc::Node &n)
{
    EntryP e;
    e.key = mk(n.key);
    e.page = mk(n.page_key);
    e.off = n.offset;
    e.size = n.byte_size;
    e.count = n.point_count;
    return node_text(e);
}
static std::string join(std::vector<std::string> v)
{
    std::sort(v.begin(), v.end());
    std::string o;
    for (auto &s : v)
        o += s + " ";
    return o;
}
static std::string nodes_text(const std::vector<copc::Node> &v)
{
    Off off;
    std::vector<std::string> t;
    for (auto &n : v)
        t.push_back(node_text(n));
    return join(t);
}
static double dbl(int64_t b)
{
    double d;
    std::memcpy(&d, &b, 8);
    return d;
}
static std::string sorted_recs(const std::string &s, int len)
{
    std::vector<std::string> v;
    for (size_t i = 0; i + static_cast<size_t>(len) <= s.size(); i += static_cast<size_t>(len))
        v.push_back(s.substr(i, static_cast<size_t>(len)));
    std::sort(v.begin(), v.end());
    std::string o = std::to_string(s.size()) + ":";
    for (auto &x : v)
        o += x;
    return o;
}
static K qkey(const Op &q)
{
    return K{static_cast<int32_t>(q.arg(0)), static_cast<int32_t>(q.arg(1)), static_cast<int32_t>(q.arg(2)),
             static_cast<int32_t>(q.arg(3))};
}
// the box of a query, made in one of the ways a box can be made; two-dimensional ones reach over all heights
static copc::Box query_box(const Op &q)
{
    double v[6];
    for (size_t i = 0; i < 6; i++)
        v[i] = dbl(q.arg(i));
    switch (q.arg(7))
    {
    case 1:
        return copc::Box(copc::Vector3(v[0], v[1], v[2]), copc::Vector3(v[3], v[4], v[5]));
    case 2:
        return copc::Box(std::vector<double>(v, v + 6));
    case 3:
        return copc::Box(v[0], v[1], v[3], v[4]);
    case 4:
        return copc::Box(std::vector<double>{v[0], v[1], v[3], v[4]});
    case 5:
        return copc::Box::MaxBox();
    default:
        return copc::Box(v[0], v[1], v[2], v[3], v[4], v[5]);
    }
}
Answer ask(copc::Reader &r, const Op &q, const Meta &m)
{
    Answer a;
    count(c_queries);
    const std::string &n = q.name;
    auto text = [&](const std::string &s)
    {
        Off off;
        a.text = std::string(s.data(), s.size());
    };
    a.res = call(
        [&]
        {
            copc::VoxelKey k = vk(qkey(q));
            auto bytes = [&](const std::vector<char> &v)
            {
                Off off;
                a.text = vs(v);
            };
            if (n == "q_find")
            {
                auto x = r.FindNode(k);
                Off off;
                a.text = x.IsValid() ? node_text(x) : "absent";
            }
            else if (n == "q_all")
                text(nodes_text(r.GetAllNodes()));
            else if (n == "q_children")
                text(nodes_text(r.GetAllChildrenOfPage(k)));
            else if (n == "q_pages")
            {
                auto v = r.GetPageList();
                Off off;
                std::vector<std::string> t;
                for (auto &x : v)
                    t.push_back(mk(x).s());
                a.text = join(t);
            }
            else if (n == "q_data")
                bytes(r.GetPointData(k));
            else if (n == "q_datan")
                bytes(r.GetPointData(r.FindNode(k)));
            else if (n == "q_comp")
                bytes(r.GetPointDataCompressed(k));
            else if (n == "q_compn")
                bytes(r.GetPointDataCompressed(r.FindNode(k)));
            else if (n == "q_pts")
                text(from_points(r.GetPoints(k), m));
            else if (n == "q_ptsn")
                text(from_points(r.GetPoints(r.FindNode(k)), m));
            else if (n == "q_allpts")
            {
                auto p = q.arg(0) ? r.GetAllPoints(dbl(q.arg(0))) : r.GetAllPoints();
                std::string s = from_points(p, m);
                Off off;
                a.text = sorted_recs(s, m.reclen());
            }
            else if (n == "q_cfg")
            {
                auto c = r.CopcConfig();
                Meta g = meta_from(c);
                Off off;
                a.text = "cfg:" + diff_meta(m, g) + std::to_string(c.LasHeader().PointCount());
            }
            else if (n == "q_depth")
                text(std::to_string(r.GetDepthAtResolution(dbl(q.arg(0)))));
            else if (n == "q_maxdepth")
                text(std::to_string(r.GetMaxDepth()));
            else if (n == "q_nodesat")
                text(nodes_text(r.GetNodesAtResolution(dbl(q.arg(0)))));
            else if (n == "q_nodeswithin")
                text(nodes_text(r.GetNodesWithinResolution(dbl(q.arg(0)))));
            else if (n == "q_nbox" || n == "q_ibox" || n == "q_pbox")
            {
                copc::Box b = query_box(q);
                double res = dbl(q.arg(6));
                if (n == "q_nbox")
                    text(nodes_text(q.arg(6) ? r.GetNodesWithinBox(b, res) : r.GetNodesWithinBox(b)));
                else if (n == "q_ibox")
                    text(nodes_text(q.arg(6) ? r.GetNodesIntersectBox(b, res) : r.GetNodesIntersectBox(b)));
                else
                {
                    std::string s = from_points(q.arg(6) ? r.GetPointsWithinBox(b, res) : r.GetPointsWithinBox(b), m);
                    Off off;
                    a.text = sorted_recs(s, m.reclen());
                }
            }
            else if (n == "q_validate")
                text(r.ValidateSpatialBounds(q.arg(0) != 0) ? "valid" : "invalid");
            else
                fail("harness", "unknown query " + n);
        },
        &a.what);
    Hash h;
    h.str(a.text);
    trace_num(n.c_str(), static_cast<uint64_t>(q.id), static_cast<uint64_t>(a.res), h.h);
    return a;
}
namespace
{
struct B6
{
    double lo[3], hi[3];
};
B6 key_box(const K &k, const Meta &m)
{
    double span = std::max({m.mx[0] - m.mn[0], m.mx[1] - m.mn[1], m.mx[2] - m.mn[2]});
    double step = std::ldexp(span, -k.d);
    B6 b;
    int32_t c[3] = {k.x, k.y, k.z};
    for (int i = 0; i < 3; i++)
    {
        b.lo[i] = m.mn[i] + step * c[i];
        b.hi[i] = b.lo[i] + step;
    }
    return b;
}
bool inter(const B6 &a, const B6 &b)
{
    for (int i = 0; i < 3; i++)
        if (a.hi[i] < b.lo[i] || b.hi[i] < a.lo[i])
            return false;
    return true;
}
bool within(const B6 &a, const B6 &b)
{
    for (int i = 0; i < 3; i++)
        if (a.lo[i] < b.lo[i] || a.hi[i] > b.hi[i])
            return false;
    return true;
}
bool rec_in(const std::string &rec, const Meta &m, const B6 &b)
{
    int32_t c[3];
    std::memcpy(c, rec.data(), 12);
    for (int i = 0; i < 3; i++)
    {
        double v = c[i] * m.scale[i] + m.offset[i];
        if (v < b.lo[i] || v > b.hi[i])
            return false;
    }
    return true;
}
} // namespace
bool unspecified(const ReadModel &x, const Op &q)
{
    size_t len = static_cast<size_t>(x.m.reclen());
    // boxes and resolutions that make no sense come up while a plan is minimised
    bool box = q.name == "q_nbox" || q.name == "q_ibox" || q.name == "q_pbox";
    if (box)
        for (size_t i = 0; i < 3; i++)
            if (!(dbl(q.arg(i)) <= dbl(q.arg(i + 3))) || std::isinf(dbl(q.arg(i))) || std::isinf(dbl(q.arg(i + 3))))
                return true;
    if ((box && std::isnan(dbl(q.arg(6)))) ||
        ((q.name == "q_depth" || q.name == "q_nodesat" || q.name == "q_nodeswithin" || q.name == "q_allpts") &&
         std::isnan(dbl(q.arg(0)))))
        return true;
    if (q.name == "q_validate")
    {
        // A node that holds no point and lies outside the header bounds may be
        // reported or not.
        B6 hb;
        for (int i = 0; i < 3; i++)
        {
            hb.lo[i] = x.m.mn[i];
            hb.hi[i] = x.m.mx[i];
        }
        for (auto &e : x.p.nodes)
            if (x.recs.at(e.first).size() < len && !inter(key_box(e.first, x.m), hb))
                return true;
        return false;
    }
    if (q.name != "q_pbox")
        return false;
    for (auto &e : x.p.nodes)
    {
        const std::string &s = x.recs.at(e.first);
        B6 kb = key_box(e.first, x.m);
        for (size_t i = 0; i + len <= s.size(); i += len)
            if (!rec_in(s.substr(i, len), x.m, kb))
                return true;
    }
    return false;
}
Answer expect(const ReadModel &x, const Op &q)
{
    Answer a;
    const std::string &n = q.name;
    K k = qkey(q);
    auto it = x.p.nodes.find(k);
    bool have = it != x.p.nodes.end();
    size_t len = static_cast<size_t>(x.m.reclen());
    auto depth_at = [&](double res)
    {
        int md = -1;
        for (auto &e : x.p.nodes)
            md = std::max(md, e.first.d);
        if (res <= 0)
            return md;
        double cur = x.m.info[4];
        for (int i = 0; i <= md; i++, cur /= 2)
            if (cur <= res)
                return i;
        return md;
    };
    auto list = [&](const std::function<bool(const EntryP &)> &f)
    {
        std::vector<std::string> t;
        for (auto &e : x.p.nodes)
            if (f(e.second))
                t.push_back(node_text(e.second));
        a.text = join(t);
    };
    if (n == "q_find")
        a.text = have ? node_text(it->second) : "absent";
    else if (n == "q_all")
        list([](const EntryP &) { return true; });
    else if (n == "q_children")
    {
        if (x.p.pages.count(k))
        {
            list(
                [&](const EntryP &e)
                {
                    for (K g = e.page; g.d >= 0; g = x.p.pages.at(g).parent)
                        if (g == k)
                            return true;
                    return false;
                });
        }
        else
            list([&](const EntryP &e) { return e.key == k; });
    }
    else if (n == "q_pages")
    {
        std::vector<std::string> t;
        for (auto &e : x.p.pages)
            t.push_back(e.first.s());
        a.text = join(t);
    }
    else if (n == "q_data" || n == "q_pts")
        a.text = have ? x.recs.at(k) : "";
    else if (n == "q_datan" || n == "q_ptsn")
    {
        if (have)
            a.text = x.recs.at(k);
        else
            a.res = THREW;
    }
    else if (n == "q_comp" || n == "q_compn")
    {
        if (have)
            a.text = x.bytes.substr(it->second.off, static_cast<size_t>(it->second.size));
        else if (n == "q_compn")
            a.res = THREW;
    }
    else if (n == "q_allpts")
    {
        int d = depth_at(dbl(q.arg(0)));
        std::string all;
        for (auto &e : x.p.nodes)
            if (e.first.d <= d)
                all += x.recs.at(e.first);
        a.text = sorted_recs(all, x.m.reclen());
    }
    else if (n == "q_cfg")
        a.text = "cfg:" + std::to_string(x.p.point_count);
    else if (n == "q_depth")
        a.text = std::to_string(depth_at(dbl(q.arg(0))));
    else if (n == "q_maxdepth")
        a.text = std::to_string(depth_at(-1));
    else if (n == "q_nodesat")
    {
        int d = depth_at(dbl(q.arg(0)));
        list([&](const EntryP &e) { return e.key.d == d; });
    }
    else if (n == "q_nodeswithin")
    {
        int d = depth_at(dbl(q.arg(0)));
        list([&](const EntryP &e) { return e.key.d <= d; });
    }
    else if (n == "q_nbox" || n == "q_ibox" || n == "q_pbox")
    {
        B6 b;
        for (size_t i = 0; i < 3; i++)
        {
            b.lo[i] = dbl(q.arg(i));
            b.hi[i] = dbl(q.arg(i + 3));
            if (q.arg(7) == 5 || (i == 2 && q.arg(7) >= 3)) // the constructor was told no bound
            {
                b.lo[i] = -std::numeric_limits<double>::max();
                b.hi[i] = std::numeric_limits<double>::max();
            }
        }
        int d = depth_at(dbl(q.arg(6)));
        if (n == "q_nbox")
            list([&](const EntryP &e) { return e.key.d <= d && within(key_box(e.key, x.m), b); });
        else if (n == "q_ibox")
            list([&](const EntryP &e) { return e.key.d <= d && inter(key_box(e.key, x.m), b); });
        else
        {
            std::string all;
            for (auto &e : x.p.nodes)
                if (e.first.d <= d)
                {
                    const std::string &s = x.recs.at(e.first);
                    for (size_t i = 0; i + len <= s.size(); i += len)
                        if (rec_in(s.substr(i, len), x.m, b))
                            all += s.substr(i, len);
                }
            a.text = sorted_recs(all, x.m.reclen());
        }
    }
    else if (n == "q_validate")
    {
        bool ok = true;
        B6 hb;
        for (int i = 0; i < 3; i++)
        {
            hb.lo[i] = x.m.mn[i];
            hb.hi[i] = x.m.mx[i];
        }
        for (auto &e : x.p.nodes)
        {
            const std::string &s = x.recs.at(e.first);
            B6 kb = key_box(e.first, x.m);
            for (size_t i = 0; i + len <= s.size(); i += len)
                if (!rec_in(s.substr(i, len), x.m, hb) || !rec_in(s.substr(i, len), x.m, kb))
                    ok = false;
        }
        a.text = ok ? "valid" : "invalid";
    }
    return a;
}
static int64_t bits(double d)
{
    int64_t b;
    std::memcpy(&b, &d, 8);
    return b;
}
static double gen_res(Rng &r, const Meta &m)
{
    double s = m.info[4];
    double lvl = std::ldexp(s, -static_cast<int>(r.below(r.chance(1, 4) ? 30 : 8)));
    switch (r.below(10))
    {
    case 0:
        return 0;
    case 1:
        return -1;
    case 2:
    case 3:
        return lvl;
    case 4: // the closest numbers to the spacing of a level
        return std::nextafter(lvl, 0.0);
    case 5:
        return std::nextafter(lvl, 1e300);
    case 6:
        return lvl * 1.25;
    case 7:
        return lvl * 0.75;
    case 8:
        return r.chance(1, 2) ? std::numeric_limits<double>::infinity() : 1e300;
    default:
        return r.chance(1, 2) ? 1e-9 : std::numeric_limits<double>::denorm_min();
    }
}
static K query_key(Rng &r, const ReadModel &m)
{
    std::vector<K> have, pg;
    for (auto &n : m.p.nodes)
        have.push_back(n.first);
    for (auto &n : m.p.pages)
        pg.push_back(n.first);
    switch (r.below(8))
    {
    case 0:
        return r.pick(pg);
    case 1:
        return gen_key(r, 6);
    case 2: // ancestor or child of something stored
        if (!have.empty())
        {
            K k = r.pick(have);
            if (r.chance(1, 2))
                return k.up(static_cast<int>(r.below(static_cast<uint64_t>(k.d) + 1)));
            if (k.d < 28)
                return K{k.d + 1, k.x * 2 + static_cast<int>(r.below(2)), k.y * 2 + static_cast<int>(r.below(2)),
                         k.z * 2 + static_cast<int>(r.below(2))};
        }
        return ROOT;
    default:
        return have.empty() ? ROOT : r.pick(have);
    }
}
void gen_query(Plan &p, Rng &r, const ReadModel &m, bool spatial, bool nav)
{
    K k = query_key(r, m);
    auto key = [&](const char *n) { p.op(n, {k.d, k.x, k.y, k.z}); };
    if (spatial && (!nav || r.chance(1, 2)))
    {
        int64_t res = bits(r.chance(1, 2) ? 0.0 : gen_res(r, m.m));
        switch (r.below(11))
        {
        case 0:
            p.op("q_depth", {bits(gen_res(r, m.m))});
            return;
        case 1:
            p.op("q_nodesat", {bits(gen_res(r, m.m))});
            return;
        case 2:
            p.op("q_nodeswithin", {bits(gen_res(r, m.m))});
            return;
        case 3:
            p.op("q_validate", {r.chance(1, 3)});
            return;
        case 4:
            p.op("q_allpts", {res});
            return;
        case 5:
            p.op("q_maxdepth", {});
            return;
        default:
        {
            // a box whose faces often coincide with node faces
            double span = std::max({m.m.mx[0] - m.m.mn[0], m.m.mx[1] - m.m.mn[1], m.m.mx[2] - m.m.mn[2]});
            double lo[3], hi[3];
            int style = static_cast<int>(r.below(4));
            B6 nb = key_box(k, m.m);
            for (int i = 0; i < 3; i++)
            {
                if (style == 0)
                {
                    lo[i] = nb.lo[i];
                    hi[i] = nb.hi[i];
                }
                else if (style == 1)
                {
                    double g = std::ldexp(span, -static_cast<int>(r.below(6)));
                    lo[i] = m.m.mn[i] + g * static_cast<double>(r.range(-1, 4));
                    hi[i] = lo[i] + g * static_cast<double>(r.range(0, 4));
                }
                else if (style == 2)
                {
                    double e = span / 64;
                    lo[i] = nb.lo[i] + e * static_cast<double>(r.range(-2, 2));
                    hi[i] = nb.hi[i] + e * static_cast<double>(r.range(-2, 2));
                    if (hi[i] < lo[i])
                        std::swap(hi[i], lo[i]);
                }
                else
                {
                    lo[i] = m.m.mn[i] + span * static_cast<double>(r.range(-512, 1200)) / 1024.0;
                    hi[i] = lo[i] + span * static_cast<double>(r.range(0, 1500)) / 1024.0;
                }
            }
            if (r.chance(1, 4)) // a face that just touches or just misses
            {
                size_t i = r.below(3);
                if (r.chance(1, 2))
                    lo[i] = std::nextafter(lo[i], r.chance(1, 2) ? -1e300 : hi[i]);
                else
                    hi[i] = std::nextafter(hi[i], r.chance(1, 2) ? 1e300 : lo[i]);
            }
            if (r.chance(1, 12)) // thin or unbounded in one direction
            {
                size_t i = r.below(3);
                if (r.chance(1, 2))
                    lo[i] = -std::numeric_limits<double>::max(), hi[i] = std::numeric_limits<double>::max();
                else
                    hi[i] = lo[i];
            }
            const char *nm[] = {"q_nbox", "q_ibox", "q_pbox"};
            static const std::vector<int64_t> how{0, 0, 0, 1, 2, 3, 4};
            p.op(nm[r.below(3)], {bits(lo[0]), bits(lo[1]), bits(lo[2]), bits(hi[0]), bits(hi[1]), bits(hi[2]), res,
                                  r.chance(1, 30) ? 5 : r.pick(how)});
            return;
        }
        }
    }
    switch (r.below(14))
    {
    case 0:
        p.op("q_all", {});
        break;
    case 1:
    case 2:
        key("q_children");
        break;
    case 3:
        p.op("q_pages", {});
        break;
    case 4:
        key("q_data");
        break;
    case 5:
        key("q_datan");
        break;
    case 6:
        key("q_comp");
        break;
    case 7:
        key("q_compn");
        break;
    case 8:
        key("q_pts");
        break;
    case 9:
        key("q_ptsn");
        break;
    case 10:
        p.op("q_allpts", {bits(0.0)});
        break;
    case 11:
        p.op("q_cfg", {});
        break;
    default:
        key("q_find");
    }
}

// ---------------------------------------------------------------- COPC writer driver
static const int64_t BIG = int64_t(1) << 40;
CopcRun::~CopcRun() { destroy(); }
void CopcRun::failed(const Op &o, CallRes r, const std::string &what)
{
    threw++;
    count(c_ops_threw);
    bool excused = (io_faults && (fe.fired > 0)) || (oom_ok && fe.illegal_in_op > 0);
    if (!excused)
        fail("unexpected-error", "operation " + std::to_string(o.id) + " (" + o.name + ") threw without any fault: " + what);
    if (r == NOMEM || fe.illegal_in_op)
        trace_num("failed", static_cast<uint64_t>(o.id));
    if (stop_on_error)
        stopped = true;
}
void CopcRun::destroy()
{
    if (!have() && !live_cfg && !cfg)
        return;
    Lib lib;
    w.reset();
    fw.reset();
    live_cfg.reset();
    cfg.reset();
}
static std::string other_file(uint64_t seed, const Meta &like, std::string *recs)
{
    Rng r(mix(seed, 0x07e));
    Meta m = like;
    std::map<K, NodeM> n;
    std::set<K> pages{ROOT};
    for (int i = 0; i < 3; i++)
    {
        NodeM x;
        x.count = static_cast<int64_t>(1 + r.below(20));
        x.recs = gen_records(r, m, x.count, static_cast<int>(r.below(3)));
        x.page = ROOT;
        n[i == 0 ? ROOT : K{1, i - 1, 0, 1}] = x;
    }
    if (recs)
        *recs = n[ROOT].recs;
    EncOpts o;
    o.seed = seed;
    return encode_copc(m, n, pages, o);
}
static K ok(const Op &o, size_t i)
{
    return K{static_cast<int32_t>(o.arg(i)), static_cast<int32_t>(o.arg(i + 1)), static_cast<int32_t>(o.arg(i + 2)),
             static_cast<int32_t>(o.arg(i + 3))};
}
struct NoFaults
{
    bool e;
    NoFaults() : e(fe.enabled) { fe.enabled = false; }
    ~NoFaults() { fe.enabled = e; }
};
// the bounds in the header take in some points
static void grow_bounds(Rng &r, Meta &m, copc::las::LasHeader &h)
{
    for (int i = 0; i < 3; i++)
        if (!std::isfinite(m.mn[i]) || !std::isfinite(m.mx[i]) || !std::isfinite(m.scale[i]) || !std::isfinite(m.offset[i]))
            return;
    std::string recs = gen_records(r, m, static_cast<int64_t>(1 + r.below(12)), static_cast<int>(r.below(3)));
    auto pts = to_points(recs, m);
    Lib lib;
    for (const auto &p : pts)
    {
        h.CheckAndUpdateBounds(*p);
        double v[3] = {p->X(), p->Y(), p->Z()};
        for (int i = 0; i < 3; i++)
        {
            if (v[i] < m.mn[i])
                m.mn[i] = v[i];
            if (v[i] > m.mx[i])
                m.mx[i] = v[i];
        }
    }
}
bool CopcRun::exec(const Op &o)
{
    const std::string &n = o.name;
    std::string what;
    if (n == "cfg")
    {
        NoFaults nf;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        user = gen_meta(r, true, static_cast<int>(o.arg(1)));
        int src = static_cast<int>(o.arg(2));
        Lib lib;
        if (src == 1 || src == 3)
        {
            Off off;
            Meta m = user;
            m.genc |= 0x10;
            EncOpts e;
            e.seed = static_cast<uint64_t>(o.arg(0));
            e.extents = src == 1;
            e.evlr = static_cast<int>(o.arg(3));
            e.wkt_as_vlr = r.chance(1, 3) && m.wkt.size() < 65536;
            e.odd_vlrs = r.chance(1, 2);
            e.single_hier = r.chance(1, 2);
            if (src == 3)
            {
                count(c_probe_no_extents);
                m.ext = false;
                m.extents.assign(static_cast<size_t>(m.nbase()) + m.eb.size(), Ext());
            }
            if (e.wkt_as_vlr)
                count(c_probe_wkt_plain_vlr);
            std::map<K, NodeM> nodes0;
            put_file(name + ".src", encode_copc(m, nodes0, {ROOT}, e));
            Input in;
            CallRes cr = in.open(1, name + ".src", 256, false, false, &what);
            if (cr != OK)
                fail("metadata", "a well-formed file cannot be opened to take its configuration: " + what);
            cr = call(
                [&]
                {
                    cfg = std::make_shared<copc::CopcConfigWriter>(in.reader().CopcConfig());
                    user = meta_from(static_cast<const copc::CopcConfigWriter &>(*cfg));
                },
                &what);
            if (cr != OK)
                fail("unexpected-error", "taking the configuration of a reader threw: " + what);
            std::string d = diff_meta(m, user);
            if (!d.empty())
                fail("metadata", "configuration taken from a reader differs from the file: " + d);
        }
        else if (src == 2)
        {
            auto lc = make_laz_cfg(user);
            copc::CopcInfo info;
            copc::CopcExtents ext(static_cast<int8_t>(user.pf), static_cast<uint16_t>(user.eb.size()), user.ext);
            copc::CopcConfig cc(*lc, info, ext);
            cfg = std::make_shared<copc::CopcConfigWriter>(cc);
            apply_meta(*cfg, user);
        }
        else
            cfg = make_copc_cfg(user);
        live = user;
        return true;
    }
    if (n == "user")
    {
        if (!cfg)
            return true;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        change_meta(r, user);
        NoFaults nf;
        Lib lib;
        apply_meta(*cfg, user);
        return true;
    }
    if (n == "open")
    {
        if (!cfg || have())
            return true;
        fe.begin_op(o);
        Meta over;
        int mask = static_cast<int>(o.arg(4));
        live = apply_overrides(user, mask, static_cast<uint64_t>(o.arg(5)), over);
        int kind = static_cast<int>(o.arg(0));
        if (o.arg(6))
        {
            Rng r(static_cast<uint64_t>(o.arg(6)));
            std::string old = other_file(static_cast<uint64_t>(o.arg(6)), gen_meta(r, true, 1), nullptr);
            put_file(name, old + old);
        }
        t.open_out(kind, name, static_cast<int>(o.arg(1)), o.arg(2) != 0, static_cast<int>(o.arg(3)));
        if (t.file)
        {
            t.file->keep_log = p.k("log") != 0;
            int64_t cap = p.k("capacity", -1);
            if (cap >= 0)
                t.file->capacity = cap;
        }
        std::optional<int8_t> pf;
        std::optional<copc::Vector3> sc, of;
        std::optional<std::string> wkt;
        std::optional<copc::las::EbVlr> eb;
        std::optional<bool> es;
        {
            NoFaults nf;
            Lib lib;
            if (mask & 1)
                pf = static_cast<int8_t>(over.pf);
            if (mask & 2)
                sc = v3(over.scale);
            if (mask & 4)
                of = v3(over.offset);
            if (mask & 8)
                wkt = over.wkt;
            if (mask & 16)
                eb = to_ebvlr(over.eb);
            if (mask & 32)
                es = over.ext;
        }
        CallRes r = call(
            [&]
            {
                if (kind == 0)
                    fw = std::make_unique<copc::FileWriter>(t.name, *cfg, pf, sc, of, wkt, eb, es);
                else
                    w = std::make_unique<copc::Writer>(t.out(), *cfg, pf, sc, of, wkt, eb, es);
                live_cfg = W().CopcConfig();
            },
            &what);
        trace_num("open", static_cast<uint64_t>(r));
        if (r != OK)
        {
            failed(o, r, what);
            return true;
        }
        opened = true;
        return true;
    }
    if (n == "live")
    {
        if (!live_cfg || closed)
            return true;
        NoFaults nf;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        if (o.arg(1) == 1)
        {
            grow_bounds(r, live, *live_cfg->LasHeader());
            return true;
        }
        change_meta(r, live);
        Lib lib;
        apply_meta(*live_cfg, live);
        return true;
    }
    if (n == "add")
    {
        K key = ok(o, 0), page = ok(o, 4);
        if (!have() || closed || nodes.count(key))
            return true;
        int64_t cnt = o.arg(8);
        int variant = static_cast<int>(o.arg(10)), style = static_cast<int>(o.arg(11));
        // such an operation is refused with good reason; only a minimised plan holds one
        if (!key.under(page) || (variant != 4 && cnt <= 0))
            return true;
        Rng r(static_cast<uint64_t>(o.arg(9)));
        NodeM nm;
        nm.recs = gen_records(r, live, cnt, style);
        nm.count = cnt;
        nm.page = page;
        int how = variant == 0 && cnt > 0 ? static_cast<int>(o.arg(12)) : 0;
        if (how)
            shape_records(nm.recs, live, how);
        std::vector<char> raw, comp;
        std::unique_ptr<copc::las::Points> pts;
        {
            NoFaults nf;
            if (variant == 4)
            {
                std::string recs;
                Meta fm = live;
                put_file(name + ".other", other_file(static_cast<uint64_t>(o.arg(9)), fm, &recs));
                Input in;
                if (in.open(1, name + ".other", 100, false, false, &what) != OK)
                    fail("roundtrip", "a well-formed file cannot be opened: " + what);
                if (call(
                        [&]
                        {
                            auto nd = in.reader().FindNode(vk(ROOT));
                            comp = in.reader().GetPointDataCompressed(nd);
                            nm.count = nd.point_count;
                        },
                        &what) != OK)
                    fail("unexpected-error", "reading compressed data of a well-formed file threw: " + what);
                nm.recs = recs;
            }
            else if (variant == 3)
            {
                std::string c = encode_chunk(nm.recs, live);
                comp.assign(c.begin(), c.end());
            }
            else
                raw.assign(nm.recs.begin(), nm.recs.end());
            if (variant == 0)
            {
                Lib lib;
                pts = std::make_unique<copc::las::Points>(how ? points_how(nm.recs, live, how, *live_cfg->LasHeader())
                                                              : to_points(nm.recs, live));
            }
            if (variant == 2)
            {
                Lib lib;
                comp = copc::laz::Compressor::CompressBytes(raw, *live_cfg->LasHeader());
            }
        }
        fe.begin_op(o);
        copc::Node got;
        bool pagedef = page == ROOT && (o.arg(9) & 1);
        CallRes res = call(
            [&]
            {
                if (variant == 0)
                    got = pagedef ? W().AddNode(vk(key), *pts) : W().AddNode(vk(key), *pts, vk(page));
                else if (variant == 1)
                    got = pagedef ? W().AddNode(vk(key), raw) : W().AddNode(vk(key), raw, vk(page));
                else
                    got = W().AddNodeCompressed(vk(key), comp, static_cast<int32_t>(nm.count), vk(page));
            },
            &what);
        {
            Lib lib;
            pts.reset();
        }
        trace_num("add", static_cast<uint64_t>(o.id), static_cast<uint64_t>(res));
        if (res != OK)
        {
            failed(o, res, what);
            return true;
        }
        if (mk(got.key) != key || got.point_count != nm.count || mk(got.page_key) != page)
            fail("add-result", "adding node " + key.s() + " returned " + node_text(got));
        nodes[key] = nm;
        points += static_cast<uint64_t>(nm.count);
        count(c_nodes_written);
        count(c_points_written, static_cast<uint64_t>(nm.count));
        if (live.reclen() > 255)
            count(c_probe_record_over_255);
        return true;
    }
    if (n == "many")
    {
        // a large number of small nodes: seed, number, depth of the pages
        if (!have() || closed)
            return true;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        std::string recs = gen_records(r, live, 1, 1);
        std::vector<char> raw(recs.begin(), recs.end());
        int pd = static_cast<int>(o.arg(2));
        fe.begin_op(o);
        for (int64_t i = 0; i < o.arg(1); i++)
        {
            K key;
            key.d = 7;
            key.x = static_cast<int32_t>(r.below(128));
            key.y = static_cast<int32_t>(r.below(128));
            key.z = static_cast<int32_t>(r.below(128));
            if (nodes.count(key))
                continue;
            K page = key.up(pd);
            CallRes res = call([&] { W().AddNode(vk(key), raw, vk(page)); }, &what);
            if (res != OK)
            {
                failed(o, res, what);
                return true;
            }
            NodeM nm;
            nm.recs = recs;
            nm.count = 1;
            nm.page = page;
            nodes[key] = nm;
            points++;
        }
        count(c_nodes_written, static_cast<uint64_t>(o.arg(1)));
        return true;
    }
    if (n == "move")
    {
        K key = ok(o, 0), page = ok(o, 4);
        if (!have() || closed || !nodes.count(key) || !key.under(page))
            return true;
        fe.begin_op(o);
        CallRes res = call([&] { W().ChangeNodePage(vk(key), vk(page)); }, &what);
        trace_num("move", static_cast<uint64_t>(o.id), static_cast<uint64_t>(res));
        if (res != OK)
        {
            failed(o, res, what);
            return true;
        }
        count(c_pages_moved);
        nodes[key].page = page;
        return true;
    }
    if (n == "find")
    {
        if (!have())
            return true;
        K key = ok(o, 0);
        fe.begin_op(o);
        copc::Node got;
        CallRes res = call([&] { got = W().FindNode(vk(key)); }, &what);
        if (res != OK)
        {
            failed(o, res, what);
            return true;
        }
        bool want = nodes.count(key) != 0;
        if (got.IsValid() != want || (want && (mk(got.key) != key || got.point_count != nodes[key].count)))
            fail("writer-find", "the writer " + std::string(got.IsValid() ? "finds " + node_text(got) : "does not find the node") +
                                    " asked for " + key.s());
        if (want && mk(got.page_key) != nodes[key].page)
            fail("writer-find", "the writer reports node " + key.s() + " in page " + mk(got.page_key).s() + " instead of " +
                                    nodes[key].page.s());
        return true;
    }
    if (n == "bad")
    {
        if (!have() || closed || skip_bad)
            return true;
        int kind = static_cast<int>(o.arg(0));
        K key = ok(o, 1), page = ok(o, 5);
        Rng r(static_cast<uint64_t>(o.arg(9)));
        if (nodes.count(key) && kind != 13 && kind != 12)
            return true;
        std::string recs = gen_records(r, live, 3, 0);
        std::vector<char> raw(recs.begin(), recs.end()), empty;
        fe.begin_op(o);
        int16_t g = 0;
        (void)g;
        CallRes res = call(
            [&]
            {
                auto inv = [&](copc::VoxelKey k)
                {
                    switch (r.below(4))
                    {
                    case 0:
                        k.d = -1;
                        break;
                    case 1:
                        k.x = -1 - static_cast<int>(r.below(5));
                        break;
                    case 2:
                        k.y = -3;
                        break;
                    default:
                        return copc::VoxelKey::InvalidKey();
                    }
                    return k;
                };
                auto add = [&](copc::VoxelKey k, copc::VoxelKey pg)
                {
                    switch (r.below(3))
                    {
                    case 0:
                        W().AddNode(k, to_points(recs, live), pg);
                        break;
                    case 1:
                        W().AddNode(k, raw, pg);
                        break;
                    default:
                        W().AddNodeCompressed(k, raw, 3, pg);
                    }
                };
                copc::VoxelKey k = vk(key), pg = vk(page);
                switch (kind)
                {
                case 0:
                    add(inv(k), pg);
                    break;
                case 1:
                    add(k, inv(pg));
                    break;
                case 2: // page beside or below the node
                    if (r.chance(1, 2))
                        add(k, copc::VoxelKey(k.d + 1, k.x * 2, k.y * 2, k.z * 2));
                    else
                        add(k, copc::VoxelKey(k.d, k.x ^ 1, k.y, k.z));
                    break;
                case 3:
                {
                    Meta o2 = live;
                    o2.pf = live.pf == 6 ? 7 : 6;
                    if (r.chance(1, 2)) // same record length, other format
                    {
                        o2.eb.clear();
                        o2.raw_eb = live.reclen() - base_len(o2.pf);
                        if (o2.raw_eb < 0)
                            o2.raw_eb = 0;
                    }
                    copc::las::Points q(static_cast<int8_t>(o2.pf), static_cast<uint16_t>(o2.ebbytes()));
                    q.AddPoint(q.CreatePoint());
                    W().AddNode(k, q, pg);
                    break;
                }
                case 4:
                {
                    copc::las::Points q(static_cast<int8_t>(live.pf), static_cast<uint16_t>(live.ebbytes() + 1));
                    q.AddPoint(q.CreatePoint());
                    W().AddNode(k, q, pg);
                    break;
                }
                case 5:
                    W().AddNode(k, copc::las::Points(static_cast<int8_t>(live.pf), static_cast<uint16_t>(live.ebbytes())), pg);
                    break;
                case 6:
                    W().AddNode(k, empty, pg);
                    break;
                case 7:
                    raw.resize(raw.size() - 1 - r.below(static_cast<uint64_t>(live.reclen()) - 1));
                    W().AddNode(k, raw, pg);
                    break;
                case 8:
                    W().AddNodeCompressed(k, raw, 0, pg);
                    break;
                case 9:
                    W().AddNodeCompressed(k, raw, -1 - static_cast<int>(r.below(1000)), pg);
                    break;
                case 10:
                    W().AddNodeCompressed(k, empty, 3, pg);
                    break;
                case 11:
                    W().ChangeNodePage(k, copc::VoxelKey::RootKey());
                    break;
                case 12: // existing node, invalid page
                    W().ChangeNodePage(nodes.empty() ? k : vk(nodes.begin()->first), inv(pg));
                    break;
                case 13: // existing node, not an ancestor
                {
                    copc::VoxelKey e = nodes.empty() ? k : vk(std::next(nodes.begin(), static_cast<long>(r.below(nodes.size())))->first);
                    if (r.chance(1, 2))
                        W().ChangeNodePage(e, copc::VoxelKey(e.d + 1, e.x * 2, e.y * 2, e.z * 2));
                    else
                        W().ChangeNodePage(e, copc::VoxelKey(e.d, e.x ^ 1, e.y, e.z));
                    break;
                }
                case 14:
                    W().ChangeNodePage(inv(k), pg);
                    break;
                case 17:
                case 18:
                    W().AddNode(k, foreign_points(r, live, kind == 18), pg);
                    break;
                case 15: // not a cell of the octree
                    add(copc::VoxelKey(2, 4 + static_cast<int>(r.below(5)), 0, 1), copc::VoxelKey::RootKey());
                    break;
                default: // neither the node nor its page are cells of the octree
                {
                    int x = 2 + static_cast<int>(r.below(5));
                    add(copc::VoxelKey(2, x * 2 + 1, 0, 1), copc::VoxelKey(1, x, 0, 0));
                }
                }
            },
            &what);
        count(c_ops_refused);
        trace_num("bad", static_cast<uint64_t>(kind), static_cast<uint64_t>(res));
        if (res == OK && !(kind == 3 && false))
            fail("not-refused", "invalid operation of kind " + std::to_string(kind) + " was accepted");
        return true;
    }
    if (n == "close")
    {
        if (!have() || closed)
            return true;
        if (p.k("pre_close_cfg"))
        {
        }
        fe.begin_op(o);
        int handles = fs.open_handles;
        CallRes res = call([&] { W().Close(); }, &what);
        trace_num("close", static_cast<uint64_t>(res));
        if (fe.illegal_in_op)
            count(c_probe_fault_in_close);
        if (res != OK)
        {
            close_threw = true;
            failed(o, res, what);
            return true;
        }
        close_threw = false;
        closed = true;
        count(c_files_closed);
        if (fw && p.prop == "C17" && fs.open_handles != handles - 1)
            fail("handle-leak", "the file is still open after the writer was closed");
        if (t.kind == 2 || t.kind == 0)
            frozen = t.bytes();
        return true;
    }
    if (n == "post")
    {
        if (!have() || !closed || skip_bad)
            return true;
        int kind = static_cast<int>(o.arg(0));
        K key = ok(o, 1);
        Rng r(static_cast<uint64_t>(o.arg(9)));
        std::string recs = gen_records(r, live, 2, 0);
        std::vector<char> raw(recs.begin(), recs.end());
        if (kind >= 1 && kind <= 3 && nodes.count(key))
            return true;
        const K *mv = nullptr;
        if (kind == 4)
        {
            for (auto &x : nodes)
                if (x.first.d > 0)
                    mv = &x.first;
            if (!mv)
                return true;
        }
        fe.begin_op(o);
        CallRes res = call(
            [&]
            {
                switch (kind)
                {
                case 0:
                    W().Close();
                    break;
                case 1:
                    W().AddNode(vk(key), to_points(recs, live));
                    break;
                case 2:
                    W().AddNode(vk(key), raw);
                    break;
                case 3:
                {
                    std::vector<char> c;
                    {
                        Off off;
                        std::string e = encode_chunk(recs, live);
                        c.assign(e.begin(), e.end());
                    }
                    W().AddNodeCompressed(vk(key), c, 2);
                    break;
                }
                case 4:
                    W().ChangeNodePage(vk(*mv), vk(nodes[*mv].page == ROOT ? *mv : ROOT));
                    break;
                case 5: // change the configuration, then close again
                    live_cfg->LasHeader()->file_source_id++;
                    W().Close();
                    break;
                default:
                    W().FindNode(vk(key));
                }
            },
            &what);
        trace_num("post", static_cast<uint64_t>(kind), static_cast<uint64_t>(res));
        bool must_refuse = kind >= 1 && kind <= 4;
        if (must_refuse)
            count(c_probe_post_close_refused);
        if (must_refuse && res == OK)
            fail("closed-not-final", "an operation of kind " + std::to_string(kind) + " was accepted after close");
        if (!must_refuse && res != OK)
            failed(o, res, what);
        return true;
    }
    if (n == "destroy")
    {
        if (!have())
            return true;
        fe.begin_op(o);
        destroy();
        trace_num("destroy", 1);
        return true;
    }
    return false;
}
void CopcRun::run_all()
{
    for (auto &o : p.ops)
    {
        if (stopped && o.name != "close" && o.name != "destroy")
            continue;
        exec(o);
    }
}

// ---------------------------------------------------------------- LAZ writer driver
LazRun::~LazRun() { destroy(); }
void LazRun::failed(const Op &o, CallRes r, const std::string &what)
{
    threw++;
    count(c_ops_threw);
    bool excused = (io_faults && (fe.fired > 0)) || (oom_ok && fe.illegal_in_op > 0);
    if (!excused)
        fail("unexpected-error", "operation " + std::to_string(o.id) + " (" + o.name + ") threw without any fault: " + what);
    (void)r;
    if (stop_on_error)
        stopped = true;
}
void LazRun::destroy()
{
    Lib lib;
    w.reset();
    fw.reset();
    live_cfg.reset();
    cfg.reset();
}
bool LazRun::exec(const Op &o)
{
    const std::string &n = o.name;
    std::string what;
    if (n == "lcfg")
    {
        NoFaults nf;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        int src = static_cast<int>(o.arg(2));
        user = gen_meta(r, src == 2, static_cast<int>(o.arg(1)));
        if (src == 1)
        {
            Meta m = user;
            m.genc |= 0x10;
            EncOpts e;
            e.seed = static_cast<uint64_t>(o.arg(0));
            e.evlr = static_cast<int>(o.arg(3));
            e.wkt_as_vlr = r.chance(1, 3) && m.wkt.size() < 65536;
            e.odd_vlrs = r.chance(1, 2);
            put_file(name + ".src", encode_laz(m, {gen_records(r, m, 3, 1)}, e));
            Input in;
            if (in.open(1, name + ".src", 256, false, true, &what) != OK)
                fail("metadata", "a well-formed LAZ file cannot be opened to take its configuration: " + what);
            if (call(
                    [&]
                    {
                        cfg = std::make_shared<copc::las::LazConfigWriter>(in.laz().LazConfig());
                        user = meta_from(static_cast<const copc::las::LazConfigWriter &>(*cfg));
                    },
                    &what) != OK)
                fail("unexpected-error", "taking the configuration of a reader threw: " + what);
            std::string d = diff_meta(m, user);
            if (!d.empty())
                fail("metadata", "configuration taken from a LAZ reader differs from the file: " + d);
        }
        else
        {
            Lib lib;
            if (src == 2)
            {
                auto c = make_copc_cfg(user);
                copc::las::LazConfig lc(static_cast<const copc::CopcConfig &>(*c));
                cfg = std::make_shared<copc::las::LazConfigWriter>(lc);
                user.copc = false;
                user.extents.clear();
            }
            else
                cfg = make_laz_cfg(user);
        }
        live = user;
        return true;
    }
    if (n == "luser")
    {
        if (!cfg)
            return true;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        change_meta(r, user);
        NoFaults nf;
        Lib lib;
        apply_meta(*cfg, user);
        return true;
    }
    if (n == "lopen")
    {
        if (!cfg || have())
            return true;
        fe.begin_op(o);
        live = user;
        int kind = static_cast<int>(o.arg(0));
        if (o.arg(4))
        {
            Rng r(static_cast<uint64_t>(o.arg(4)));
            std::string old = other_file(static_cast<uint64_t>(o.arg(4)), gen_meta(r, true, 1), nullptr);
            put_file(name, old + old);
        }
        t.open_out(kind, name, static_cast<int>(o.arg(1)), o.arg(2) != 0, static_cast<int>(o.arg(3)));
        if (t.file)
        {
            t.file->keep_log = p.k("log") != 0;
            int64_t cap = p.k("capacity", -1);
            if (cap >= 0)
                t.file->capacity = cap;
        }
        CallRes r = call(
            [&]
            {
                if (kind == 0)
                    fw = std::make_unique<copc::laz::LazFileWriter>(t.name, *cfg);
                else
                    w = std::make_unique<copc::laz::LazWriter>(t.out(), *cfg);
                live_cfg = W().LazConfig();
            },
            &what);
        trace_num("lopen", static_cast<uint64_t>(r));
        if (r != OK)
        {
            failed(o, r, what);
            return true;
        }
        opened = true;
        return true;
    }
    if (n == "llive")
    {
        if (!live_cfg || closed)
            return true;
        NoFaults nf;
        Rng r(static_cast<uint64_t>(o.arg(0)));
        if (o.arg(1) == 1)
        {
            grow_bounds(r, live, *live_cfg->LasHeader());
            return true;
        }
        change_meta(r, live);
        Lib lib;
        apply_meta(*live_cfg, live);
        return true;
    }
    if (n == "lwrite")
    {
        if (!have() || closed)
            return true;
        int64_t cnt = o.arg(0);
        int variant = static_cast<int>(o.arg(2)), style = static_cast<int>(o.arg(3));
        if (cnt < 0 || (variant != 0 && cnt == 0))
            return true;
        Rng r(static_cast<uint64_t>(o.arg(1)));
        std::string recs = gen_records(r, live, cnt, style);
        int how = variant == 0 && cnt > 0 ? static_cast<int>(o.arg(4)) : 0;
        if (how)
            shape_records(recs, live, how);
        std::vector<char> comp;
        std::unique_ptr<copc::las::Points> pts;
        {
            NoFaults nf;
            if (variant == 0)
            {
                Lib lib;
                pts = std::make_unique<copc::las::Points>(how ? points_how(recs, live, how, *live_cfg->LasHeader())
                                                              : to_points(recs, live));
            }
            else if (variant == 1)
            {
                std::vector<char> raw(recs.begin(), recs.end());
                Lib lib;
                comp = copc::laz::Compressor::CompressBytes(raw, *live_cfg->LasHeader());
            }
            else
            {
                std::string c = encode_chunk(recs, live);
                comp.assign(c.begin(), c.end());
            }
        }
        fe.begin_op(o);
        CallRes res = call(
            [&]
            {
                if (variant == 0)
                    W().WritePoints(*pts);
                else
                    W().WritePointsCompressed(comp, static_cast<int32_t>(cnt));
            },
            &what);
        {
            Lib lib;
            pts.reset();
        }
        trace_num("lwrite", static_cast<uint64_t>(o.id), static_cast<uint64_t>(res));
        if (res != OK)
            failed(o, res, what);
        else if (cnt > 0)
        {
            chunks.push_back(recs);
            points += static_cast<uint64_t>(cnt);
            count(c_points_written, static_cast<uint64_t>(cnt));
            if (live.reclen() > 255)
                count(c_probe_record_over_255);
        }
        if (!(res != OK && io_faults) && (W().PointCount() != points || W().ChunkCount() != chunks.size()))
            fail("counters", "the writer counts " + std::to_string(W().PointCount()) + " points in " +
                                 std::to_string(W().ChunkCount()) + " chunks, accepted were " + std::to_string(points) +
                                 " in " + std::to_string(chunks.size()));
        return true;
    }
    if (n == "lbad")
    {
        if (!have() || closed || skip_bad)
            return true;
        int kind = static_cast<int>(o.arg(0));
        Rng r(static_cast<uint64_t>(o.arg(1)));
        std::string recs = gen_records(r, live, 2, 0);
        std::vector<char> raw(recs.begin(), recs.end()), empty;
        fe.begin_op(o);
        CallRes res = call(
            [&]
            {
                switch (kind)
                {
                case 0:
                {
                    int pf = live.pf == 6 ? 7 : 6;
                    copc::las::Points q(static_cast<int8_t>(pf), static_cast<uint16_t>(live.ebbytes()));
                    q.AddPoint(q.CreatePoint());
                    W().WritePoints(q);
                    break;
                }
                case 1:
                {
                    copc::las::Points q(static_cast<int8_t>(live.pf), static_cast<uint16_t>(live.ebbytes() + 1));
                    q.AddPoint(q.CreatePoint());
                    W().WritePoints(q);
                    break;
                }
                case 5:
                case 6:
                    W().WritePoints(foreign_points(r, live, kind == 6));
                    break;
                case 2:
                    W().WritePointsCompressed(raw, 0);
                    break;
                case 3:
                    W().WritePointsCompressed(raw, -1 - static_cast<int>(r.below(1000)));
                    break;
                default:
                    W().WritePointsCompressed(empty, 2);
                }
            },
            &what);
        count(c_ops_refused);
        trace_num("lbad", static_cast<uint64_t>(kind), static_cast<uint64_t>(res));
        if (res == OK)
            fail("not-refused", "invalid LAZ operation of kind " + std::to_string(kind) + " was accepted");
        if (W().PointCount() != points || W().ChunkCount() != chunks.size())
            fail("counters", "a refused operation changed the writer's counters");
        return true;
    }
    if (n == "lclose")
    {
        if (!have() || closed)
            return true;
        fe.begin_op(o);
        int handles = fs.open_handles;
        CallRes res = call([&] { fw ? fw->Close() : w->Close(); }, &what);
        trace_num("lclose", static_cast<uint64_t>(res));
        if (fe.illegal_in_op)
            count(c_probe_fault_in_close);
        if (res != OK)
        {
            close_threw = true;
            failed(o, res, what);
            return true;
        }
        close_threw = false;
        closed = true;
        count(c_files_closed);
        if (fw && p.prop == "C17" && fs.open_handles != handles - 1)
            fail("handle-leak", "the file is still open after the writer was closed");
        if (t.kind == 2 || t.kind == 0)
            frozen = t.bytes();
        return true;
    }
    if (n == "lpost")
    {
        if (!have() || !closed || skip_bad)
            return true;
        int kind = static_cast<int>(o.arg(0));
        Rng r(static_cast<uint64_t>(o.arg(1)));
        std::string recs = gen_records(r, live, 2, 0);
        fe.begin_op(o);
        CallRes res = call(
            [&]
            {
                switch (kind)
                {
                case 0:
                    fw ? fw->Close() : w->Close();
                    break;
                case 1:
                    W().WritePoints(to_points(recs, live));
                    break;
                case 2:
                {
                    std::vector<char> c;
                    {
                        Off off;
                        std::string e = encode_chunk(recs, live);
                        c.assign(e.begin(), e.end());
                    }
                    W().WritePointsCompressed(c, 2);
                    break;
                }
                default:
                    live_cfg->LasHeader()->file_source_id++;
                    fw ? fw->Close() : w->Close();
                }
            },
            &what);
        trace_num("lpost", static_cast<uint64_t>(kind), static_cast<uint64_t>(res));
        bool must = kind == 1 || kind == 2;
        if (must)
            count(c_probe_post_close_refused);
        if (must && res == OK)
            fail("closed-not-final", "points were accepted after close");
        if (!must && res != OK)
            failed(o, res, what);
        return true;
    }
    if (n == "ldestroy")
    {
        if (!have())
            return true;
        fe.begin_op(o);
        destroy();
        trace_num("ldestroy", 1);
        return true;
    }
    return false;
}
void LazRun::run_all()
{
    for (auto &o : p.ops)
    {
        if (stopped && o.name != "lclose" && o.name != "ldestroy")
            continue;
        exec(o);
    }
}

// ---------------------------------------------------------------- verification
static int pick_kind(Rng &r) { return static_cast<int>(r.below(4)); }
static int pick_buf(Rng &r)
{
    static const std::vector<int> b{0, 1, 7, 64, 256, 4096, 16384};
    return r.pick(b);
}
// where a reader says things are, against the bytes
static void check_places(const copc::las::LasHeader &h, const std::string &bytes, bool copc, const char *cls)
{
    auto u = [&](size_t at, size_t n)
    {
        uint64_t v = 0;
        std::memcpy(&v, &bytes[at], n);
        return v;
    };
    if (h.PointOffset() != u(96, 4) || h.VlrCount() != u(100, 4) || h.EvlrOffset() != u(235, 8) || h.EvlrCount() != u(243, 4))
        fail(cls, "the reader reports other places or numbers of records than the file has");
    if (copc && !h.IsCopc())
        fail(cls, "the header is not marked as COPC");
    if (h.PointRecordLength() != u(105, 2))
        fail(cls, "the reader reports another record length than the file has");
}
void verify_copc_read(const CopcRun &c, const std::string &bytes, Rng &r, bool data, bool meta)
{
    put_file("verify", bytes);
    Input in;
    std::string what;
    count(c_checks);
    if (in.open(pick_kind(r), "verify", pick_buf(r), false, false, &what) != OK)
        fail(data ? "roundtrip" : "metadata", "the written file cannot be opened: " + what);
    if (meta)
    {
        Meta got;
        uint64_t pc = 0;
        call(
            [&]
            {
                auto cc = in.reader().CopcConfig();
                got = meta_from(cc);
                pc = cc.LasHeader().PointCount();
                Off off;
                check_places(cc.LasHeader(), bytes, true, "metadata");
                uint64_t root[2];
                std::memcpy(root, &bytes[375 + 54 + 40], 16);
                if (cc.CopcInfo().root_hier_offset != root[0] || cc.CopcInfo().root_hier_size != root[1])
                    fail("metadata", "the reader reports another place of the root page than the file has");
            });
        std::string d = diff_meta(c.live, got);
        if (!d.empty())
            fail("metadata", "after reading back: " + d);
        if (pc != c.points)
            fail("metadata", "header says " + std::to_string(pc) + " points, " + std::to_string(c.points) + " were stored");
    }
    if (!data)
        return;
    std::vector<copc::Node> all;
    std::set<K> pages;
    bool first_listing = r.chance(1, 2);
    auto list = [&]
    {
        std::vector<copc::VoxelKey> pl;
        if (call([&] { all = in.reader().GetAllNodes(); pl = in.reader().GetPageList(); }, &what) != OK)
            fail("roundtrip", "listing the nodes of the written file threw: " + what);
        std::set<K> seen;
        for (auto &n : all)
        {
            K k = mk(n.key);
            if (!seen.insert(k).second)
                fail("roundtrip", "node " + k.s() + " is listed twice");
            auto it = c.nodes.find(k);
            if (it == c.nodes.end())
                fail("roundtrip", "node " + k.s() + " was never added");
            if (n.point_count != it->second.count)
                fail("roundtrip", "node " + k.s() + " has " + std::to_string(n.point_count) + " points instead of " +
                                      std::to_string(it->second.count));
            if (mk(n.page_key) != it->second.page)
                fail("roundtrip", "node " + k.s() + " is in page " + mk(n.page_key).s() + " instead of " + it->second.page.s());
        }
        if (seen.size() != c.nodes.size())
            fail("roundtrip", std::to_string(c.nodes.size() - seen.size()) + " node(s) are missing from the listing");
        for (auto &k : pl)
            if (!pages.insert(mk(k)).second)
                fail("roundtrip", "page " + mk(k).s() + " is listed twice");
        for (auto &n : c.nodes)
            if (!pages.count(n.second.page))
                fail("roundtrip", "page " + n.second.page.s() + " is missing");
    };
    if (first_listing)
        list();
    for (auto &n : c.nodes)
    {
        std::string got;
        int how = static_cast<int>(r.below(6));
        CallRes res = call(
            [&]
            {
                auto &rd = in.reader();
                auto k = vk(n.first);
                std::vector<char> v;
                std::string s;
                switch (how)
                {
                case 0:
                    v = rd.GetPointData(k);
                    break;
                case 1:
                    v = rd.GetPointData(rd.FindNode(k));
                    break;
                case 2:
                    s = from_points(rd.GetPoints(k), c.live);
                    break;
                case 3:
                    s = from_points(rd.GetPoints(rd.FindNode(k)), c.live);
                    break;
                default:
                {
                    auto comp = rd.GetPointDataCompressed(rd.FindNode(k));
                    v = copc::laz::Decompressor::DecompressBytes(comp, rd.CopcConfig().LasHeader(),
                                                                 static_cast<int>(n.second.count));
                }
                }
                Off off;
                got = v.empty() ? std::string(s.data(), s.size()) : vs(v);
            },
            &what);
        if (res != OK)
            fail("roundtrip", "reading node " + n.first.s() + " threw: " + what);
        if (got != n.second.recs)
        {
            size_t i = 0;
            while (i < got.size() && i < n.second.recs.size() && got[i] == n.second.recs[i])
                i++;
            fail("roundtrip", "points of node " + n.first.s() + " differ (" + std::to_string(n.second.recs.size()) +
                                  " bytes written, " + std::to_string(got.size()) + " read, first difference at byte " +
                                  std::to_string(i) + " of records of " + std::to_string(c.live.reclen()) + ")");
        }
    }
    if (!first_listing)
        list();
}
void verify_laz_read(const LazRun &c, const std::string &bytes, Rng &r, bool data, bool meta)
{
    put_file("verify", bytes);
    Input in;
    std::string what;
    count(c_checks);
    if (in.open(pick_kind(r), "verify", pick_buf(r), false, true, &what) != OK)
        fail("laz-roundtrip", "the written LAZ file cannot be opened: " + what);
    if (meta)
    {
        Meta got;
        uint64_t pc = 0;
        call(
            [&]
            {
                auto cc = in.laz().LazConfig();
                got = meta_from(cc);
                pc = cc.LasHeader().PointCount();
                Off off;
                check_places(cc.LasHeader(), bytes, false, "laz-metadata");
            });
        std::string d = diff_meta(c.live, got);
        if (!d.empty())
            fail("laz-metadata", "after reading back: " + d);
        if (pc != c.points)
            fail("laz-metadata", "header says " + std::to_string(pc) + " points, " + std::to_string(c.points) + " were stored");
    }
    if (!data)
        return;
    std::string want;
    for (auto &x : c.chunks)
        want += x;
    for (uint64_t i = 0, n = 1 + r.below(3); i < n; i++)
    {
        std::string got;
        bool pts = r.chance(1, 2);
        CallRes res = call(
            [&]
            {
                if (pts)
                    got = from_points(in.laz().GetPoints(), c.live);
                else
                {
                    auto v = in.laz().GetPointData();
                    Off off;
                    got = vs(v);
                }
            },
            &what);
        if (res != OK)
            fail("laz-roundtrip", "reading the points (attempt " + std::to_string(i + 1) + ") threw: " + what);
        if (got != want)
            fail("laz-roundtrip", "points differ on attempt " + std::to_string(i + 1) + " (" + std::to_string(want.size()) +
                                      " bytes written, " + std::to_string(got.size()) + " read)");
    }
}
void verify_copc_bytes(const CopcRun &c, const std::string &bytes, bool structure, bool meta, bool data)
{
    count(c_checks);
    Parsed q = parse_file(bytes, true);
    if (!q.err.empty())
        fail(structure ? "structure" : "roundtrip", q.err);
    if (meta)
    {
        std::string d = diff_meta(c.live, q.m);
        if (!d.empty())
            fail("metadata", "stored in the file: " + d);
        if (q.point_count != c.points)
            fail("metadata", "header says " + std::to_string(q.point_count) + " points, " + std::to_string(c.points) + " were stored");
    }
    if (structure)
    {
        if (q.m.ebbytes() != c.live.ebbytes() || q.m.raw_eb != c.live.raw_eb)
            fail("structure", "record length does not match the extra bytes description");
        if (q.nodes.size() != c.nodes.size())
            fail("structure", "hierarchy holds " + std::to_string(q.nodes.size()) + " nodes instead of " +
                                  std::to_string(c.nodes.size()));
        for (auto &n : c.nodes)
            if (!q.nodes.count(n.first) || q.nodes.at(n.first).page != n.second.page ||
                q.nodes.at(n.first).count != n.second.count)
                fail("structure", "hierarchy entry of node " + n.first.s() + " is wrong");
        for (auto &pg : q.pages)
            if (pg.first != ROOT && !pg.second.size)
                fail("structure", "empty page " + pg.first.s());
    }
    if (data)
        for (auto &n : c.nodes)
        {
            auto it = q.nodes.find(n.first);
            if (it == q.nodes.end())
                fail("roundtrip", "node " + n.first.s() + " is not in the file");
            std::string got;
            try
            {
                got = decode_chunk(bytes, it->second.off, it->second.off + static_cast<uint64_t>(it->second.size), c.live,
                                   static_cast<uint64_t>(n.second.count));
            }
            catch (std::exception &e)
            {
                fail("roundtrip", "chunk of node " + n.first.s() + " cannot be decoded: " + e.what());
            }
            if (got != n.second.recs)
                fail("roundtrip", "stored points of node " + n.first.s() + " differ");
        }
}
void verify_laz_bytes(const LazRun &c, const std::string &bytes, bool structure, bool meta, bool data)
{
    count(c_checks);
    Parsed q = parse_file(bytes, false);
    if (!q.err.empty())
        fail(structure ? "structure" : "laz-roundtrip", "LAZ: " + q.err);
    if (meta)
    {
        std::string d = diff_meta(c.live, q.m);
        if (!d.empty())
            fail("laz-metadata", "stored in the file: " + d);
    }
    if (structure && (q.m.ebbytes() != c.live.ebbytes() || q.m.raw_eb != c.live.raw_eb))
        fail("structure", "LAZ: record length does not match the extra bytes description");
    if (q.chunks.size() != c.chunks.size())
        fail(structure ? "structure" : "laz-roundtrip", "chunk table holds " + std::to_string(q.chunks.size()) +
                                                           " chunks instead of " + std::to_string(c.chunks.size()));
    if (data || structure)
        for (size_t i = 0; i < c.chunks.size(); i++)
        {
            uint64_t end = i + 1 < q.chunks.size() ? q.chunks[i + 1].first : q.chunk_end;
            std::string got;
            try
            {
                got = decode_chunk(bytes, q.chunks[i].first, end, c.live, q.chunks[i].second);
            }
            catch (std::exception &e)
            {
                fail("laz-roundtrip", std::string("a chunk cannot be decoded: ") + e.what());
            }
            if (got != c.chunks[i])
                fail("laz-roundtrip", "stored points of chunk " + std::to_string(i) + " differ");
        }
}

// ---------------------------------------------------------------- operation generators
static void gen_open(Plan &p, Rng &r, int flags, const char *name, bool laz)
{
    int kind = (flags & G_STREAMS) ? static_cast<int>(r.pick(std::vector<int>{0, 0, 1, 1, 3})) : pick_kind(r);
    int buf = pick_buf(r);
    int64_t pre = kind == 0 && r.chance(1, 3) ? static_cast<int64_t>(r.next() >> 2) : 0;
    int mask = r.chance(1, 4) ? static_cast<int>(1 + r.below(2)) : 0;
    bool throws = kind == 1 && mask && r.chance(1, 2);
    if (laz)
        p.op(name, {kind, buf, throws, mask, pre});
    else
    {
        int over = (flags & G_LIVE) && r.chance(1, 3) ? static_cast<int>(1 + r.below(63)) : 0;
        p.op(name, {kind, buf, throws, mask, over, static_cast<int64_t>(r.next() >> 2), pre});
    }
}
static int64_t npoints(Rng &r, int flags)
{
    if ((flags & G_HEAVY) && !(flags & G_WIDE) && r.chance(1, 60))
        return static_cast<int64_t>(2000 + r.below(3000));
    if ((flags & G_HEAVY) && r.chance(1, 6))
        return static_cast<int64_t>(300 + r.below(flags & G_WIDE ? 200 : 1500));
    return r.chance(1, 4) ? static_cast<int64_t>(1 + r.below(3)) : static_cast<int64_t>(1 + r.below(40));
}
static K page_of(Rng &r, const K &k)
{
    if (r.chance(1, 3))
        return ROOT;
    return k.up(static_cast<int>(r.below(static_cast<uint64_t>(k.d) + 1)));
}
static const std::vector<int64_t> hows{1, 2, 6, 7, 8}; // ways to build points, see points_how
void gen_copc_ops(Plan &p, Rng &r, int size, int flags)
{
    auto s = [&] { return static_cast<int64_t>(r.next() >> 2); };
    int src = (flags & G_LIVE) && r.chance(1, 3) ? static_cast<int>(1 + r.below(3)) : 0;
    int style = (flags & G_LIVE) ? static_cast<int>(1 + r.below(2)) : static_cast<int>(r.below(3));
    if ((flags & G_HEAVY) && r.chance(1, 10))
    {
        style = 3; // wide records
        flags |= G_WIDE;
    }
    else if (r.chance(1, (flags & G_LIVE) ? 25 : 80))
        style = 4; // hundreds of extra bytes
    if (r.chance(1, 4))
        style += 10; // values left at their defaults
    p.op("cfg", {s(), style, src, src && r.chance(1, 4) ? static_cast<int64_t>(r.below(8)) : 0});
    gen_open(p, r, flags, "open", false);
    std::vector<K> keys;
    std::set<K> used;
    std::vector<K> hot; // a few pages shared by several nodes
    int nops = 1 + static_cast<int>(r.below(static_cast<uint64_t>(size)));
    if (r.chance(1, 25))
        nops = 0;
    int maxd = static_cast<int>(r.pick(std::vector<int>{1, 2, 3, 5, 9, 28}));
    auto add = [&]
    {
        K k = gen_key(r, maxd);
        for (int i = 0; i < 8 && used.count(k); i++)
            k = gen_key(r, maxd);
        if (!hot.empty() && r.chance(1, 2))
        {
            K h = r.pick(hot);
            if (h.d < 28)
            {
                int dd = 1 + static_cast<int>(r.below(2));
                if (h.d + dd > 28)
                    dd = 1;
                k = K{h.d + dd, static_cast<int>((h.x << dd) + static_cast<int>(r.below(1u << dd))),
                      static_cast<int>((h.y << dd) + static_cast<int>(r.below(1u << dd))),
                      static_cast<int>((h.z << dd) + static_cast<int>(r.below(1u << dd)))};
            }
        }
        if (used.count(k))
            return;
        K pg = page_of(r, k);
        if (!hot.empty() && r.chance(1, 2))
            for (auto &h : hot)
                if (k.under(h))
                    pg = h;
        if (r.chance(1, 3))
            hot.push_back(pg);
        used.insert(k);
        keys.push_back(k);
        p.op("add", {k.d, k.x, k.y, k.z, pg.d, pg.x, pg.y, pg.z, npoints(r, flags), s(), static_cast<int64_t>(r.below(5)),
                     static_cast<int64_t>(r.below(3)), r.chance(1, 3) ? r.pick(hows) : 0});
    };
    auto move = [&]
    {
        if (keys.empty())
            return;
        K k = r.pick(keys);
        K pg = page_of(r, k);
        if (!hot.empty() && r.chance(1, 2))
            for (auto &h : hot)
                if (k.under(h) && r.chance(1, 2))
                    pg = h;
        p.op("move", {k.d, k.x, k.y, k.z, pg.d, pg.x, pg.y, pg.z});
    };
    for (int i = 0; i < nops; i++)
    {
        int w = static_cast<int>(r.below(16));
        if (w < 9 || keys.empty())
            add();
        else if (w < 12)
            for (uint64_t j = 1 + r.below(3); j--;)
                move();
        else if (w == 12 && (flags & G_LIVE))
            p.op("live", {s(), r.chance(1, 4)});
        else if (w == 13 && (flags & G_LIVE))
            p.op("user", {s()});
        else if (w == 14 && (flags & G_FIND))
        {
            K k = r.chance(1, 4) ? gen_key(r, maxd) : r.pick(keys);
            p.op("find", {k.d, k.x, k.y, k.z});
        }
        if ((flags & G_BAD) && r.chance(1, 2))
        {
            K k = gen_key(r, std::max(1, maxd - 1));
            K pg = page_of(r, k);
            p.op("bad", {static_cast<int64_t>(r.below(19)), k.d, k.x, k.y, k.z, pg.d, pg.x, pg.y, pg.z, s()});
        }
    }
    if ((flags & G_LIVE) && r.chance(1, 2))
        p.op("live", {s(), r.chance(1, 4)});
    bool close = !((flags & G_NOCLOSE) && r.chance(1, 4));
    if (close)
    {
        p.op("close", {});
        if (flags & G_POST)
            for (uint64_t i = r.below(5); i--;)
            {
                K k = gen_key(r, maxd);
                p.op("post", {static_cast<int64_t>(r.below(7)), k.d, k.x, k.y, k.z, 0, 0, 0, 0, s()});
            }
    }
    p.op("destroy", {});
}
void gen_laz_ops(Plan &p, Rng &r, int size, int flags)
{
    auto s = [&] { return static_cast<int64_t>(r.next() >> 2); };
    int src = (flags & G_LIVE) && r.chance(1, 3) ? static_cast<int>(1 + r.below(2)) : 0;
    int style = static_cast<int>((flags & G_LIVE) ? 1 + r.below(2) : r.below(3));
    if ((flags & G_HEAVY) && r.chance(1, 10))
    {
        style = 3; // wide records
        flags |= G_WIDE;
    }
    else if (r.chance(1, (flags & G_LIVE) ? 25 : 80))
        style = 4; // hundreds of extra bytes
    if (r.chance(1, 4))
        style += 10;
    p.op("lcfg", {s(), style, src, src && r.chance(1, 4) ? static_cast<int64_t>(r.below(8)) : 0});
    gen_open(p, r, flags, "lopen", true);
    int nops = static_cast<int>(r.below(static_cast<uint64_t>(size) + 1));
    for (int i = 0; i < nops; i++)
    {
        int w = static_cast<int>(r.below(10));
        if (w < 7)
        {
            int var = static_cast<int>(r.below(3));
            int64_t n = var == 0 && r.chance(1, 12) ? 0 : npoints(r, flags);
            p.op("lwrite", {n, s(), var, static_cast<int64_t>(r.below(3)), r.chance(1, 3) ? r.pick(hows) : 0});
        }
        else if (w == 7 && (flags & G_LIVE))
            p.op("llive", {s(), r.chance(1, 4)});
        else if (w == 8 && (flags & G_LIVE))
            p.op("luser", {s()});
        if ((flags & G_BAD) && r.chance(1, 2))
            p.op("lbad", {static_cast<int64_t>(r.below(7)), s()});
    }
    if ((flags & G_LIVE) && r.chance(1, 2))
        p.op("llive", {s(), r.chance(1, 4)});
    if (!((flags & G_NOCLOSE) && r.chance(1, 4)))
    {
        p.op("lclose", {});
        if (flags & G_POST)
            for (uint64_t i = r.below(4); i--;)
                p.op("lpost", {static_cast<int64_t>(r.below(4)), s()});
    }
    p.op("ldestroy", {});
}

// ---------------------------------------------------------------- fault placement
void add_faults(Plan &p, Rng &r, const std::vector<std::string> &kinds, int max)
{
    static const std::map<std::string, int> cl{
        {"open_fail", EV_OPEN},   {"read_eio", EV_READ},     {"read_eof", EV_READ},     {"read_short", EV_READ},
        {"read_eintr", EV_READ},  {"write_eio", EV_WRITE},   {"write_enospc", EV_WRITE}, {"write_short", EV_WRITE},
        {"write_eintr", EV_WRITE}, {"seek_fail", EV_SEEK},   {"close_fail", EV_CLOSE},  {"oom", EV_ALLOC},
        {"flush_fail", EV_SYNC}};
    int n = 1 + static_cast<int>(r.below(static_cast<uint64_t>(max)));
    for (int i = 0; i < n * 3 && static_cast<int>(p.faults.size()) < n; i++)
    {
        const std::string &k = r.pick(kinds);
        size_t c = static_cast<size_t>(cl.at(k));
        // choose an operation first, then an event inside it, so that short operations are hit as often as long ones
        std::vector<int> ops;
        uint64_t total = 0;
        for (auto &e : g_profile.ev)
            if (e.second[c] > 0)
            {
                ops.push_back(e.first);
                total += static_cast<uint64_t>(e.second[c]);
            }
        if (ops.empty())
            continue;
        Fault f;
        f.kind = k;
        if (r.chance(1, 2))
            f.op = r.pick(ops);
        else
        {
            uint64_t t = r.below(total);
            for (int o : ops)
            {
                uint64_t e = static_cast<uint64_t>(g_profile.ev[o][c]);
                if (t < e)
                {
                    f.op = o;
                    break;
                }
                t -= e;
            }
        }
        f.call = 1 + static_cast<int>(r.below(static_cast<uint64_t>(g_profile.ev[f.op][c])));
        f.arg = static_cast<int64_t>(r.below(5000));
        bool legal = k == "read_eintr" || k == "write_eintr" || k == "read_short" || k == "write_short";
        if (legal)
            f.len = static_cast<int64_t>(1 + r.below(4));
        else
            switch (r.below(4))
            {
            case 0:
                f.len = static_cast<int64_t>(2 + r.below(6));
                break;
            case 1: // lasts until a later operation starts, or for ever
            {
                std::vector<int> later;
                bool past = false;
                for (auto &o : p.ops)
                {
                    if (past)
                        later.push_back(o.id);
                    past = past || o.id == f.op;
                }
                f.len = later.empty() || r.chance(1, 3) ? 0 : -r.pick(later);
                break;
            }
            default:
                f.len = 1;
            }
        p.faults.push_back(f);
    }
}
} // namespace sim
