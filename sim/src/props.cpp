// The properties: what is generated, which faults are injected, and how each run is judged.
#include "work.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <pthread.h>
#include <unistd.h>
#include <semaphore.h>
#include <utility>

namespace sim
{
// ---------------------------------------------------------------- files for the reading side
struct FileM
{
    bool laz = false;
    Meta m;
    std::map<K, NodeM> nodes;
    std::set<K> pages;
    std::vector<std::string> chunks;
    std::string bytes;
};
enum
{
    FM_DYADIC = 1,
    FM_OUTSIDE = 2,
    FM_NOZERO = 4,
    FM_BIG = 8,
    FM_PLAIN = 16, // layouts every reader must accept, nothing exotic
    FM_UPPER = 32, // nodes that carry the key of a page but are listed further up
    FM_EVLR = 64,  // descriptions stored as EVLRs
    FM_DEEP = 128, // keys down to the deepest level
    FM_MANY = 256, // many small nodes or chunks
    FM_LONG = 512, // a node or chunk of more than 65535 points
    FM_EMPTY = 1024, // some nodes without points, inside the header bounds
    FM_TWIN = 2048,  // the same file with other intensities
    FM_MIRROR = 4096, // the same file with the keys mirrored
    FM_ONE = 16384,  // one point, and only one, outside its node or the header bounds
    FM_FAR = 8192    // coordinates that need more than the digits of a float
};
static void other_intensity(std::string &recs, const Meta &m)
{
    size_t len = static_cast<size_t>(m.reclen());
    for (size_t i = 0; i + len <= recs.size(); i += len)
        recs[i + 12] = static_cast<char>(recs[i + 12] ^ 0x5a);
}
static FileM build_file(const Op &o)
{
    FileM f;
    Rng r(static_cast<uint64_t>(o.arg(0)));
    int style = static_cast<int>(o.arg(1));
    int64_t fl = o.arg(2);
    int nn = static_cast<int>(o.arg(3));
    f.laz = o.name == "lfile";
    f.m = gen_meta(r, !f.laz, style);
    f.m.genc |= 0x10;
    EncOpts e;
    e.seed = static_cast<uint64_t>(o.arg(0));
    if (!(fl & FM_PLAIN))
    {
        if (fl & FM_EVLR)
            e.evlr = static_cast<int>(1 + Rng(mix(e.seed, 0xe71)).below(7));
        e.wkt_as_vlr = f.m.wkt.size() < 65536 && r.chance(1, 4);
        e.single_hier = r.chance(1, 2);
        e.odd_vlrs = r.chance(1, 2);
        e.shuffle = r.chance(2, 3);
        if (r.chance(1, 6))
        {
            f.m.eb.clear();
            f.m.raw_eb = static_cast<int>(r.below(40));
            if (!f.laz)
                f.m.extents.resize(static_cast<size_t>(f.m.nbase()));
        }
        if (r.chance(1, 6) && !f.laz)
        {
            e.extents = 0;
            f.m.ext = false;
            f.m.extents.assign(static_cast<size_t>(f.m.nbase()) + f.m.eb.size(), Ext());
        }
    }
    if (f.laz)
    {
        for (int i = 0; i < nn; i++)
        {
            int64_t n = static_cast<int64_t>(1 + r.below((fl & FM_MANY) ? 4 : 60));
            if ((fl & FM_LONG) && i == 0 && f.m.reclen() <= 64)
                n = 65530 + static_cast<int64_t>(r.below(3000));
            f.chunks.push_back(gen_records(r, f.m, n, static_cast<int>(r.below(3))));
            if (fl & FM_TWIN)
                other_intensity(f.chunks.back(), f.m);
        }
        f.bytes = encode_laz(f.m, f.chunks, e);
        return f;
    }
    int maxd = static_cast<int>(r.pick(std::vector<int>{1, 2, 3, 4, 6}));
    if (fl & FM_DEEP)
        maxd = fl & FM_DYADIC ? 9 : static_cast<int>(r.pick(std::vector<int>{10, 20, 30}));
    else if (fl & FM_MANY)
        maxd = 5;
    double span = 0;
    if (fl & FM_DYADIC)
    {
        double mxs = 0;
        static const std::vector<double> sc{1.0, 0.25, 0.0078125, 0.5};
        for (int i = 0; i < 3; i++)
        {
            f.m.scale[i] = r.pick(sc);
            mxs = std::max(mxs, f.m.scale[i]);
            f.m.offset[i] = static_cast<double>(r.range(-4000, 4000)) * 0.25;
            if (fl & FM_FAR)
                f.m.offset[i] += static_cast<double>(r.range(-1 << 28, 1 << 28)) * 0.25;
        }
        span = mxs * std::ldexp(1.0, static_cast<int>(9 + r.below(4)));
        int big = static_cast<int>(r.below(3));
        for (int i = 0; i < 3; i++)
        {
            f.m.mn[i] = f.m.offset[i] + static_cast<double>(r.range(-64, 64)) * mxs;
            double d = i == big ? 1.0 : r.pick(std::vector<double>{1.0, 1.0, 0.5, 0.75, 0.375});
            if ((fl & FM_ONE) && i != big && r.chance(2, 3))
                d = static_cast<double>(1 + r.below(511)) / 512; // faces that cut nodes of every level
            f.m.mx[i] = f.m.mn[i] + span * d;
        }
        f.m.info[3] = span / 2;
        f.m.info[4] = r.chance(1, 2) ? span / 128 : span / static_cast<double>(1 + r.below(500));
    }
    else if (r.chance(1, 2))
        f.m.info[4] = std::fabs(f.m.info[4]) + 1;
    std::vector<K> keys;
    std::set<K> empties;
    f.pages.insert(ROOT);
    for (int i = 0; i < nn; i++)
    {
        K k = gen_key(r, maxd);
        if ((fl & FM_DEEP) && !keys.empty() && r.chance(2, 3))
        {
            // below one that is there already
            k = r.pick(keys);
            for (uint64_t t = 1 + r.below(6); t-- && k.d < maxd;)
                k = K{k.d + 1, 2 * k.x + static_cast<int32_t>(r.below(2)), 2 * k.y + static_cast<int32_t>(r.below(2)),
                      2 * k.z + static_cast<int32_t>(r.below(2))};
        }
        if ((fl & FM_DYADIC) && r.chance(3, 4))
            // keep to the part of the octree that the header bounds cover
            for (int t = 0; t < 6; t++)
            {
                bool in = true;
                int32_t c[3] = {k.x, k.y, k.z};
                for (int j = 0; j < 3; j++)
                    in = in && f.m.mn[j] + std::ldexp(span, -k.d) * c[j] < f.m.mx[j];
                if (in)
                    break;
                k = gen_key(r, maxd);
            }
        if (f.nodes.count(k))
            continue;
        K pg = ROOT;
        if (r.chance(2, 3))
            pg = k.up(static_cast<int>(r.below(static_cast<uint64_t>(k.d) + 1)));
        if (r.chance(1, 2))
            for (auto &q : f.pages)
                if (k.under(q) && r.chance(1, 2))
                    pg = q;
        f.pages.insert(pg);
        // sometimes intermediate pages without nodes
        if (!(fl & FM_PLAIN) && r.chance(1, 6) && pg.d > 1)
            f.pages.insert(pg.up(static_cast<int>(1 + r.below(static_cast<uint64_t>(pg.d) - 1))));
        NodeM n;
        n.page = pg;
        n.count = static_cast<int64_t>(1 + r.below((fl & FM_BIG) ? 900 : (fl & FM_MANY) ? 4 : 50));
        if ((fl & FM_LONG) && i == 0 && f.m.reclen() <= 64)
            n.count = 65530 + static_cast<int64_t>(r.below(3000));
        if (!(fl & FM_NOZERO) && r.chance(1, 10))
            n.count = 0;
        if (fl & FM_DYADIC)
        {
            int64_t lo[3], hi[3];
            int32_t c[3] = {k.x, k.y, k.z};
            bool ok = true;
            for (int j = 0; j < 3; j++)
            {
                double st = std::ldexp(span, -k.d), bl = f.m.mn[j] + st * c[j], bh = std::min(bl + st, f.m.mx[j]);
                lo[j] = static_cast<int64_t>(std::ceil((bl - f.m.offset[j]) / f.m.scale[j]));
                hi[j] = static_cast<int64_t>(std::floor((bh - f.m.offset[j]) / f.m.scale[j]));
                ok = ok && lo[j] <= hi[j];
            }
            if (!ok && !(fl & FM_OUTSIDE))
                continue;
            if (!ok)
                for (int j = 0; j < 3; j++)
                {
                    lo[j] = 0;
                    hi[j] = 100;
                }
            if ((fl & FM_EMPTY) && ok && lo[0] < hi[0] && lo[1] < hi[1] && lo[2] < hi[2] && r.chance(1, 8))
            {
                n.count = 0;
                empties.insert(k);
            }
            // cluster some points on the faces
            n.recs = gen_records(r, f.m, n.count, static_cast<int>(r.below(2)), lo, hi);
            size_t len = static_cast<size_t>(f.m.reclen());
            for (int64_t q = 0; q < n.count; q++)
                for (int j = 0; j < 3; j++)
                    if (r.chance(1, 6))
                    {
                        int32_t v = static_cast<int32_t>(r.chance(1, 2) ? lo[j] : hi[j]);
                        std::memcpy(&n.recs[static_cast<size_t>(q) * len + static_cast<size_t>(j) * 4], &v, 4);
                    }
            if ((fl & FM_OUTSIDE) && n.count && r.chance(1, 3))
            {
                size_t q = r.below(static_cast<uint64_t>(n.count)), j = r.below(3);
                int32_t v = static_cast<int32_t>(r.chance(1, 2) ? lo[j] - 1 - static_cast<int64_t>(r.below(3))
                                                                : hi[j] + 1 + static_cast<int64_t>(r.below(3)));
                std::memcpy(&n.recs[q * len + j * 4], &v, 4);
            }
        }
        else
            n.recs = gen_records(r, f.m, n.count, static_cast<int>(r.below(3)));
        f.nodes[k] = n;
        keys.push_back(k);
    }
    if ((fl & FM_ONE) && (fl & FM_DYADIC) && !keys.empty())
    {
        // {node, axis, below or above}; those where the header bounds cut the node come first
        std::vector<std::array<int, 3>> cut, any;
        for (size_t i = 0; i < keys.size(); i++)
        {
            if (f.nodes[keys[i]].count == 0)
                continue;
            int32_t c[3] = {keys[i].x, keys[i].y, keys[i].z};
            for (int j = 0; j < 3; j++)
            {
                double st = std::ldexp(span, -keys[i].d), bl = f.m.mn[j] + st * c[j];
                if (bl + st > f.m.mx[j])
                    cut.push_back({static_cast<int>(i), j, 1});
                any.push_back({static_cast<int>(i), j, 0});
                any.push_back({static_cast<int>(i), j, 1});
            }
        }
        auto &from = !cut.empty() && r.chance(1, 2) ? cut : any;
        if (!from.empty())
        {
            auto w = r.pick(from);
            size_t j = static_cast<size_t>(w[1]), len = static_cast<size_t>(f.m.reclen());
            K k = keys[static_cast<size_t>(w[0])];
            NodeM &n = f.nodes[k];
            int32_t c[3] = {k.x, k.y, k.z};
            double st = std::ldexp(span, -k.d), bl = f.m.mn[j] + st * c[j], bh = std::min(bl + st, f.m.mx[j]);
            int64_t v = w[2] ? static_cast<int64_t>(std::floor((bh - f.m.offset[j]) / f.m.scale[j])) + 1
                             : static_cast<int64_t>(std::ceil((bl - f.m.offset[j]) / f.m.scale[j])) - 1;
            v += (w[2] ? 1 : -1) * static_cast<int64_t>(r.chance(1, 2) ? 0 : r.below(4));
            int32_t x = static_cast<int32_t>(v);
            std::memcpy(&n.recs[r.below(static_cast<uint64_t>(n.count)) * len + j * 4], &x, 4);
        }
    }
    if (fl & FM_UPPER)
    {
        std::vector<K> low;
        for (auto &q : f.pages)
            if (q.d > 0)
                low.push_back(q);
        for (uint64_t i = 1 + r.below(4); i-- && !low.empty();)
        {
            K q = r.pick(low);
            if (q.d > 1 && r.chance(2, 3))
                f.pages.insert(q.up(static_cast<int>(1 + r.below(static_cast<uint64_t>(q.d) - 1))));
            std::vector<K> above;
            for (auto &a : f.pages)
                if (q.under(a) && !(a == q))
                    above.push_back(a);
            NodeM &n = f.nodes[q];
            n.page = r.chance(1, 2) ? ROOT : r.pick(above);
            if (n.recs.empty() && !(fl & FM_DYADIC))
            {
                n.count = static_cast<int64_t>(1 + r.below(20));
                n.recs = gen_records(r, f.m, n.count, 0);
            }
        }
        for (auto i = f.nodes.begin(); i != f.nodes.end();)
            i = i->second.recs.empty() && (fl & FM_NOZERO) && !empties.count(i->first) ? f.nodes.erase(i) : std::next(i);
    }
    if (fl & FM_MIRROR)
    {
        auto mirror = [](K k)
        {
            if (k.d > 0 && k.d < 31)
                k.x = (1 << k.d) - 1 - k.x;
            return k;
        };
        std::map<K, NodeM> nodes;
        for (auto &n : f.nodes)
        {
            NodeM &m = nodes[mirror(n.first)] = n.second;
            m.page = mirror(m.page);
        }
        f.nodes.swap(nodes);
        std::set<K> pages;
        for (auto &q : f.pages)
            pages.insert(mirror(q));
        f.pages.swap(pages);
    }
    if (fl & FM_TWIN)
        for (auto &n : f.nodes)
            other_intensity(n.second.recs, f.m);
    f.bytes = encode_copc(f.m, f.nodes, f.pages, e);
    if (f.pages.size() > 2)
        count(c_probe_deep_page);
    return f;
}

static void heal()
{
    for (auto &a : fe.active)
        a = 2;
}

// A reader and what it should say.
struct ReadRun
{
    const Plan &p;
    std::string name;
    bool faults_ok = false, shut = false;
    FileM f;
    ReadModel m;
    Input in;
    bool have_file = false;
    std::string want_laz;
    ReadRun(const Plan &pl, std::string n) : p(pl), name(std::move(n)) {}
    ~ReadRun() { close(); }
    void close() { in.close(); }
    bool excused() const { return faults_ok && fe.illegal_in_op > 0; }
    // under a fault that made the whole reader unusable (open failed) nothing more can be asked
    bool exec(const Op &o)
    {
        std::string what;
        if (o.name == "file" || o.name == "lfile")
        {
            if (in.is_open())
                return true;
            f = build_file(o);
            put_file(name, f.bytes);
            want_laz.clear();
            if (!f.laz)
                m = read_model(f.bytes, f.m, &f.nodes);
            else
            {
                Parsed q = parse_file(f.bytes, false);
                if (!q.err.empty())
                    fail("harness", "reference parser refuses the LAZ input: " + q.err);
                for (auto &c : f.chunks)
                    want_laz += c;
            }
            have_file = true;
            return true;
        }
        if (o.name == "ropen")
        {
            if (!have_file || in.is_open())
                return true;
            fe.begin_op(o);
            CallRes r = in.open(static_cast<int>(o.arg(0)), name, static_cast<int>(o.arg(1)), o.arg(2) != 0, f.laz, &what);
            trace_num("ropen", static_cast<uint64_t>(r));
            if (r == OK)
                count(c_opens_ok);
            else
            {
                count(c_opens_refused);
                if (!excused())
                    fail("open-failed", "a well-formed file cannot be opened: " + what);
                in.close();
            }
            return true;
        }
        if (o.name == "rclose")
        {
            fe.begin_op(o);
            if (in.fr || in.lfr)
            {
                int handles = fs.open_handles;
                call([&] { in.fr ? in.fr->Close() : in.lfr->Close(); });
                if (p.prop == "C17" && fs.open_handles != handles - 1)
                    fail("handle-leak", "the file is still open after the reader was closed");
            }
            in.close();
            shut = false;
            return true;
        }
        if (o.name == "shut")
        {
            // the file is closed, the reader is kept and asked on
            if (!in.is_open() || (in.kind != 0 && in.kind != 3))
                return true;
            fe.begin_op(o);
            CallRes r = call(
                [&]
                {
                    if (in.fr)
                        in.fr->Close();
                    else if (in.lfr)
                        in.lfr->Close();
                    else
                        static_cast<std::fstream &>(*in.is).close();
                },
                &what);
            if (r != OK && !excused())
                fail("close-failed", "closing a file that was read threw: " + what);
            shut = true;
            count(c_probe_shut);
            return true;
        }
        if (o.name == "stray")
        {
            // somebody else reads from the caller's stream in between
            if (!in.is_open() || in.kind == 0 || shut)
                return true;
            fe.begin_op(o);
            Off off;
            try
            {
                in.is->clear();
                if (o.arg(0) == 0)
                    in.is->seekg(static_cast<std::streamoff>(static_cast<uint64_t>(o.arg(1)) % (f.bytes.size() + 1)));
                else if (o.arg(0) == 1)
                    in.is->ignore(static_cast<std::streamsize>(static_cast<uint64_t>(o.arg(1)) % (2 * f.bytes.size() + 1)));
                else if (o.arg(0) == 2)
                    in.is->setstate(std::ios::eofbit | std::ios::failbit);
            }
            catch (std::exception &)
            {
            }
            if (o.arg(0) == 3)
                call(
                    [&]
                    {
                        if (f.laz)
                            copc::laz::LazReader(in.is.get()).GetPointData();
                        else
                            copc::Reader(in.is.get()).GetAllNodes();
                    });
            count(c_probe_stray);
            return true;
        }
        if (o.name == "lq")
        {
            if (!in.is_open() || !f.laz)
                return true;
            fe.begin_op(o);
            judge_laz(o, true);
            return true;
        }
        if (o.name.compare(0, 2, "q_") == 0)
        {
            if (!in.is_open() || f.laz)
                return true;
            if (unspecified(m, o))
                return true;
            fe.begin_op(o);
            Answer got = ask(in.reader(), o, f.m), want = expect(m, o);
            judge(o, got, want, "");
            return true;
        }
        return false;
    }
    static std::string shorten(const std::string &s)
    {
        bool txt = true;
        for (char c : s)
            txt = txt && c >= 32 && c < 127;
        if (txt)
            return s.size() > 160 ? s.substr(0, 160) + "... (" + std::to_string(s.size()) + ")" : s;
        Hash h;
        h.str(s);
        return std::to_string(s.size()) + " bytes " + hexs(s, 8) + " hash " + std::to_string(h.h % 100000);
    }
    void judge(const Op &o, const Answer &got, const Answer &want, const char *when)
    {
        count(c_checks);
        if (got == want || (got.res != OK && want.res == THREW))
        {
            if (fe.illegal_in_op)
                count(c_probe_ok_despite_fault);
            return;
        }
        if (got.res != OK)
        {
            if (shut || (excused() && !*when))
                return;
            fail("query-failed", std::string(when) + o.name + " (operation " + std::to_string(o.id) + ") threw without a fault: " + got.what);
        }
        if (want.res == THREW)
            fail("wrong-answer", std::string(when) + o.name + " returned for a node that does not exist");
        fail("wrong-answer", std::string(when) + o.name + " (operation " + std::to_string(o.id) + ") returned [" + shorten(got.text) +
                                 "] instead of [" + shorten(want.text) + "]");
    }
    void judge_laz(const Op &o, bool first)
    {
        Answer got, want;
        want.text = want_laz;
        if (o.arg(0) == 2)
            want.text = "cfg:" + std::to_string(want_laz.size() / static_cast<size_t>(f.m.reclen()));
        got.res = call(
            [&]
            {
                if (o.arg(0) == 0)
                {
                    auto v = in.laz().GetPointData();
                    Off off;
                    got.text = vs(v);
                }
                else if (o.arg(0) == 1)
                {
                    std::string s = from_points(in.laz().GetPoints(), f.m);
                    Off off;
                    got.text = std::string(s.data(), s.size());
                }
                else
                {
                    auto c = in.laz().LazConfig();
                    Meta g = meta_from(c);
                    Off off;
                    got.text = "cfg:" + diff_meta(f.m, g) + std::to_string(c.LasHeader().PointCount());
                }
            },
            &got.what);
        Hash h;
        h.str(got.text);
        trace_num("lq", static_cast<uint64_t>(o.id), static_cast<uint64_t>(got.res), h.h);
        count(c_queries);
        judge(o, got, want, first ? "" : "after the faults stopped, ");
    }
    // once the storage works, everything must be answered correctly by the same reader
    void recheck()
    {
        heal();
        fe.begin(0);
        std::string what;
        if (!have_file)
            return;
        if (!in.is_open())
        {
            CallRes r = in.open(1, name, 128, false, f.laz, &what);
            if (r != OK)
                fail("open-failed", "a well-formed file cannot be opened after the faults stopped: " + what);
        }
        for (auto &o : p.ops)
        {
            if (o.name == "lq" && f.laz)
                judge_laz(o, false);
            else if (o.name.compare(0, 2, "q_") == 0 && !f.laz)
            {
                if (unspecified(m, o))
                    continue;
                Answer got = ask(in.reader(), o, f.m), want = expect(m, o);
                judge(o, got, want, "after the faults stopped, ");
                if (got.res == OK)
                    count(c_retries_ok);
            }
        }
        if (!f.laz)
        {
            Op o;
            o.name = "q_all";
            judge(o, ask(in.reader(), o, f.m), expect(m, o), "after the faults stopped, ");
            o.name = "q_pages";
            judge(o, ask(in.reader(), o, f.m), expect(m, o), "after the faults stopped, ");
        }
    }
};
static int64_t seed_of(Rng &r) { return static_cast<int64_t>(r.next() >> 2); }
static void gen_ropen(Plan &p, Rng &r)
{
    static const std::vector<int> b{0, 1, 7, 64, 256, 4096, 16384};
    p.op("ropen", {static_cast<int64_t>(r.pick(std::vector<int>{0, 0, 1, 1, 1, 3})), r.pick(b), 0});
}
static void knobs(Plan &p, Rng &r, bool chop)
{
    p.knob["desc"] = r.chance(1, 2);
    p.knob["reuse"] = r.chance(1, 2);
    if (chop && r.chance(3, 4))
        p.knob["chop"] = static_cast<int64_t>(1 + (r.next() >> 16));
}

// ---------------------------------------------------------------- C01
static void legal_faults(Plan &p, Rng &r)
{
    if (r.chance(2, 3))
        add_faults(p, r, {"write_short", "write_eintr", "read_short", "read_eintr"}, 4);
}
// failures that leave part of the bytes behind
static void torn(Plan &p, Rng &r)
{
    if (!r.chance(1, 2))
        return;
    for (size_t i = 0; i < p.faults.size(); i++)
    {
        Fault f = p.faults[i];
        bool rd = f.kind == "read_eio" || f.kind == "read_eof", wr = f.kind == "write_eio" || f.kind == "write_enospc";
        if (!rd && !wr)
            continue;
        f.kind = rd ? "read_short" : "write_short";
        f.len = 1;
        p.faults.insert(p.faults.begin() + static_cast<std::ptrdiff_t>(i++), f);
    }
}
static void gen_c01_once(Plan &p, Rng &r)
{
    knobs(p, r, true);
    gen_copc_ops(p, r, r.chance(1, 5) ? 40 : 12, G_FIND | G_NOCLOSE | G_HEAVY);
    if (r.chance(1, 100))
    {
        p.op("many", {seed_of(r), static_cast<int64_t>(50 + r.below(900)), static_cast<int64_t>(r.below(8))});
        std::rotate(p.ops.begin() + 2 + static_cast<std::ptrdiff_t>(r.below(p.ops.size() - 2)), p.ops.end() - 1, p.ops.end());
    }
}
static void finish_good(Target &t)
{
    if (!t.finish())
        fail("stream-failed", "the caller's stream is left in a failed state although nothing failed");
}
// A file of more than 4 GB, kept as the pages that are not all zeros.
class SparseBuf : public std::streambuf
{
    static const uint64_t PAGE = 1 << 16;
    std::map<uint64_t, std::string> pages_;
    uint64_t pos_ = 0, size_ = 0;
    char one_ = 0;

  public:
    uint64_t size() const { return size_; }
    std::string peek(uint64_t at, size_t n)
    {
        std::string o(n, '\0');
        uint64_t was = pos_;
        pos_ = at;
        o.resize(static_cast<size_t>(xsgetn(o.data(), static_cast<std::streamsize>(n))));
        pos_ = was;
        return o;
    }

  protected:
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        Off off;
        static const std::string zero(PAGE, '\0');
        setg(nullptr, nullptr, nullptr);
        for (std::streamsize done = 0; done < n;)
        {
            uint64_t pg = pos_ / PAGE, at = pos_ % PAGE;
            uint64_t k = std::min<uint64_t>(PAGE - at, static_cast<uint64_t>(n - done));
            auto it = pages_.find(pg);
            if (it == pages_.end() && std::memcmp(s + done, zero.data(), k) != 0)
                it = pages_.emplace(pg, zero).first;
            if (it != pages_.end())
                std::memcpy(&it->second[at], s + done, k);
            pos_ += k;
            done += static_cast<std::streamsize>(k);
        }
        size_ = std::max(size_, pos_);
        return n;
    }
    int_type overflow(int_type c) override
    {
        char ch = traits_type::to_char_type(c);
        xsputn(&ch, 1);
        return c;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        Off off;
        setg(nullptr, nullptr, nullptr);
        std::streamsize done = 0;
        while (done < n && pos_ < size_)
        {
            uint64_t pg = pos_ / PAGE, at = pos_ % PAGE;
            uint64_t k = std::min({PAGE - at, static_cast<uint64_t>(n - done), size_ - pos_});
            auto it = pages_.find(pg);
            if (it == pages_.end())
                std::memset(s + done, 0, k);
            else
                std::memcpy(s + done, &it->second[at], k);
            pos_ += k;
            done += static_cast<std::streamsize>(k);
        }
        return done;
    }
    int_type underflow() override
    {
        if (pos_ >= size_)
            return traits_type::eof();
        Off off;
        auto it = pages_.find(pos_ / PAGE);
        one_ = it == pages_.end() ? '\0' : it->second[pos_ % PAGE];
        return traits_type::to_int_type(one_);
    }
    int_type uflow() override
    {
        int_type c = underflow();
        if (c != traits_type::eof())
            pos_++;
        return c;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        int64_t base = dir == std::ios_base::beg ? 0 : static_cast<int64_t>(dir == std::ios_base::cur ? pos_ : size_);
        if (base + off < 0)
            return pos_type(off_type(-1));
        pos_ = static_cast<uint64_t>(base + off);
        return pos_type(static_cast<off_type>(pos_));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
static void run_huge(const Plan &p, const Op &o)
{
    Rng r(static_cast<uint64_t>(o.arg(0)));
    bool laz = o.arg(1) != 0;
    Meta m = gen_meta(r, !laz, 1);
    m.wkt = gen_text(r, 40);
    const size_t BIG = 1450000000;
    heap_setup(p.k("desc"), ~0ull, ~0ull);
    SparseBuf sb;
    std::vector<char> big(BIG);
    std::vector<std::pair<size_t, char>> marks;
    for (int i = 0; i < 40; i++)
    {
        size_t at = i == 0 ? 0 : i == 1 ? BIG - 1 : r.below(BIG);
        big[at] = static_cast<char>(1 + r.below(255));
        marks.push_back({at, big[at]});
    }
    std::string small = gen_records(r, m, 9, 1), what;
    std::vector<char> raw(small.begin(), small.end());
    std::vector<uint64_t> ends;
    uint64_t pts = 0;
    const int N = 3;
    K page{1, 1, 0, 1}, leaf{2, 2, 1, 3};
    CallRes res = call(
        [&]
        {
            std::ostream os(&sb);
            if (laz)
            {
                copc::laz::LazWriter w(os, *make_laz_cfg(m));
                for (int i = 0; i < N; i++)
                    w.WritePointsCompressed(big, 100 + i);
                w.WritePoints(to_points(small, m));
                w.Close();
            }
            else
            {
                copc::Writer w(os, *make_copc_cfg(m));
                for (int i = 0; i < N; i++)
                {
                    auto n = w.AddNodeCompressed(copc::VoxelKey(1, i & 1, i >> 1, 0), big, 100 + i);
                    ends.push_back(n.offset + BIG);
                }
                w.AddNode(vk(leaf), raw, vk(page));
                w.Close();
            }
            if (!os.good())
                fail("unexpected-error", "the stream is in a failed state");
        },
        &what);
    if (res != OK)
        fail("unexpected-error", "writing a file of more than 4 GB threw: " + what);
    for (int i = 0; i < N; i++)
        pts += static_cast<uint64_t>(100 + i);
    pts += 9;
    { std::vector<char>().swap(big); }
    trace_num("huge", sb.size());
    count(c_probe_over_4gb);
    sh->nontrivial = 1;
    const char *cls = laz ? "laz-roundtrip" : "roundtrip";
    std::istream is(&sb);
    auto check_pos = [&](uint64_t point_offset)
    {
        std::string b = sb.peek(point_offset, 8);
        uint64_t ct;
        std::memcpy(&ct, b.data(), 8);
        std::string t = sb.peek(ct, 8);
        uint32_t v[2];
        std::memcpy(v, t.data(), 8);
        if (ct <= N * BIG || v[0] != 0 || v[1] != N + 1)
            fail(cls, "the chunk table of a file of more than 4 GB is not where it should be");
    };
    if (laz)
    {
        res = call(
            [&]
            {
                copc::laz::LazReader rd(&is);
                auto c = rd.LazConfig();
                check_pos(c.LasHeader().PointOffset());
                if (c.Wkt() != m.wkt || c.LasHeader().PointCount() != pts)
                    fail(cls, "a file of more than 4 GB reads back with other metadata");
            },
            &what);
    }
    else
    {
        res = call(
            [&]
            {
                copc::Reader rd(&is);
                auto c = rd.CopcConfig();
                check_pos(c.LasHeader().PointOffset());
                if (c.Wkt() != m.wkt || c.LasHeader().PointCount() != pts)
                    fail(cls, "a file of more than 4 GB reads back with other metadata");
                if (rd.GetAllNodes().size() != N + 1 || rd.GetPageList().size() != 2)
                    fail(cls, "a file of more than 4 GB reads back with other nodes or pages");
                auto n = rd.FindNode(vk(leaf));
                auto d = rd.GetPointData(n);
                if (n.point_count != 9 || mk(n.page_key) != page || vs(d) != small)
                    fail(cls, "a node behind 4 GB reads back different");
                auto l = rd.FindNode(copc::VoxelKey(1, 0, 1, 0));
                if (l.point_count != 102 || l.byte_size != static_cast<int32_t>(BIG) || l.offset + BIG != ends[2])
                    fail(cls, "the node before 4 GB reads back different");
                auto b = rd.GetPointDataCompressed(l);
                if (b.size() != BIG)
                    fail(cls, "a big node has another size");
                for (auto &k : marks)
                {
                    if (b[k.first] != k.second)
                        fail(cls, "a big node holds other data");
                }
                for (auto &k : marks)
                    b[k.first] = 0;
                if (std::memcmp(b.data(), b.data() + 1, BIG - 1) != 0)
                    fail(cls, "a big node holds other data");
            },
            &what);
    }
    if (res != OK)
        fail(cls, "reading a file of more than 4 GB threw: " + what);
}
static void run_c01_once(const Plan &p)
{
    if (p.ops.size() == 1 && p.ops[0].name == "huge")
    {
        run_huge(p, p.ops[0]);
        return;
    }
    CopcRun c(p, "out");
    c.run_all();
    if (!c.opened)
        return;
    c.destroy();
    finish_good(c.t);
    std::string b = c.t.bytes();
    trace_num("file", b.size());
    Rng r(mix(p.seed, p.run) ^ 0xc01);
    verify_copc_read(c, b, r, true, false);
    verify_copc_bytes(c, b, false, false, true);
    sh->nontrivial = c.nodes.size() >= 1;
}

// ---------------------------------------------------------------- C02
static void gen_c02_once(Plan &p, Rng &r)
{
    knobs(p, r, true);
    gen_copc_ops(p, r, 6, G_LIVE | G_NOCLOSE);
}
static void run_c02_once(const Plan &p)
{
    CopcRun c(p, "out");
    c.run_all();
    if (!c.opened)
        return;
    c.destroy();
    finish_good(c.t);
    std::string b = c.t.bytes();
    Rng r(mix(p.seed, p.run) ^ 0xc02);
    verify_copc_bytes(c, b, false, true, false);
    verify_copc_read(c, b, r, false, true);
    // a second generation made from the reader's configuration
    fe.begin(0);
    put_file("gen1", b);
    Input in;
    std::string what;
    if (in.open(1, "gen1", 100, false, false, &what) != OK)
        fail("metadata", "the written file cannot be opened: " + what);
    Target t;
    t.open_out(r.chance(1, 2) ? 0 : 2, "gen2", 10, false, 0);
    uint64_t pts = 0;
    CallRes res = call(
        [&]
        {
            copc::CopcConfigWriter cw(in.reader().CopcConfig());
            std::unique_ptr<copc::Writer> w;
            std::unique_ptr<copc::FileWriter> fw;
            if (t.kind == 0)
                fw = std::make_unique<copc::FileWriter>(t.name, cw);
            else
                w = std::make_unique<copc::Writer>(t.out(), cw);
            if (r.chance(1, 2))
            {
                std::string recs = gen_records(r, c.live, 3, 0);
                std::vector<char> raw(recs.begin(), recs.end());
                (fw ? *fw : *w).AddNode(copc::VoxelKey(1, 0, 1, 0), raw);
                pts = 3;
            }
            fw ? fw->Close() : w->Close();
        },
        &what);
    if (res != OK)
        fail("unexpected-error", "writing a file with the configuration of a reader threw: " + what);
    Parsed q = parse_file(t.bytes(), true);
    if (!q.err.empty())
        fail("metadata", "second-generation file: " + q.err);
    std::string d = diff_meta(c.live, q.m);
    if (!d.empty())
        fail("metadata", "second-generation file: " + d);
    if (q.point_count != pts)
        fail("metadata", "second-generation file: point count " + std::to_string(q.point_count));
    put_file("gen2r", t.bytes());
    Input in2;
    if (in2.open(1, "gen2r", 100, false, false, &what) != OK)
        fail("metadata", "the second-generation file cannot be opened: " + what);
    Meta g;
    call([&] { g = meta_from(in2.reader().CopcConfig()); });
    d = diff_meta(c.live, g);
    if (!d.empty())
        fail("metadata", "second-generation file read back: " + d);
    sh->nontrivial = 1;
}

// ---------------------------------------------------------------- C03
static void gen_c03_once(Plan &p, Rng &r)
{
    knobs(p, r, true);
    if (r.chance(1, 30))
    {
        p.op("xcfg", {seed_of(r), static_cast<int64_t>(r.below(5)), static_cast<int64_t>(r.below(3))});
        return;
    }
    if (r.chance(1, 4))
        gen_laz_ops(p, r, 12, G_LIVE | G_NOCLOSE | G_HEAVY);
    else
        gen_copc_ops(p, r, r.chance(1, 4) ? 40 : 14, G_LIVE | G_NOCLOSE | G_HEAVY | G_FIND);
}
static bool is_laz(const Plan &p)
{
    for (auto &o : p.ops)
        if (o.name == "lcfg" || o.name == "lopen")
            return true;
    return false;
}
// A layout at or beyond what the format can express: either it is refused or the file is right
static void run_xcfg(const Op &o)
{
    Rng r(static_cast<uint64_t>(o.arg(0)));
    int kind = static_cast<int>(o.arg(1)), route = static_cast<int>(o.arg(2));
    Meta m;
    m.copc = route != 2;
    m.pf = 6 + static_cast<int>(r.below(3));
    size_t n = 1 + r.below(10);
    if (kind < 2)
        n = r.pick(std::vector<size_t>{340, 341, 342, 343, 400, 682, 683, 1000});
    if (kind == 2)
        n = 250 + r.below(92);
    for (size_t i = 0; i < n; i++)
    {
        Eb e;
        e.data_type = static_cast<uint8_t>(1 + r.below(kind == 0 ? 2 : 10));
        e.name = "f" + std::to_string(i);
        if (kind == 2 || (kind == 1 && r.chance(1, 8)))
        {
            e.data_type = 0;
            e.options = static_cast<uint8_t>(kind == 2 ? 255 - r.below(20) : 1 + r.below(4));
        }
        m.eb.push_back(e);
    }
    if (kind == 3)
        m.eb[r.below(n)].data_type = static_cast<uint8_t>(31 + r.below(225));
    if (kind == 4)
        m.eb[r.below(n)].data_type = static_cast<uint8_t>(r.below(256));
    std::string bytes, recs, got;
    std::string what;
    CallRes res = call(
        [&]
        {
            std::stringstream ss;
            copc::las::EbVlr eb = to_ebvlr(m.eb);
            auto pf = static_cast<int8_t>(m.pf);
            auto sc = copc::Vector3::DefaultScale(), of = copc::Vector3::DefaultOffset();
            auto data = [&](int len)
            {
                std::vector<char> d(static_cast<size_t>(len) * 2);
                for (auto &c : d)
                    c = static_cast<char>(r.next());
                recs.assign(d.begin(), d.end());
                return d;
            };
            if (route == 2)
            {
                copc::las::LazConfigWriter cfg(pf, sc, of, "", eb);
                copc::laz::LazWriter w(ss, cfg);
                auto d = data(cfg.LasHeader()->PointRecordLength());
                w.WritePoints(copc::las::Points::Unpack(d, *cfg.LasHeader()));
                w.Close();
            }
            else
            {
                copc::CopcConfigWriter cfg(pf, sc, of, "", route ? copc::las::EbVlr() : eb, false);
                auto w = route ? std::make_unique<copc::Writer>(ss, cfg, std::optional<int8_t>(), std::optional<copc::Vector3>(),
                                                                std::optional<copc::Vector3>(), std::optional<std::string>(), eb)
                               : std::make_unique<copc::Writer>(ss, cfg);
                w->AddNode(copc::VoxelKey::RootKey(), data(w->CopcConfig()->LasHeader()->PointRecordLength()));
                w->Close();
            }
            bytes = ss.str();
        },
        &what);
    trace_num("xcfg", static_cast<uint64_t>(kind), static_cast<uint64_t>(res));
    sh->nontrivial = 1;
    if (res != OK)
    {
        count(c_ops_refused);
        return;
    }
    Parsed q = parse_file(bytes, m.copc);
    std::string about = " (" + std::to_string(n) + " extra byte items, " + std::to_string(m.reclen()) + " bytes per record)";
    if (!q.err.empty())
        fail("structure", q.err + about);
    if (q.m.eb.size() != n || q.reclen != m.reclen())
        fail("structure", std::to_string(q.m.eb.size()) + " items and records of " + std::to_string(q.reclen) + " bytes stored" + about);
    res = call(
        [&]
        {
            std::stringstream ss(bytes);
            std::vector<char> v;
            if (route == 2)
                v = copc::laz::LazReader(&ss).GetPointData();
            else
                v = copc::Reader(&ss).GetPointData(copc::VoxelKey::RootKey());
            got.assign(v.begin(), v.end());
        },
        &what);
    if (res != OK || (route != 2 && got != recs))
        fail("structure", "the file does not read back: " + what + about);
}
static void run_c03_once(const Plan &p)
{
    for (auto &o : p.ops)
        if (o.name == "xcfg")
        {
            run_xcfg(o);
            return;
        }
    if (is_laz(p))
    {
        LazRun c(p, "out");
        c.run_all();
        if (!c.opened)
            return;
        c.destroy();
        finish_good(c.t);
        verify_laz_bytes(c, c.t.bytes(), true, false, false);
        sh->nontrivial = !c.chunks.empty();
        return;
    }
    CopcRun c(p, "out");
    c.run_all();
    if (!c.opened)
        return;
    c.destroy();
    finish_good(c.t);
    verify_copc_bytes(c, c.t.bytes(), true, false, false);
    sh->nontrivial = !c.nodes.empty();
}

// ---------------------------------------------------------------- C04
static void gen_c04_once(Plan &p, Rng &r)
{
    knobs(p, r, true);
    gen_laz_ops(p, r, 14, G_LIVE | G_NOCLOSE | G_HEAVY);
}
static void run_c04_once(const Plan &p)
{
    if (p.ops.size() == 1 && p.ops[0].name == "huge")
    {
        run_huge(p, p.ops[0]);
        return;
    }
    LazRun c(p, "out");
    c.run_all();
    if (!c.opened)
        return;
    c.destroy();
    finish_good(c.t);
    std::string b = c.t.bytes();
    Rng r(mix(p.seed, p.run) ^ 0xc04);
    verify_laz_read(c, b, r, true, true);
    verify_laz_bytes(c, b, false, true, true);
    sh->nontrivial = !c.chunks.empty();
}

// ---------------------------------------------------------------- C05
static void gen_c05(Plan &p, Rng &r)
{
    knobs(p, r, true);
    p.knob["stop"] = r.chance(1, 2);
    if (r.chance(1, 3))
        gen_laz_ops(p, r, 6, G_STREAMS | G_HEAVY);
    else
        gen_copc_ops(p, r, 8, G_STREAMS | G_HEAVY);
}
static void faults_c05(Plan &p, Rng &r)
{
    if (r.chance(1, 6))
    {
        uint64_t w = std::max<uint64_t>(g_profile.written, 2);
        p.knob["capacity"] = static_cast<int64_t>(r.below(w + 8));
        return;
    }
    add_faults(p, r, {"write_eio", "write_enospc", "write_eio", "write_enospc", "seek_fail", "close_fail", "flush_fail", "open_fail"},
               r.chance(2, 3) ? 1 : 3);
    torn(p, r);
    if (r.chance(1, 3))
        legal_faults(p, r);
}
template <typename R> static void drive_c05(const Plan &p, R &c, bool laz)
{
    c.io_faults = true;
    c.stop_on_error = p.k("stop") != 0;
    bool visible = false;
    for (auto &o : p.ops)
    {
        if (c.stopped && o.name != "close" && o.name != "lclose")
            continue;
        if (o.name == "destroy" || o.name == "ldestroy")
            continue;
        c.exec(o);
        if (c.t.stream_failed())
            visible = true;
        if (c.t.kind != 0 && c.stop_on_error && visible)
            c.stopped = true;
    }
    sh->nontrivial = fe.fired > 0;
    if (!c.opened)
        return;
    if (!c.closed)
    {
        heal();
        c.destroy();
        return; // never closed explicitly, or the close threw
    }
    if (!c.t.finish())
        visible = true;
    uint64_t fired = fe.fired;
    heal();
    c.destroy();
    if (c.threw || visible)
    {
        sh->nontrivial = fired > 0;
        return;
    }
    if (fired)
        count(c_probe_ok_despite_fault);
    sh->nontrivial = fired > 0;
    fe.begin(0);
    std::string b = c.t.bytes();
    Parsed q = parse_file(b, !laz);
    std::string bad = q.err;
    try
    {
        if (bad.empty())
        {
            if constexpr (std::is_same_v<R, CopcRun>)
                verify_copc_bytes(c, b, true, true, true);
            else
                verify_laz_bytes(c, b, true, true, true);
        }
    }
    catch (Violation &)
    {
        bad = sh->msg;
        sh->violated = 0;
    }
    if (!bad.empty())
        fail("silent-loss", "every operation and the close returned normally but the file is wrong: " + bad);
    Rng r(mix(p.seed, p.run) ^ 0xc05);
    if constexpr (std::is_same_v<R, CopcRun>)
        verify_copc_read(c, b, r, true, true);
    else
        verify_laz_read(c, b, r, true, true);
}
static void run_c05(const Plan &p)
{
    if (is_laz(p))
    {
        LazRun c(p, "out");
        drive_c05(p, c, true);
    }
    else
    {
        CopcRun c(p, "out");
        drive_c05(p, c, false);
    }
}

// ---------------------------------------------------------------- C06, C09, C10
static void gen_reader_once(Plan &p, Rng &r, int64_t flags, bool spatial, bool nav, int maxq)
{
    bool many = r.chance(1, 60);
    if (many)
        flags = (flags & ~FM_BIG) | FM_MANY;
    else if (r.chance(1, 200))
        flags |= FM_LONG;
    if (r.chance(1, 8))
        flags |= FM_DEEP;
    if (nav && !spatial && r.chance(1, 4))
    {
        if (r.chance(1, 8))
            flags |= FM_EVLR;
        p.op("lfile", {seed_of(r), static_cast<int64_t>(r.chance(1, 80) ? 4 : r.below(3)), flags, many ? static_cast<int64_t>(100 + r.below(500)) : r.pick(std::vector<int64_t>{0, 1, 3, 6, 12, 24})});
        gen_ropen(p, r);
        for (uint64_t i = 1 + r.below(4); i--;)
            p.op("lq", {static_cast<int64_t>(r.below(3))});
        return;
    }
    int nn = static_cast<int>(r.pick(std::vector<int>{0, 1, 3, 6, 10, 16, 30}));
    if (many)
        nn = 200 + static_cast<int>(r.below(1000));
    if (r.chance(1, 4))
        flags |= FM_UPPER;
    if (r.chance(1, 8))
        flags |= FM_EVLR;
    Op f = p.op("file", {seed_of(r), static_cast<int64_t>(r.chance(1, 80) ? 4 : r.below(3)), flags, nn});
    FileM m = build_file(f);
    ReadModel rm = read_model(m.bytes, m.m, &m.nodes);
    gen_ropen(p, r);
    for (uint64_t i = 1 + r.below(static_cast<uint64_t>(maxq)); i--;)
        gen_query(p, r, rm, spatial, nav);
}
static void gen_reader(Plan &p, Rng &r, int64_t flags, bool spatial, bool nav, int maxq)
{
    // other files read before, under the same name and by readers that are gone
    Plan last;
    gen_reader_once(last, r, flags, spatial, nav, maxq);
    if (r.chance(1, 4))
        for (uint64_t i = 1 + r.below(2); i--;)
        {
            if (r.chance(1, 2) && !(last.ops[0].a[2] & (FM_BIG | FM_MANY | FM_LONG)))
            {
                // one that hardly differs
                p.op(last.ops[0].name, last.ops[0].a).a[2] |=
                    (last.ops[0].a[2] & FM_DYADIC) || r.chance(1, 2) ? FM_TWIN : FM_MIRROR;
                for (size_t k = 1; k < last.ops.size(); k++)
                    if (k == 1 || r.chance(1, 2))
                        p.op(last.ops[k].name, last.ops[k].a);
            }
            else
                gen_reader_once(p, r, flags & ~FM_BIG, spatial, nav, 5);
            p.op("rclose", {});
        }
    bool stray = r.chance(1, 6);
    for (auto &o : last.ops)
    {
        if (stray && o.name != "file" && o.name != "lfile" && o.name != "ropen" && r.chance(1, 3))
            p.op("stray", {static_cast<int64_t>(r.below(4)), seed_of(r)});
        p.op(o.name, o.a);
    }
}
static void gen_c06(Plan &p, Rng &r)
{
    knobs(p, r, true);
    gen_reader(p, r, r.chance(1, 8) ? FM_BIG : 0, false, true, 12);
    // so that the faults meet the second chunk and those behind it as well
    for (size_t i = 0; i + 1 < p.ops.size(); i++)
        if (p.ops[i].name == "lfile" && p.ops[i + 1].name == "ropen" && r.chance(1, 2))
            p.ops[i + 1].a[0] = 1, p.ops[i + 1].a[1] = r.pick(std::vector<int>{1, 7, 64, 256});
    if (r.chance(1, 12))
    {
        p.op("shut");
        std::rotate(p.ops.begin() + 2 + static_cast<std::ptrdiff_t>(r.below(p.ops.size() - 2)), p.ops.end() - 1,
                    p.ops.end());
    }
    if (r.chance(1, 6))
    {
        // exception masks and throwing buffers
        for (auto &o : p.ops)
            if (o.name == "ropen" && o.arg(0) == 1)
                o.a[2] = 1;
    }
}
static void faults_c06(Plan &p, Rng &r)
{
    add_faults(p, r, {"read_eio", "read_eio", "read_eof", "read_eof", "seek_fail", "open_fail"}, r.chance(1, 2) ? 1 : 3);
    // opening has most of the events, asking should fail as often
    for (auto &f : p.faults)
        for (size_t i = 0; i + 1 < p.ops.size(); i++)
            if (p.ops[i].id == f.op && p.ops[i].name == "ropen" && r.chance(1, 2))
            {
                std::vector<const Op *> asks;
                for (size_t k = i + 1; k < p.ops.size() && p.ops[k].name != "ropen"; k++)
                    if (g_profile.ev.count(p.ops[k].id) && g_profile.ev[p.ops[k].id][EV_READ] > 0)
                        asks.push_back(&p.ops[k]);
                if (asks.empty() || f.kind == "open_fail")
                    continue;
                f.op = r.pick(asks)->id;
                int n = g_profile.ev[f.op][static_cast<size_t>(f.kind == "seek_fail" ? EV_SEEK : EV_READ)];
                f.call = 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::max(n, 1))));
                if (r.chance(1, 2))
                    f.call = std::max(1, n - static_cast<int>(r.below(4)));
                break;
            }
    torn(p, r);
    if (r.chance(1, 3))
        legal_faults(p, r);
}
static void run_reader(const Plan &p, bool faults)
{
    ReadRun c(p, "in");
    c.faults_ok = faults;
    for (auto &o : p.ops)
        c.exec(o);
    bool fired = fe.fired > 0;
    c.recheck();
    sh->nontrivial = faults ? fired : c.have_file;
}
static void run_c06(const Plan &p) { run_reader(p, true); }
static void gen_c09(Plan &p, Rng &r)
{
    knobs(p, r, true);
    gen_reader(p, r, 0, false, true, r.chance(1, 4) ? 40 : 14);
}
static void faults_c09(Plan &p, Rng &r)
{
    if (r.chance(1, 2))
        add_faults(p, r, {"oom"}, 3);
    // the opening itself is not part of navigation
    p.faults.erase(std::remove_if(p.faults.begin(), p.faults.end(),
                                  [&](const Fault &f)
                                  {
                                      for (auto &o : p.ops)
                                          if (o.id == f.op)
                                              return o.name == "ropen";
                                      return false;
                                  }),
                   p.faults.end());
}
static void run_c09(const Plan &p)
{
    ReadRun c(p, "in");
    c.faults_ok = true;
    for (auto &o : p.ops)
        c.exec(o);
    sh->nontrivial = c.have_file;
    c.recheck();
}
static void gen_c10(Plan &p, Rng &r)
{
    knobs(p, r, true);
    int64_t fl = FM_DYADIC;
    bool validate_out = r.chance(1, 3);
    if (validate_out)
        fl |= r.chance(1, 2) ? FM_OUTSIDE : FM_ONE;
    fl |= FM_NOZERO;
    if (r.chance(1, 4))
        fl |= FM_EMPTY;
    if (r.chance(1, 3))
        fl |= FM_FAR;
    gen_reader(p, r, fl, true, r.chance(1, 2), 14);
    if (validate_out && r.chance(1, 2))
        p.op("q_validate", {r.chance(1, 2)});
}
static void run_c10(const Plan &p)
{
    ReadRun c(p, "in");
    for (auto &o : p.ops)
        c.exec(o);
    sh->nontrivial = c.have_file && !c.f.nodes.empty();
    c.recheck();
}

// ---------------------------------------------------------------- C07
static void gen_c07(Plan &p, Rng &r)
{
    knobs(p, r, true);
    p.knob["log"] = 1;
    p.knob["pick"] = seed_of(r);
    if (r.chance(1, 3))
        gen_laz_ops(p, r, 6, G_STREAMS | G_HEAVY);
    else
        gen_copc_ops(p, r, 7, G_STREAMS | G_HEAVY);
    // another file is replaced; what is left of it must not be taken for the new one
    if (r.chance(1, 4))
        p.knob["old"] = seed_of(r);
}
static std::string all_laz(Input &in, const Meta &m)
{
    (void)m;
    auto v = in.laz().GetPointData();
    Off off;
    return vs(v);
}
static void crash_check(const std::string &left, const std::string &full, bool laz, const Meta &m, const ReadModel *rm,
                        const std::string &laz_all, Rng &r, uint64_t k, uint64_t torn)
{
    put_file("left", left);
    std::string what, where = "after " + std::to_string(k) + " write(s)" +
                              (torn ? " and " + std::to_string(torn) + " bytes of the next" : "");
    (void)full;
    // as a LAZ file
    {
        Input in;
        if (in.open(r.chance(1, 2) ? 1 : 0, "left", 300, false, true, &what) == OK)
        {
            std::string got;
            CallRes res = call([&] { got = all_laz(in, m); }, &what);
            if (res == OK)
            {
                if (got != laz_all)
                    fail("partial-accepted", "the file left by a crash " + where + " is accepted as a LAZ file of " +
                                                 std::to_string(got.size()) + " bytes of points (complete: " +
                                                 std::to_string(laz_all.size()) + ")");
                count(c_complete_after_crash);
            }
            else
                count(c_opens_refused);
        }
        else
            count(c_opens_refused);
    }
    if (laz)
        return;
    Input in;
    if (in.open(r.chance(1, 2) ? 1 : 0, "left", 300, false, false, &what) != OK)
    {
        count(c_opens_refused);
        return;
    }
    count(c_opens_ok);
    Op q;
    q.name = "q_all";
    Answer a = ask(in.reader(), q, m), w = expect(*rm, q);
    if (a.res == OK && !(a == w))
        fail("partial-accepted", "the file left by a crash " + where + " is accepted with nodes [" +
                                     ReadRun::shorten(a.text) + "], the complete file has [" + ReadRun::shorten(w.text) + "]");
    if (a.res != OK)
        return;
    for (auto &n : rm->p.nodes)
    {
        Op d;
        d.name = "q_data";
        d.a = {n.first.d, n.first.x, n.first.y, n.first.z};
        Answer x = ask(in.reader(), d, m), y = expect(*rm, d);
        if (x.res == OK && !(x == y))
            fail("partial-accepted", "the file left by a crash " + where + " returns other points for node " + n.first.s());
    }
    Op c;
    c.name = "q_cfg";
    if (!(ask(in.reader(), c, m) == expect(*rm, c)))
        fail("partial-accepted", "the file left by a crash " + where + " is accepted with other metadata");
    count(c_complete_after_crash);
}
template <typename R> static void drive_c07(const Plan &p, R &c, bool laz)
{
    if (p.k("old"))
    {
        Op o;
        o.name = laz ? "lfile" : "file";
        o.a = {p.k("old"), 0, 0, 12};
        put_file("out", build_file(o).bytes);
    }
    c.run_all();
    if (!c.opened || !c.t.file)
        return;
    c.destroy();
    finish_good(c.t);
    fe.begin(0);
    fe.enabled = false;
    std::string full = c.t.bytes();
    auto log = c.t.file->log;
    Rng r(static_cast<uint64_t>(p.k("pick", 1)));
    ReadModel rm;
    std::string laz_all;
    Meta m = c.live;
    m.genc |= 0x10;
    if constexpr (std::is_same_v<R, CopcRun>)
    {
        rm = read_model(full, m, nullptr);
        // chunk order
        std::map<uint64_t, K> byoff;
        for (auto &n : rm.p.nodes)
            byoff[n.second.off] = n.first;
        for (auto &x : byoff)
            laz_all += c.nodes.at(x.second).recs;
    }
    else
        for (auto &x : c.chunks)
            laz_all += x;
    std::vector<std::pair<uint64_t, uint64_t>> cuts;
    int64_t only = p.k("cut", -1);
    if (only >= 0)
        cuts.push_back({static_cast<uint64_t>(only), static_cast<uint64_t>(p.k("torn", 0))});
    else
        for (uint64_t i = 0; i <= log.size(); i++)
        {
            bool tail = i + 40 >= log.size() || i < 3; // the end is where headers and tables are written
            if (log.size() > 60 && !tail && !r.chance(30, static_cast<int>(log.size())))
                continue;
            cuts.push_back({i, 0});
            if (i < log.size() && log[i].bytes.size() > 1)
            {
                uint64_t n = log[i].bytes.size();
                cuts.push_back({i, 1 + r.below(n - 1)});
                if (tail && n > 4)
                {
                    cuts.push_back({i, n - 1});
                    cuts.push_back({i, 1 + r.below(n - 1)});
                    cuts.push_back({i, 1 + r.below(std::min<uint64_t>(n - 1, 400))});
                }
            }
        }
    std::string cur = c.t.file->base;
    uint64_t at = 0;
    auto apply = [&](std::string &s, const WriteRec &w, uint64_t n)
    {
        if (s.size() < w.off + n)
            s.resize(w.off + n, 0);
        std::memcpy(&s[w.off], w.bytes.data(), n);
    };
    for (auto &cut : cuts)
    {
        while (at < cut.first && at < log.size())
        {
            apply(cur, log[at], log[at].bytes.size());
            at++;
        }
        std::string left = cur;
        if (cut.second && cut.first < log.size())
        {
            apply(left, log[cut.first], std::min<uint64_t>(cut.second, log[cut.first].bytes.size()));
            count(c_f_crash_torn);
        }
        else
            count(c_f_crash_point);
        trace_num("crash", cut.first, cut.second);
        try
        {
            crash_check(left, full, laz, m, laz ? nullptr : &rm, laz_all, r, cut.first, cut.second);
        }
        catch (Violation &)
        {
            throw;
        }
    }
    sh->nontrivial = c.points > 0;
}
static void run_c07(const Plan &p)
{
    if (is_laz(p))
    {
        LazRun c(p, "out");
        drive_c07(p, c, true);
    }
    else
    {
        CopcRun c(p, "out");
        drive_c07(p, c, false);
    }
}

// ---------------------------------------------------------------- C08
// Replaces n bytes at a place by others and moves everything that refers to what lies behind along with it.
static void splice(std::string &b, const Parsed &q, uint64_t at, uint64_t n, const std::string &s, bool copc)
{
    if (at > b.size() || n > b.size() - at)
        return;
    auto fix = [&](uint64_t where, size_t size)
    {
        if (where + size > b.size())
            return;
        uint64_t v = 0;
        std::memcpy(&v, &b[where], size);
        if (v >= at + n && v != UINT64_MAX)
        {
            v += s.size() - n;
            std::memcpy(&b[where], &v, size);
        }
    };
    fix(q.point_offset, 8); // the chunk table
    fix(235, 8);            // the extended records
    if (copc)
        fix(429 + 40, 8); // the root page
    for (auto &e : q.nodes)
        fix(e.second.at + 16, 8);
    for (auto &pg : q.pages)
        if (copc)
            for (uint64_t i = 0; i + 32 <= pg.second.size; i += 32)
            {
                int32_t c;
                std::memcpy(&c, &b[std::min<uint64_t>(pg.second.off + i + 28, b.size() - 4)], 4);
                if (c == -1)
                    fix(pg.second.off + i + 16, 8);
            }
    fix(96, 4); // the points
    b.replace(at, n, s);
}
static void corrupt(std::string &b, const Op &o, const Parsed &q)
{
    Rng r(static_cast<uint64_t>(o.arg(1)));
    if (b.empty())
        return;
    auto poke = [&](uint64_t at, const void *v, size_t n)
    {
        if (at + n <= b.size())
            std::memcpy(&b[at], v, n);
    };
    static const std::vector<int64_t> odd{0,          1,          -1,         2,         127,        255,       65535,
                                          0x7fffffff, -2147483647 - 1, 0x40000000, 0x10000000, 1000000, 33,
                                          int64_t(1) << 40, int64_t(1) << 62, INT64_MIN};
    switch (o.arg(0))
    {
    case 0: // single bit
        b[r.below(b.size())] ^= static_cast<char>(1 << r.below(8));
        break;
    case 1: // a run of random bytes
    {
        uint64_t at = r.below(b.size());
        for (uint64_t i = 0, n = 1 + r.below(64); i < n && at + i < b.size(); i++)
            b[at + i] = static_cast<char>(r.next());
        break;
    }
    case 2: // header or record field
    {
        uint64_t at = r.below(std::min<uint64_t>(b.size(), std::max<uint32_t>(q.point_offset, 375) + 16));
        int64_t v = r.pick(odd);
        poke(at, &v, size_t(1) << r.below(4));
        break;
    }
    case 3: // truncate
        b.resize(r.below(b.size()));
        count(c_f_truncate);
        break;
    case 4: // extend
        for (uint64_t i = 1 + r.below(3000); i--;)
            b += static_cast<char>(r.next());
        break;
    case 5: // known header counts, offsets and lengths
    {
        static const std::vector<std::pair<int, int>> f{{94, 2},  {96, 4},  {100, 4}, {104, 1}, {105, 2}, {107, 4},
                                                        {131, 8}, {235, 8}, {243, 4}, {247, 8}, {6, 2},   {24, 1}};
        auto x = r.pick(f);
        int64_t v = r.chance(1, 2) ? r.pick(odd) : static_cast<int64_t>(r.below(b.size() + 100));
        poke(static_cast<uint64_t>(x.first), &v, static_cast<size_t>(x.second));
        break;
    }
    case 6: // record header: length, id or user id
        if (!q.vlrs.empty())
        {
            auto &v = r.pick(q.vlrs);
            int64_t x = r.chance(1, 2) ? r.pick(odd) : static_cast<int64_t>(r.below(b.size()));
            if (r.chance(3, 4))
                poke(v.at + 20, &x, v.ev ? 8 : 2);
            else if (r.chance(1, 2))
                poke(v.at + 18, &x, 2);
            else
                poke(v.at + 2 + r.below(16), &x, 1);
        }
        break;
    case 7: // hierarchy entry
    case 8:
        if (!q.nodes.empty() || q.pages.size() > 1)
        {
            std::vector<EntryP> es;
            for (auto &n : q.nodes)
                es.push_back(n.second);
            uint64_t at;
            if (!es.empty() && r.chance(2, 3))
                at = r.pick(es).at;
            else
            {
                std::vector<PageP> pg;
                for (auto &x : q.pages)
                    if (x.second.size)
                        pg.push_back(x.second);
                if (pg.empty())
                    break;
                auto &x = r.pick(pg);
                at = x.off + 32 * r.below(x.size / 32);
            }
            if (o.arg(0) == 8)
            {
                // turn it into a page entry that points at a page (itself, an ancestor or another one)
                std::vector<PageP> pg;
                for (auto &x : q.pages)
                    pg.push_back(x.second);
                auto &t = r.pick(pg);
                int32_t key[4] = {t.key.d, t.key.x, t.key.y, t.key.z};
                int64_t off = static_cast<int64_t>(t.off);
                int32_t sz = static_cast<int32_t>(t.size), cnt = -1;
                if (r.chance(1, 3)) // a page far below the root
                {
                    static const std::vector<int32_t> deep{0x7fffffff, 0x10000000, 1000000, 4096, 33, 0x7ffffffe};
                    key[0] = r.pick(deep);
                    cnt = -1;
                }
                if (r.chance(2, 3))
                    poke(at, key, 16);
                if (r.chance(7, 8))
                    poke(at + 16, &off, 8);
                poke(at + 24, &sz, 4);
                poke(at + 28, &cnt, 4);
            }
            else
            {
                static const std::vector<std::pair<int, int>> f{{0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 8}, {24, 4}, {28, 4}, {28, 4}, {24, 4}};
                auto x = r.pick(f);
                int64_t v = r.chance(1, 2) ? r.pick(odd) : static_cast<int64_t>(r.below(b.size() + 100));
                if (x.first == 28 && r.chance(1, 2))
                    v = static_cast<int64_t>(r.below(100000)) - 2;
                poke(at + static_cast<uint64_t>(x.first), &v, static_cast<size_t>(x.second));
            }
        }
        break;
    case 9: // duplicate a block somewhere else
    {
        uint64_t n = 1 + r.below(std::min<uint64_t>(b.size(), 200)), from = r.below(b.size() - n + 1),
                 to = r.below(b.size() - n + 1);
        std::string s = b.substr(from, n);
        if (r.chance(1, 2))
            b.insert(to, s);
        else
            b.replace(to, n, s);
        break;
    }
    case 10: // remove a block
    {
        uint64_t n = 1 + r.below(std::min<uint64_t>(b.size(), 200)), from = r.below(b.size() - n + 1);
        b.erase(from, n);
        break;
    }
    case 11: // COPC info and other fixed payloads, chunk table offset
    {
        int64_t v = r.chance(1, 2) ? r.pick(odd) : static_cast<int64_t>(r.below(b.size() + 100));
        static const std::vector<int> f{429 + 40, 429 + 48, 429 + 40, 429 + 48, 429, 429 + 32};
        if (r.chance(1, 3) && q.point_offset)
            poke(q.point_offset, &v, 8);
        else
            poke(static_cast<uint64_t>(r.pick(f)), &v, 8);
        break;
    }
    case 15: // a record grows, shrinks, disappears or comes twice, the rest of the file stays consistent
        if (!q.vlrs.empty())
        {
            auto v = r.pick(q.vlrs);
            bool copc = !q.pages.empty();
            uint64_t hs = v.ev ? 60 : 54;
            if (v.data + v.len > b.size())
                break;
            auto counts = [&](int d)
            {
                uint32_t c;
                uint64_t w = v.ev ? 243 : 100;
                std::memcpy(&c, &b[w], 4);
                c += static_cast<uint32_t>(d);
                std::memcpy(&b[w], &c, 4);
            };
            switch (r.below(8))
            {
            case 0: // gone
                counts(-1);
                splice(b, q, v.at, v.data + v.len - v.at, "", copc && v.at > 429);
                break;
            case 1: // twice
                counts(1);
                splice(b, q, v.data + v.len, 0, b.substr(v.at, hs + v.len), copc);
                break;
            case 2: // the same record with another name: a known one changes its meaning
            {
                static const std::vector<std::pair<const char *, int>> ids{
                    {"copc", 1000}, {"copc", 10000}, {"rock_robotic", 10001}, {"LASF_Projection", 2112}, {"LASF_Spec", 4}};
                auto id = r.pick(ids);
                std::string u(id.first);
                u.resize(16);
                uint16_t n = static_cast<uint16_t>(id.second);
                poke(v.at + 2, u.data(), 16);
                poke(v.at + 18, &n, 2);
                break;
            }
            case 3: // shorter
            {
                uint64_t n = std::min<uint64_t>(v.len, r.chance(1, 2) ? 16 * (1 + r.below(20)) : 1 + r.below(400)), l = v.len - n;
                poke(v.at + 20, &l, v.ev ? 8 : 2);
                splice(b, q, v.data + l, n, "", copc);
                break;
            }
            default: // longer
            {
                uint64_t n = r.chance(2, 3) ? (r.chance(1, 2) ? 16 : 192) * (1 + r.below(40)) : 1 + r.below(4000), l = v.len + n;
                if (!v.ev && l > 65535)
                    break;
                std::string s(n, '\0');
                if (r.chance(1, 2))
                    for (auto &c : s)
                        c = static_cast<char>(r.next());
                else if (r.chance(1, 2) && v.len)
                    for (size_t i = 0; i < n; i++)
                        s[i] = b[v.data + i % v.len];
                poke(v.at + 20, &l, v.ev ? 8 : 2);
                splice(b, q, v.data + v.len, 0, s, copc);
            }
            }
        }
        break;
    case 16: // a page lists more or fewer entries than it did, consistently
        if (!q.pages.empty())
        {
            std::vector<PageP> pg;
            for (auto &x : q.pages)
                pg.push_back(x.second);
            auto x = r.pick(pg);
            if (x.off + x.size > b.size())
                break;
            std::string extra;
            for (uint64_t i = 1 + r.below(4); i--;)
            {
                auto &y = r.pick(pg); // entries of this page or of another one
                if (y.size >= 32 && y.off + y.size <= b.size())
                    extra += b.substr(y.off + 32 * r.below(y.size / 32), 32);
            }
            int64_t root;
            std::memcpy(&root, &b[429 + 40], 8);
            uint64_t sz = x.size + extra.size();
            bool drop = x.size >= 32 && r.chance(1, 4);
            if (drop)
                sz = x.size - 32;
            if (static_cast<uint64_t>(root) == x.off)
                poke(429 + 48, &sz, 8);
            for (auto &y : pg)
                for (uint64_t i = 0; i + 32 <= y.size && y.off + i + 32 <= b.size(); i += 32)
                {
                    uint64_t off;
                    int32_t c;
                    std::memcpy(&off, &b[y.off + i + 16], 8);
                    std::memcpy(&c, &b[y.off + i + 28], 4);
                    if (c == -1 && off == x.off)
                        poke(y.off + i + 24, &sz, 4);
                }
            for (auto &v : q.vlrs)
                if (v.ev && x.off >= v.data && x.off < v.data + v.len)
                {
                    uint64_t l = v.len + sz - x.size;
                    poke(v.at + 20, &l, 8);
                }
            if (drop)
                splice(b, q, x.off + x.size - 32, 32, "", true);
            else
                splice(b, q, x.off + x.size, 0, extra, true);
        }
        break;
    case 13: // a long chain of pages, each listing only the next one, perhaps closed to a ring
    {
        uint64_t n = 1 + r.below(r.chance(1, 6) ? 60000 : 300), at = b.size();
        int style = static_cast<int>(r.below(4));
        int32_t rk[4] = {0, 0, 0, 0};
        for (uint64_t i = 0; i < n; i++)
        {
            bool last = i + 1 == n;
            int32_t j = static_cast<int32_t>(i + 1);
            int32_t k[4] = {j, 0, 0, 0};
            if (style == 1)
                k[0] = 1 + j / 64, k[1] = j % 64;
            if (style == 2)
                k[0] = 20, k[1] = j, k[2] = 7;
            int64_t off = static_cast<int64_t>(at + 32 * (i + 1));
            int32_t sz = 32, cnt = -1;
            if (last && style == 3)
                off = static_cast<int64_t>(at), std::memcpy(k, rk, 16);
            else if (last)
                off = 400, sz = 10, cnt = 1;
            std::string e(32, 0);
            std::memcpy(&e[0], k, 16);
            std::memcpy(&e[16], &off, 8);
            std::memcpy(&e[24], &sz, 4);
            std::memcpy(&e[28], &cnt, 4);
            b += e;
        }
        int64_t root = static_cast<int64_t>(at), sz = 32;
        poke(429 + 40, &root, 8);
        poke(429 + 48, &sz, 8);
        break;
    }
    default: // inside a record payload or chunk
    {
        uint64_t lo = 375, hi = b.size();
        if (!q.vlrs.empty() && r.chance(2, 3))
        {
            auto &v = r.pick(q.vlrs);
            lo = v.data;
            hi = v.data + std::max<uint64_t>(v.len, 1);
        }
        if (lo >= hi)
            break;
        uint64_t at = lo + r.below(hi - lo);
        int64_t v = r.pick(odd);
        poke(at, &v, size_t(1) << r.below(4));
    }
    }
    count(c_f_corrupt_byte);
}
static void gen_c08(Plan &p, Rng &r)
{
    p.knob["desc"] = r.chance(1, 2);
    p.knob["reuse"] = r.chance(1, 2);
    bool laz = r.chance(1, 5);
    int nn = static_cast<int>(r.pick(std::vector<int>{1, 3, 6, 10, 16}));
    p.op(laz ? "lfile" : "file",
         {seed_of(r), static_cast<int64_t>(r.below(3)), r.chance(1, 8) ? FM_EVLR : 0, nn});
    int n = r.chance(1, 2) ? 1 : static_cast<int>(1 + r.below(6));
    for (int i = 0; i < n; i++)
        p.op("corrupt", {static_cast<int64_t>(r.chance(1, 25) ? 13 : r.chance(1, 14) ? 14 : r.below(13)), seed_of(r)});
    if (r.chance(1, 4))
    {
        // one consistent change of the structure, alone or before a cruder one
        p.ops.resize(p.ops.size() - static_cast<size_t>(r.chance(2, 3) ? n : n - 1));
        p.op("corrupt", {static_cast<int64_t>(15 + r.below(2)), seed_of(r)});
        if (r.chance(1, 3))
            p.op("corrupt", {static_cast<int64_t>(15 + r.below(2)), seed_of(r)});
    }
    p.op("ropen", {static_cast<int64_t>(r.below(4)), 256, 0});
    p.op("readall", {seed_of(r)});
    if (r.chance(1, 3))
    {
        p.op("corrupt_mid", {static_cast<int64_t>(r.below(13)), seed_of(r)});
        p.op("readall", {seed_of(r)});
    }
    if (r.chance(1, laz ? 3 : 6))
    {
        // a whole other file takes its place while the reader has it open: unrelated, or of the same seed but other
        // layout or size, sometimes damaged as well
        p.op("swap", {r.chance(1, 2) ? p.ops[0].arg(0) : seed_of(r), static_cast<int64_t>(r.below(3)),
                      r.chance(1, 8) ? FM_EVLR : 0, r.chance(1, 2) ? nn : static_cast<int64_t>(1 + r.below(24)),
                      r.chance(1, 8) ? !laz : laz});
        if (r.chance(1, 3))
            p.op("corrupt_mid", {static_cast<int64_t>(r.below(13)), seed_of(r)});
        p.op("readall", {seed_of(r)});
    }
    if (r.chance(1, 2))
        p.op("readall", {seed_of(r)});
    if (r.chance(1, 4))
        p.op("sound", {static_cast<int64_t>(r.below(4))});
}
static void run_c08(const Plan &p)
{
    bool mid = false;
    FileM f;
    std::string b;
    Parsed q;
    Input in;
    std::string what;
    Meta m;
    for (auto &o : p.ops)
    {
        if (o.name == "file" || o.name == "lfile")
        {
            f = build_file(o);
            b = f.bytes;
            q = parse_file(b, !f.laz);
            m = f.m;
            put_file("in", b);
        }
        else if (o.name == "corrupt" || o.name == "corrupt_mid")
        {
            if (o.name == "corrupt_mid" && !in.is_open())
                continue;
            if (o.name == "corrupt_mid")
            {
                count(c_f_mid_corrupt);
                mid = true; // what the reader has buffered is not what is in the file
            }
            corrupt(b, o, q);
            put_file("in", b);
        }
        else if (o.name == "swap")
        {
            if (!in.is_open())
                continue;
            count(c_f_mid_swap);
            mid = true;
            Op x = o;
            x.name = o.arg(4) ? "lfile" : "file";
            FileM g = build_file(x);
            b = g.bytes;
            q = parse_file(b, !g.laz);
            put_file("in", b);
            uint64_t prop = 64ull << 20;
            heap_setup(p.k("desc") != 0, prop + 16 * std::max(b.size(), f.bytes.size()) * 4096, prop);
        }
        else if (o.name == "ropen")
        {
            if (b.empty() && f.bytes.empty())
                continue;
            fe.begin_op(o);
            uint64_t prop = 64ull << 20;
            heap_setup(p.k("desc") != 0, prop + 16 * b.size() * 4096, prop);
            bool laz = f.laz;
            CallRes res = in.open(static_cast<int>(o.arg(0)), "in", static_cast<int>(o.arg(1)), false, laz, &what);
            trace_num("ropen", static_cast<uint64_t>(res));
            count(res == OK ? c_opens_ok : c_opens_refused);
            if (res != OK)
                in.close();
            sh->nontrivial = 1;
        }
        else if (o.name == "sound")
        {
            // what was damaged has left nothing behind that a sound file is read wrongly for
            in.close();
            if (p.ops[0].name != "file" && p.ops[0].name != "lfile")
                continue;
            heap_setup(p.k("desc") != 0, 2ull << 30, 1ull << 30);
            ReadRun g(p, "in");
            g.exec(p.ops[0]);
            Op x = o;
            x.name = "ropen";
            x.a = {o.arg(0), 256, 0};
            g.exec(x);
            x.name = f.laz ? "lq" : "q_allpts";
            x.a = {0};
            g.exec(x);
            g.recheck();
            g.close();
            b.clear();
            f = FileM();
        }
        else if (o.name == "readall" && in.is_open())
        {
            fe.begin_op(o);
            Rng r(static_cast<uint64_t>(o.arg(0)));
            if (f.laz)
            {
                uint64_t pc = 0;
                int rl = 0;
                call(
                    [&]
                    {
                        auto h = in.laz().LazConfig().LasHeader();
                        pc = h.PointCount();
                        rl = h.PointRecordLength();
                    });
                std::vector<char> v;
                CallRes res = call([&] { v = in.laz().GetPointData(); }, &what);
                trace_num("lread", static_cast<uint64_t>(res), v.size());
                if (res == OK && v.size() != pc * static_cast<uint64_t>(rl))
                    fail("wrong-size", "the points returned do not have the size the header states");
                call([&] { in.laz().GetPoints(); });
                continue;
            }
            auto &rd = in.reader();
            int rl = 0;
            call([&] { rl = rd.CopcConfig().LasHeader().PointRecordLength(); });
            call([&] { auto c = rd.CopcConfig(); c.Wkt(); auto e = c.CopcExtents(); e.ToString(); c.LasHeader().ToString(); });
            if (r.chance(1, 3)) // straight down, before anything is loaded
            {
                copc::VoxelKey k(static_cast<int32_t>(1 + r.below(r.chance(1, 2) ? 4000 : 300)), 0, 0, 0);
                call([&] { rd.FindNode(k); });
                call([&] { rd.GetPointData(k); });
            }
            std::vector<copc::Node> all;
            CallRes res = call([&] { all = rd.GetAllNodes(); }, &what);
            trace_num("all", static_cast<uint64_t>(res), all.size());
            if (res != OK)
                for (auto &n : q.nodes)
                    call(
                        [&]
                        {
                            auto x = rd.FindNode(vk(n.first));
                            if (x.IsValid())
                            {
                                Off off;
                                all.push_back(x);
                            }
                        });
            size_t lim = std::min<size_t>(all.size(), 60);
            for (size_t i = 0; i < lim; i++)
            {
                copc::Node n = all[i];
                std::vector<char> v;
                res = call([&] { v = rd.GetPointData(n); }, &what);
                trace_num("data", static_cast<uint64_t>(res), v.size());
                if (res == OK && n.point_count >= 0 && v.size() != static_cast<uint64_t>(n.point_count) * static_cast<uint64_t>(rl))
                    fail("wrong-size", "node " + mk(n.key).s() + " states " + std::to_string(n.point_count) + " points of " +
                                           std::to_string(rl) + " bytes, " + std::to_string(v.size()) + " bytes were returned");
                if (res == OK && n.point_count < 0 && !v.empty())
                    fail("wrong-size", "node with a negative point count returns data");
                if (r.chance(1, 2))
                {
                    std::vector<char> c;
                    res = call([&] { c = rd.GetPointDataCompressed(n); }, &what);
                    if (res == OK && c.size() != static_cast<uint64_t>(n.byte_size))
                        fail("wrong-size", "node " + mk(n.key).s() + " states " + std::to_string(n.byte_size) + " bytes, " +
                                               std::to_string(c.size()) + " were returned");
                    if (res == OK && !mid && n.byte_size > 0 && (n.offset > b.size() || static_cast<uint64_t>(n.byte_size) > b.size() - n.offset))
                        fail("wrong-data", "node " + mk(n.key).s() + " lies outside the file but " + std::to_string(c.size()) +
                                               " bytes were returned for it");
                }
                if (r.chance(1, 3))
                    call([&] { rd.GetPoints(n); });
            }
            std::vector<copc::VoxelKey> pages;
            call([&] { pages = rd.GetPageList(); });
            for (size_t i = 0; i < pages.size() && i < 12; i++)
            {
                copc::VoxelKey k = pages[pages.size() < 12 ? i : r.below(pages.size())];
                call([&] { rd.GetAllChildrenOfPage(k); });
                call([&] { rd.FindNode(k); });
            }
            call([&] { rd.GetNodesWithinBox(copc::Box(-1e3, -1e3, -1e3, 1e3, 1e3, 1e3)); });
            call([&] { rd.GetPointsWithinBox(copc::Box(-1e3, -1e3, -1e3, 1e3, 1e3, 1e3)); });
            call([&] { rd.GetDepthAtResolution(0.5); });
            call([&] { rd.GetAllPoints(); });
            call([&] { rd.ValidateSpatialBounds(); });
            for (int i = 0; i < 6; i++)
            {
                K k = gen_key(r, 5);
                call([&] { rd.GetAllChildrenOfPage(vk(k)); });
                call([&] { rd.GetPointData(vk(k)); });
            }
        }
    }
}

// ---------------------------------------------------------------- C11
// Operations between two "task" markers belong to one task; "sel" chooses one of the task's two writers and "share"
// gives the second writer the first one's configuration object.
// A thread that does one thing at a time for a task while the task waits for it.
struct Carrier
{
    sem_t go, done;
    pthread_t th;
    std::function<void()> fn;
    std::exception_ptr err;
    bool quit = false;
    int as = -1;
    Carrier()
    {
        sem_init(&go, 0, 0);
        sem_init(&done, 0, 0);
        if (pthread_create(
                &th, nullptr,
                [](void *a) -> void *
                {
                    Carrier &c = *static_cast<Carrier *>(a);
                    for (;;)
                    {
                        sem_wait(&c.go);
                        if (c.quit)
                            return nullptr;
                        set_this_task(c.as);
                        try
                        {
                            c.fn();
                        }
                        catch (...)
                        {
                            c.err = std::current_exception();
                        }
                        set_this_task(-1);
                        sem_post(&c.done);
                    }
                },
                this) != 0)
            _exit(71);
    }
    ~Carrier()
    {
        quit = true;
        sem_post(&go);
        pthread_join(th, nullptr);
    }
    void call(std::function<void()> f)
    {
        fn = std::move(f);
        as = this_task();
        set_this_task(-1);
        sem_post(&go);
        sem_wait(&done);
        set_this_task(as);
        if (err)
            std::rethrow_exception(std::exchange(err, nullptr));
    }
};
struct TaskRun
{
    Plan sub;
    int id;
    std::string ns;
    std::unique_ptr<CopcRun> c[2];
    std::unique_ptr<LazRun> l[2];
    std::unique_ptr<ReadRun> rd;
    std::string out; // everything observable
    bool violated = false;
    std::string vcls, vmsg;
    void run()
    {
        for (int i = 0; i < 2; i++)
        {
            c[i] = std::make_unique<CopcRun>(sub, ns + "c" + std::to_string(i));
            l[i] = std::make_unique<LazRun>(sub, ns + "l" + std::to_string(i));
        }
        rd = std::make_unique<ReadRun>(sub, ns + "r");
        int sel = 0;
        int hop = 0;
        for (auto &o : sub.ops)
        {
            if (o.name == "sel")
            {
                sel = static_cast<int>(o.arg(0)) & 1;
                continue;
            }
            if (o.name == "hop")
            {
                hop = static_cast<int>(o.arg(0));
                continue;
            }
            if (!hop || !sched.active)
            {
                step(o, sel);
                continue;
            }
            // the task's objects go from thread to thread, one at a time
            count(c_hops);
            if (hop == 1)
            {
                Carrier x;
                x.call([&] { step(o, sel); });
            }
            else
            {
                auto &x = carrier[static_cast<size_t>(o.id) & 1];
                if (!x)
                    x = std::make_unique<Carrier>();
                x->call([&] { step(o, sel); });
            }
        }
        for (auto &x : carrier)
            x.reset();
        finish();
    }
    std::unique_ptr<Carrier> carrier[2];
    void step(const Op &o, int sel)
    {
        do
        {
            if (o.name == "share")
            {
                if (c[0]->cfg && !c[1]->have())
                {
                    c[1]->cfg = c[0]->cfg;
                    c[1]->user = c[0]->user;
                }
                if (l[0]->cfg && !l[1]->have())
                {
                    l[1]->cfg = l[0]->cfg;
                    l[1]->user = l[0]->user;
                }
                continue;
            }
            if (c[sel]->exec(o))
            {
                if (o.name == "user" && c[0]->cfg == c[1]->cfg)
                    c[1 - sel]->user = c[sel]->user;
                continue;
            }
            if (l[sel]->exec(o))
            {
                if (o.name == "luser" && l[0]->cfg == l[1]->cfg)
                    l[1 - sel]->user = l[sel]->user;
                continue;
            }
            if (o.name.compare(0, 2, "q_") == 0 && rd->in.is_open() && !rd->f.laz)
            {
                if (unspecified(rd->m, o))
                    continue;
                Answer a = ask(rd->in.reader(), o, rd->f.m);
                out += o.name + "=" + std::to_string(a.res) + ":" + a.text + "|" + a.what + "\n";
                Answer w = expect(rd->m, o);
                rd->judge(o, a, w, "");
                continue;
            }
            rd->exec(o);
        } while (false);
    }
    void finish()
    {
        for (int i = 0; i < 2; i++)
        {
            c[i]->destroy();
            l[i]->destroy();
            if (c[i]->opened)
            {
                c[i]->t.finish();
                out += c[i]->t.bytes();
            }
            if (l[i]->opened)
            {
                l[i]->t.finish();
                out += l[i]->t.bytes();
            }
        }
        rd->close();
    }
    void guarded()
    {
        try
        {
            run();
        }
        catch (Violation &)
        {
            violated = true;
        }
    }
    void verify()
    {
        for (int i = 0; i < 2; i++)
        {
            if (c[i]->opened)
                verify_copc_bytes(*c[i], c[i]->t.bytes(), true, true, true);
            if (l[i]->opened)
                verify_laz_bytes(*l[i], l[i]->t.bytes(), true, true, true);
        }
    }
};
static std::vector<Plan> split_tasks(const Plan &p)
{
    std::vector<Plan> v;
    for (auto &o : p.ops)
    {
        if (o.name == "task" || v.empty())
        {
            v.emplace_back();
            v.back().knob = p.knob;
            v.back().prop = p.prop;
            v.back().seed = p.seed;
            v.back().run = p.run;
        }
        if (o.name != "task")
            v.back().ops.push_back(o);
    }
    return v;
}
static void append_ops(Plan &p, const Plan &q)
{
    for (auto &o : q.ops)
        p.op(o.name, o.a);
}
static void gen_c11(Plan &p, Rng &r)
{
    p.knob["desc"] = r.chance(1, 2);
    p.knob["reuse"] = r.chance(1, 2);
    int nt = static_cast<int>(2 + r.below(3));
    // in many runs all tasks do the same kind of thing, which is where state that is shared by mistake shows
    bool alike = r.chance(1, 2);
    uint64_t kind = r.below(6);
    for (int t = 0; t < nt; t++)
    {
        p.op("task", {t});
        Plan q;
        if (r.chance(1, 4))
            q.op("hop", {static_cast<int64_t>(1 + r.below(2))});
        switch (alike ? kind : r.below(6))
        {
        case 0:
        case 1:
            gen_copc_ops(q, r, 6, G_LIVE | G_FIND | G_NOCLOSE);
            break;
        case 2:
            gen_laz_ops(q, r, 6, G_LIVE | G_NOCLOSE);
            break;
        case 3:
        {
            // two writers from one configuration, interleaved
            bool laz = r.chance(1, 3);
            Plan a, b;
            auto gen = [&](Plan &x)
            {
                if (laz)
                    gen_laz_ops(x, r, 5, G_LIVE);
                else
                    gen_copc_ops(x, r, 5, G_LIVE);
            };
            gen(a);
            gen(b);
            q.op("sel", {0});
            q.op(a.ops[0].name, a.ops[0].a);
            q.op("share", {});
            size_t i = 1, j = 1;
            while (i < a.ops.size() || j < b.ops.size())
            {
                bool first = j >= b.ops.size() || (i < a.ops.size() && r.chance(1, 2));
                auto &o = first ? a.ops[i++] : b.ops[j++];
                q.op("sel", {first ? 0 : 1});
                q.op(o.name, o.a);
                if (r.chance(1, 6))
                    q.op(laz ? "luser" : "user", {seed_of(r)});
                if (r.chance(1, 6))
                    q.op(laz ? "llive" : "live", {seed_of(r), r.chance(1, 4)});
            }
            break;
        }
        default:
            gen_reader(q, r, r.chance(1, 2) ? FM_DYADIC | FM_NOZERO : 0, r.chance(1, 2), true, 8);
            for (auto &o : q.ops)
                if (o.name == "ropen" && o.a[0] == 1)
                    o.a[2] = 0;
        }
        append_ops(p, q);
    }
}
static void faults_c11(Plan &p, Rng &r)
{
    uint64_t y = std::max<uint64_t>(g_profile.yields, 10);
    int n = static_cast<int>(2 + r.below(r.chance(1, 2) ? 12 : 60));
    std::vector<uint64_t> at;
    int style = static_cast<int>(r.below(3));
    uint64_t base = r.below(y);
    for (int i = 0; i < n; i++)
        at.push_back(style == 0 ? r.below(y) : style == 1 ? base + r.below(1 + y / 20) : static_cast<uint64_t>(i + 1) * (1 + r.below(2 * y / static_cast<uint64_t>(n) + 1)));
    std::sort(at.begin(), at.end());
    int nt = 0;
    for (auto &o : p.ops)
        nt += o.name == "task";
    for (auto a : at)
        p.sw.push_back({a, static_cast<int>(r.below(static_cast<uint64_t>(std::max(nt, 1))))});
}
static void run_c11(const Plan &p)
{
    fe.enabled = false;
    fs.chop = 0;
    auto subs = split_tasks(p);
    if (subs.empty())
        return;
    std::vector<std::unique_ptr<TaskRun>> conc, alone;
    std::vector<std::function<void()>> fns;
    for (size_t i = 0; i < subs.size(); i++)
    {
        auto t = std::make_unique<TaskRun>();
        t->sub = subs[i];
        t->id = static_cast<int>(i);
        t->ns = "t" + std::to_string(i);
        TaskRun *raw = t.get();
        fns.push_back([raw] { raw->guarded(); });
        conc.push_back(std::move(t));
    }
    sched.run(p, fns);
    g_profile.yields = sched.points;
    uint64_t switched = sched.switches;
    // each task alone
    std::string keep_cls = sh->cls, keep_msg = sh->msg;
    bool was = sh->violated;
    sh->violated = 0;
    bool alone_bad = false;
    for (size_t i = 0; i < subs.size(); i++)
    {
        auto t = std::make_unique<TaskRun>();
        t->sub = subs[i];
        t->id = static_cast<int>(i);
        t->ns = "a" + std::to_string(i);
        t->guarded();
        alone_bad = alone_bad || t->violated;
        alone.push_back(std::move(t));
    }
    if (alone_bad)
    {
        std::string m = sh->msg;
        sh->violated = 0;
        fail("isolation-alone", "a task misbehaves even when run by itself: " + m);
    }
    if (was)
        fail("isolation", "a task that behaves when run by itself misbehaves beside others: " + keep_msg);
    for (size_t i = 0; i < subs.size(); i++)
    {
        std::string &x = conc[i]->out, &y = alone[i]->out;
        // file names differ between the two runs only in error texts, which carry none
        if (x != y)
        {
            size_t k = 0;
            while (k < x.size() && k < y.size() && x[k] == y[k])
                k++;
            fail("isolation", "task " + std::to_string(i) + " produced other bytes or answers beside others than alone (" +
                                  std::to_string(x.size()) + " and " + std::to_string(y.size()) + " bytes, first difference at " +
                                  std::to_string(k) + ")");
        }
    }
    for (auto &t : conc)
        try
        {
            t->verify();
        }
        catch (Violation &)
        {
            std::string m = sh->msg;
            sh->violated = 0;
            fail("isolation", "a writer's file holds something else than was given to that writer: " + m);
        }
    sh->nontrivial = switched > subs.size();
}

// ---------------------------------------------------------------- C12
static void gen_c12(Plan &p, Rng &r)
{
    knobs(p, r, false);
    p.knob["flushclose"] = 1;
    if (r.chance(1, 3))
        gen_laz_ops(p, r, 8, G_BAD | G_POST | G_NOCLOSE | G_STREAMS);
    else
        gen_copc_ops(p, r, 8, G_BAD | G_POST | G_NOCLOSE | G_FIND | G_STREAMS);
    // a close that failed for lack of memory may be tried again, perhaps after more work
    Plan more;
    bool work = r.chance(1, 2);
    if (is_laz(p))
        gen_laz_ops(more, r, 5, G_BAD);
    else
        gen_copc_ops(more, r, 8, G_BAD);
    std::vector<Op> ops;
    for (auto &o : p.ops)
    {
        ops.push_back(o);
        if (o.name == "close" || o.name == "lclose")
            for (int i = 0; i < 2; i++)
            {
                if (i == 0 && work)
                    for (auto &x : more.ops)
                        if (x.name == "add" || x.name == "move" || x.name == "bad" || x.name == "lwrite" || x.name == "lbad")
                        {
                            Op q = x;
                            q.id = p.nextid++;
                            ops.push_back(q);
                        }
                Op q = o;
                q.id = p.nextid++;
                ops.push_back(q);
            }
    }
    p.ops = ops;
}
static void faults_c12(Plan &p, Rng &r)
{
    if (r.chance(1, 3))
        return;
    add_faults(p, r, {"oom"}, 3);
    for (auto &o : p.ops)
        if ((o.name == "close" || o.name == "lclose") && g_profile.ev.count(o.id) && r.chance(1, 2))
        {
            // the close itself, anywhere
            size_t n = static_cast<size_t>(g_profile.ev[o.id][EV_ALLOC]);
            if (n)
            {
                Fault f;
                f.kind = "oom";
                f.op = o.id;
                f.call = 1 + static_cast<int>(r.below(n));
                p.faults.push_back(f);
            }
            break;
        }
    std::vector<Fault> keep;
    for (auto &f : p.faults)
        for (auto &o : p.ops)
            if (o.id == f.op && o.name != "open" && o.name != "lopen" && o.name != "destroy" && o.name != "ldestroy" &&
                o.name != "post" && o.name != "lpost" && o.name != "find")
            {
                if (f.len <= 0 || f.len > 3)
                    f.len = 1; // the second try succeeds
                if (o.name == "close" || o.name == "lclose")
                    f.len = 1;
                keep.push_back(f);
            }
    p.faults = keep;
}
template <typename R> static void drive_c12(const Plan &p, R &c)
{
    c.oom_ok = true;
    std::string frozen;
    bool have = false;
    for (auto &o : p.ops)
    {
        bool last = (o.name == "destroy" || o.name == "ldestroy") && c.opened && !c.closed;
        c.exec(o);
        if (last && fe.illegal_in_op)
        {
            sh->nontrivial = 1; // a destructor cannot report that it had no memory to finish the file
            return;
        }
        if (c.closed && !have)
        {
            if (c.t.kind != 0)
                c.t.out().flush();
            frozen = c.t.bytes();
            have = true;
        }
    }
    if (!c.opened)
        return;
    uint64_t fired = fe.fired;
    heal();
    c.destroy();
    finish_good(c.t);
    std::string b = c.t.bytes();
    if (have && b != frozen)
        fail("closed-not-final", "the finished file changed after close (" + std::to_string(frozen.size()) + " bytes became " +
                                     std::to_string(b.size()) + ")");
    try
    {
        if constexpr (std::is_same_v<R, CopcRun>)
            verify_copc_bytes(c, b, true, true, true);
        else
            verify_laz_bytes(c, b, true, true, true);
    }
    catch (Violation &)
    {
        std::string m = sh->msg;
        sh->violated = 0;
        fail("trace-left", "the file is not what the accepted operations alone give: " + m);
    }
    Rng r(mix(p.seed, p.run) ^ 0xc12);
    if constexpr (std::is_same_v<R, CopcRun>)
        verify_copc_read(c, b, r, true, true);
    else
        verify_laz_read(c, b, r, true, true);
    sh->nontrivial = fired > 0 || sh->counters[c_ops_refused] > 0 || sh->counters[c_probe_post_close_refused] > 0;
}
static void run_c12(const Plan &p)
{
    if (is_laz(p))
    {
        LazRun c(p, "out");
        drive_c12(p, c);
    }
    else
    {
        CopcRun c(p, "out");
        drive_c12(p, c);
    }
}

// ---------------------------------------------------------------- C17
static void gen_c17(Plan &p, Rng &r)
{
    knobs(p, r, true);
    switch (r.below(5))
    {
    case 0:
    case 1:
        gen_copc_ops(p, r, 5, G_STREAMS | G_NOCLOSE | G_BAD | G_POST | G_LIVE);
        break;
    case 2:
        gen_laz_ops(p, r, 5, G_STREAMS | G_NOCLOSE | G_BAD | G_POST | G_LIVE);
        break;
    case 3:
    {
        // damaged or absent file
        bool laz = r.chance(1, 3);
        p.op(laz ? "lfile" : "file", {seed_of(r), static_cast<int64_t>(r.below(3)), 0, static_cast<int64_t>(1 + r.below(6))});
        int how = static_cast<int>(r.below(4));
        if (how == 0)
            p.op("remove", {});
        else if (how == 1)
            p.op("corrupt", {3, seed_of(r)});
        else
            for (uint64_t i = 1 + r.below(3); i--;)
                p.op("corrupt", {static_cast<int64_t>(r.chance(1, 25) ? 13 : r.chance(1, 14) ? 14 : r.below(13)), seed_of(r)});
        p.op("ropen", {static_cast<int64_t>(r.chance(2, 3) ? 0 : r.below(4)), 256, 0});
        p.op("probe", {seed_of(r)});
        p.op("rclose", {});
        break;
    }
    default:
        gen_reader(p, r, 0, false, true, 6);
        if (r.chance(1, 2))
            for (auto &o : p.ops)
                if (o.name == "ropen")
                    o.a[0] = 0;
        p.op("rclose", {});
        if (r.chance(1, 2))
            p.op("rclose", {});
    }
}
static void faults_c17(Plan &p, Rng &r)
{
    if (r.chance(1, 5))
        return;
    if (r.chance(1, 2))
        add_faults(p, r, {"oom"}, 2);
    else
        add_faults(p, r, {"open_fail", "read_eio", "read_eof", "write_eio", "write_enospc", "seek_fail", "close_fail", "flush_fail"}, 3);
}
static void scenario_c17(const Plan &p)
{
    fs.files.clear();
    fs.chop_n = 0;
    fe.init(p);
    CopcRun c(p, "out");
    LazRun l(p, "lout");
    c.io_faults = l.io_faults = c.oom_ok = l.oom_ok = true;
    ReadRun rd(p, "in");
    rd.faults_ok = true;
    bool damaged = false;
    Parsed q;
    std::string what;
    for (auto &o : p.ops)
    {
        if (c.exec(o) || l.exec(o))
            continue;
        if (o.name == "remove")
        {
            fs.files.erase("simfs:/in");
            damaged = true;
            continue;
        }
        if (o.name == "corrupt")
        {
            auto f = fs.get("simfs:/in", false);
            if (f)
                corrupt(f->data, o, parse_file(rd.f.bytes, !rd.f.laz));
            damaged = true;
            continue;
        }
        if (damaged && o.name == "ropen")
        {
            fe.begin_op(o);
            if (!fs.get("simfs:/in", false) && o.arg(0) == 1)
                continue;
            CallRes res = rd.in.open(o.arg(0) == 2 && !fs.get("simfs:/in", false) ? 0 : static_cast<int>(o.arg(0)), "in", 256, false,
                                     rd.f.laz, &what);
            trace_num("ropen", static_cast<uint64_t>(res));
            if (res != OK)
            {
                count(c_probe_open_failed_leakcheck);
                rd.in.close();
            }
            continue;
        }
        if (o.name == "probe")
        {
            if (!rd.in.is_open())
                continue;
            fe.begin_op(o);
            if (rd.f.laz)
                call([&] { rd.in.laz().GetPointData(); });
            else
            {
                call([&] { rd.in.reader().GetAllNodes(); });
                call([&] { rd.in.reader().GetAllPoints(); });
                call([&] { rd.in.reader().GetPointData(copc::VoxelKey(0, 0, 0, 0)); });
            }
            continue;
        }
        if (damaged && o.name.compare(0, 2, "q_") == 0)
            continue;
        if (o.name.compare(0, 2, "q_") == 0 || o.name == "lq")
        {
            // answers are other properties' business
            if (!rd.in.is_open())
                continue;
            fe.begin_op(o);
            if (rd.f.laz)
                call([&] { rd.in.laz().GetPointData(); });
            else
                ask(rd.in.reader(), o, rd.f.m);
            continue;
        }
        if (o.name == "ropen")
        {
            if (!rd.have_file || rd.in.is_open())
                continue;
            fe.begin_op(o);
            if (rd.in.open(static_cast<int>(o.arg(0)), "in", static_cast<int>(o.arg(1)), false, rd.f.laz, &what) != OK)
            {
                count(c_probe_open_failed_leakcheck);
                rd.in.close();
            }
            continue;
        }
        rd.exec(o);
    }
    c.destroy();
    l.destroy();
    rd.close();
}
static void run_c17(const Plan &p)
{
    HeapStats a{}, b{};
    int handles = fs.open_handles;
    for (int rep = 0; rep < 3; rep++)
    {
        try
        {
            scenario_c17(p);
        }
        catch (Violation &)
        {
            // wrong answers belong to other properties; only what this one is about is judged here
            std::string k = sh->cls;
            if (k == "unexpected-error" || k == "not-refused" || k == "closed-not-final" || k == "metadata" || k == "roundtrip" ||
                k == "counters" || k == "writer-find" || k == "add-result" || k == "open-failed")
                sh->violated = 0;
            else
                throw;
        }
        if (fs.open_handles != handles)
            fail("handle-leak", std::to_string(fs.open_handles - handles) + " file handle(s) are still open after everything was destroyed");
        HeapStats s = heap_stats();
        trace_num("heap", s.live_blocks);
        if (rep == 1)
            a = s;
        if (rep == 2)
            b = s;
    }
    count(c_probe_leakcheck_reps, 3);
    if (b.live_blocks > a.live_blocks)
        fail("memory-leak", std::to_string(b.live_blocks - a.live_blocks) + " block(s) more are live after another round of the same operations");
    sh->nontrivial = 1;
}

// ---------------------------------------------------------------- files written one after another
// Each round is a file of its own, under the same name, by objects that are gone when the next one begins.
static void gen_rounds(Plan &p, Rng &r, void (*gen)(Plan &, Rng &))
{
    Plan last;
    gen(last, r);
    p.knob = last.knob;
    auto single = [](const Plan &q) { return q.ops.size() == 1 || q.ops[0].name == "xcfg"; };
    if (!single(last) && r.chance(1, 5))
    {
        Plan q;
        if (r.chance(1, 2))
        {
            // one that hardly differs
            for (auto &o : last.ops)
                if (o.name == "open" || o.name == "lopen" || o.name == "cfg" || o.name == "lcfg" || r.chance(2, 3))
                {
                    Op &n = q.op(o.name, o.a);
                    if (o.name == "add" && n.a.size() > 9)
                        n.a[9] ^= 2;
                    if (o.name == "lwrite" && n.a.size() > 1)
                        n.a[1] ^= 2;
                }
        }
        else
            gen(q, r);
        if (!single(q))
        {
            for (auto &o : q.ops)
                p.op(o.name, o.a);
            p.op("round");
        }
    }
    for (auto &o : last.ops)
        p.op(o.name, o.a);
}
static void run_rounds(const Plan &p, void (*run)(const Plan &))
{
    Plan q;
    q.prop = p.prop;
    q.seed = p.seed;
    q.run = p.run;
    q.knob = p.knob;
    bool any = false;
    for (auto &o : p.ops)
    {
        if (o.name != "round")
        {
            q.ops.push_back(o);
            continue;
        }
        run(q);
        any = any || sh->nontrivial;
        q.ops.clear();
        count(c_probe_rounds);
    }
    run(q);
    if (any)
        sh->nontrivial = 1;
}
static void gen_c01(Plan &p, Rng &r) { gen_rounds(p, r, gen_c01_once); }
static void run_c01(const Plan &p) { run_rounds(p, run_c01_once); }
static void gen_c02(Plan &p, Rng &r) { gen_rounds(p, r, gen_c02_once); }
static void run_c02(const Plan &p) { run_rounds(p, run_c02_once); }
static void gen_c03(Plan &p, Rng &r) { gen_rounds(p, r, gen_c03_once); }
static void run_c03(const Plan &p) { run_rounds(p, run_c03_once); }
static void gen_c04(Plan &p, Rng &r) { gen_rounds(p, r, gen_c04_once); }
static void run_c04(const Plan &p) { run_rounds(p, run_c04_once); }

// ----------------------------------------------------------------
static const Prop props[] = {
    {"C01", gen_c01, legal_faults, run_c01}, {"C02", gen_c02, legal_faults, run_c02},
    {"C03", gen_c03, legal_faults, run_c03}, {"C04", gen_c04, legal_faults, run_c04},
    {"C05", gen_c05, faults_c05, run_c05},   {"C06", gen_c06, faults_c06, run_c06},
    {"C07", gen_c07, nullptr, run_c07},      {"C08", gen_c08, nullptr, run_c08},
    {"C09", gen_c09, faults_c09, run_c09},   {"C10", gen_c10, nullptr, run_c10},
    {"C11", gen_c11, faults_c11, run_c11},   {"C12", gen_c12, faults_c12, run_c12},
    {"C17", gen_c17, faults_c17, run_c17},
};
const Prop *find_prop(const std::string &id)
{
    for (auto &p : props)
        if (id == p.id)
            return &p;
    return nullptr;
}
} // namespace sim
