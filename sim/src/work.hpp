// Shared pieces of the workloads: calls into the library, conversions, writer and reader drivers.
#pragma once
#include "model.hpp"

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

namespace sim
{
enum CallRes
{
    OK = 0,
    THREW = 1,
    NOMEM = 2
};
// Runs library code; every ordinary exception is an answer, anything else a violation.
template <typename F> CallRes call(F &&f, std::string *what = nullptr)
{
    sh->call_steps = 0;
    try
    {
        Lib lib;
        f();
        return OK;
    }
    catch (Violation &)
    {
        throw;
    }
    catch (std::bad_alloc &)
    {
        if (what)
            *what = "bad_alloc";
        return NOMEM;
    }
    catch (std::exception &e)
    {
        if (what)
            *what = e.what();
        return THREW;
    }
    catch (...)
    {
        fail("foreign-exception", "something other than a std::exception was thrown");
    }
}
inline copc::VoxelKey vk(const K &k) { return copc::VoxelKey(k.d, k.x, k.y, k.z); }
inline K mk(const copc::VoxelKey &k) { return K{k.d, k.x, k.y, k.z}; }
inline copc::Vector3 v3(const double *d) { return copc::Vector3(d[0], d[1], d[2]); }

copc::las::EbVlr to_ebvlr(const std::vector<Eb> &eb);
void eb_from_vlr(const copc::las::EbVlr &v, std::vector<Eb> &out);
void set_header(copc::las::LasHeader &h, const Meta &m);
// call inside a Lib scope
std::shared_ptr<copc::CopcConfigWriter> make_copc_cfg(const Meta &m);
std::shared_ptr<copc::las::LazConfigWriter> make_laz_cfg(const Meta &m);
void apply_meta(copc::CopcConfigWriter &c, const Meta &m);
void apply_meta(copc::las::LazConfigWriter &c, const Meta &m);
void meta_from_header(const copc::las::LasHeader &h, Meta &m);
Meta meta_from(const copc::CopcConfig &c);
Meta meta_from(const copc::las::LazConfig &c);
copc::las::Points to_points(const std::string &recs, const Meta &m);
std::string from_points(const copc::las::Points &p, const Meta &m);
void change_meta(Rng &r, Meta &m); // what a user may change on a live configuration
Meta apply_overrides(const Meta &m, int mask, uint64_t seed, Meta &over);

inline std::string vs(const std::vector<char> &v) { return std::string(v.begin(), v.end()); }

// An output or input the library works on.
struct Target
{
    int kind = 0; // 0 path, 1 SimBuf stream, 2 stringstream, 3 user-opened fstream
    std::string name;
    std::shared_ptr<SimFile> file;
    std::unique_ptr<SimBuf> buf;
    std::unique_ptr<std::ostream> os;
    std::unique_ptr<std::istream> is;
    std::unique_ptr<std::stringstream> ss;
    std::unique_ptr<std::fstream> fst;
    void open_out(int kind, const std::string &name, int bufsize, bool throws, int mask);
    std::ostream &out();
    bool stream_failed() const; // the caller can see that the stream is bad
    bool finish();              // what a careful caller does after Close: flush (and close) own streams; true if all good
    std::string bytes() const;
};
struct Input
{
    int kind = 1;
    std::shared_ptr<SimFile> file;
    std::unique_ptr<SimBuf> buf;
    std::unique_ptr<std::istream> is;
    std::unique_ptr<copc::Reader> r;
    std::unique_ptr<copc::FileReader> fr;
    std::unique_ptr<copc::laz::LazReader> lr;
    std::unique_ptr<copc::laz::LazFileReader> lfr;
    // opens; returns the call result
    CallRes open(int kind, const std::string &name, int bufsize, bool throws, bool laz, std::string *what = nullptr);
    copc::Reader &reader() { return fr ? *fr : *r; }
    copc::laz::LazReader &laz() { return lfr ? *lfr : *lr; }
    bool is_open() const { return r || fr || lr || lfr; }
    void close();
    ~Input() { close(); }
};
void put_file(const std::string &name, const std::string &bytes);

// ---- reader queries
struct ReadModel
{
    Meta m;
    Parsed p;
    std::string bytes;
    std::map<K, std::string> recs;
};
ReadModel read_model(const std::string &bytes, const Meta &m, const std::map<K, NodeM> *nodes);
// Canonical answer of a query; THREW answers carry no text.
struct Answer
{
    CallRes res = OK;
    std::string text, what;
    bool operator==(const Answer &o) const { return res == o.res && (res != OK || text == o.text); }
};
Answer ask(copc::Reader &r, const Op &q, const Meta &m);
Answer expect(const ReadModel &m, const Op &q);
// A point query over a file whose points lie outside their nodes has no stated answer.
bool unspecified(const ReadModel &m, const Op &q);
std::string node_text(const EntryP &e);
void gen_query(Plan &p, Rng &r, const ReadModel &m, bool spatial, bool nav);

// ---- writers driven by plan operations
struct CopcRun
{
    const Plan &p;
    std::string name;
    Meta user, live; // the caller's configuration, the writer's configuration
    std::map<K, NodeM> nodes;
    std::set<K> pages; // pages that hold nodes
    bool skip_bad = false, oom_ok = false, io_faults = false, stop_on_error = false;
    bool opened = false, closed = false, close_threw = false;
    int threw = 0;          // operations that threw without being told to
    bool silent = false;    // nothing that failed was visible so far
    uint64_t points = 0;
    Target t;
    std::shared_ptr<copc::CopcConfigWriter> cfg;
    std::unique_ptr<copc::Writer> w;
    std::unique_ptr<copc::FileWriter> fw;
    std::shared_ptr<copc::CopcConfigWriter> live_cfg;
    bool stopped = false;
    bool check_find = false;
    std::string frozen; // bytes when closed
    CopcRun(const Plan &pl, std::string n) : p(pl), name(std::move(n)) {}
    ~CopcRun();
    copc::Writer &W() { return fw ? *fw : *w; }
    bool have() const { return w || fw; }
    bool exec(const Op &o); // false if the op is not one of these
    void destroy();
    void run_all();
    Meta expected_meta() const { return live; }
    void failed(const Op &o, CallRes r, const std::string &what);
};
struct LazRun
{
    const Plan &p;
    std::string name;
    Meta user, live;
    std::vector<std::string> chunks;
    bool skip_bad = false, oom_ok = false, io_faults = false, stop_on_error = false;
    bool opened = false, closed = false, close_threw = false, stopped = false;
    int threw = 0;
    uint64_t points = 0;
    Target t;
    std::shared_ptr<copc::las::LazConfigWriter> cfg, live_cfg;
    std::unique_ptr<copc::laz::LazWriter> w;
    std::unique_ptr<copc::laz::LazFileWriter> fw;
    std::string frozen;
    LazRun(const Plan &pl, std::string n) : p(pl), name(std::move(n)) {}
    ~LazRun();
    copc::laz::LazWriter &W() { return fw ? *fw : *w; }
    bool have() const { return w || fw; }
    bool exec(const Op &o);
    void destroy();
    void run_all();
    void failed(const Op &o, CallRes r, const std::string &what);
};
// Reads the file with the library and compares with the model; class prefix names what is wrong.
void verify_copc_read(const CopcRun &c, const std::string &bytes, Rng &r, bool data, bool meta);
void verify_laz_read(const LazRun &c, const std::string &bytes, Rng &r, bool data, bool meta);
void verify_copc_bytes(const CopcRun &c, const std::string &bytes, bool structure, bool meta, bool data);
void verify_laz_bytes(const LazRun &c, const std::string &bytes, bool structure, bool meta, bool data);
void gen_copc_ops(Plan &p, Rng &r, int size, int flags);
void gen_laz_ops(Plan &p, Rng &r, int size, int flags);
enum
{
    G_LIVE = 1,    // live configuration changes, config from readers, overrides
    G_BAD = 2,     // refused operations
    G_POST = 4,    // operations after close
    G_NOCLOSE = 8, // sometimes leave closing to the destructor
    G_FIND = 16,
    G_HEAVY = 32,
    G_WIDE = 128, // records of a kilobyte or more: keep the counts down
    G_STREAMS = 64, // only targets whose writes go through the simulated storage
};

// ---- properties
struct Prop
{
    const char *id;
    void (*gen)(Plan &, Rng &);            // operations
    void (*faults)(Plan &, Rng &);         // uses the profile of a fault-free run; may be null
    void (*run)(const Plan &);             // executes and judges
};
const Prop *find_prop(const std::string &id);

// profile of the fault-free run: events per operation and class, write-log length, yield points
struct Profile
{
    std::map<int, std::array<int, 8>> ev;
    uint64_t yields = 0;
    uint64_t written = 0;
};
extern Profile g_profile;
void add_faults(Plan &p, Rng &r, const std::vector<std::string> &kinds, int max);
} // namespace sim
