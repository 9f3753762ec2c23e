// Simulator core: PRNG, plan, run context, allocator control, simulated files, scheduler.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <streambuf>
#include <string>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(int num, int den) { return below(static_cast<uint64_t>(den)) < static_cast<uint64_t>(num); }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x632be59bd9b4e019ull));
    r.next();
    return r.next();
}
struct Hash
{
    uint64_t h = 1469598103934665603ull;
    void bytes(const void *p, size_t n)
    {
        const unsigned char *c = static_cast<const unsigned char *>(p);
        for (size_t i = 0; i < n; i++)
        {
            h ^= c[i];
            h *= 1099511628211ull;
        }
    }
    void num(uint64_t v) { bytes(&v, 8); }
    void str(const std::string &s)
    {
        num(s.size());
        bytes(s.data(), s.size());
    }
};

// ---------------------------------------------------------------- plan
struct Op
{
    int id = 0;
    std::string name;
    std::vector<int64_t> a;
    int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};
// Fires at the `call`-th seam event (of the kind's class) inside operation `op`, for `len` consecutive events
// (len < 0: until the operation numbered -len has started, i.e. a lasting fault that heals there; 0: for ever).
struct Fault
{
    int op = 0;
    int call = 0;
    std::string kind;
    int64_t arg = 0;
    int64_t len = 1;
};
struct Switch
{
    uint64_t at;
    int to;
};
struct Plan
{
    std::string prop;
    uint64_t seed = 0;
    uint64_t run = 0;
    std::map<std::string, int64_t> knob;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<Switch> sw;
    int64_t k(const std::string &n, int64_t d = 0) const
    {
        auto i = knob.find(n);
        return i == knob.end() ? d : i->second;
    }
    int nextid = 1;
    Op &op(const std::string &n, std::vector<int64_t> a = {})
    {
        Op o;
        o.id = nextid++;
        o.name = n;
        o.a = std::move(a);
        ops.push_back(o);
        return ops.back();
    }
    std::string text() const;
    static bool parse(const std::string &t, Plan &p, std::string &expect);
};

// ---------------------------------------------------------------- results shared with the supervisor
enum Counter
{
#define C(x) c_##x,
#include "counters.inc"
#undef C
    c_COUNT
};
extern const char *counter_names[];
struct Shared
{
    volatile int done;
    volatile int violated;
    char cls[96];
    char msg[1600];
    uint64_t trace;
    uint64_t ntrace;
    uint64_t cov_sig;
    uint64_t steps;
    uint64_t call_steps; // since the last call into the library began
    uint64_t nontrivial; // set by the workload when the run exercised what the property is about
    uint64_t counters[c_COUNT];
    unsigned char cov[1 << 17];
    unsigned char edge[1 << 16];
};
extern Shared *sh;
inline void count(Counter c, uint64_t n = 1) { sh->counters[c] += n; }

// ---------------------------------------------------------------- trace
void trace_event(const std::string &s);
void trace_num(const char *tag, uint64_t a, uint64_t b = 0, uint64_t c = 0);
extern bool g_verbose;

struct Violation
{
}; // thrown (not a std::exception) to leave the workload
[[noreturn]] void fail(const std::string &cls, const std::string &msg);
void note_violation(const std::string &cls, const std::string &msg); // keeps the first
#define CHECK_THAT(c, cls, m)                                                                                          \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
        {                                                                                                              \
            std::ostringstream os__;                                                                                   \
            os__ << m;                                                                                                 \
            sim::fail(cls, os__.str());                                                                                \
        }                                                                                                              \
    } while (0)

// ---------------------------------------------------------------- allocator
extern thread_local int t_arena; // >0: operator new serves the simulated heap
struct Lib                       // library code runs inside this scope
{
    int prev;
    Lib() : prev(t_arena) { t_arena = 1; }
    ~Lib() { t_arena = prev; }
};
struct Off // simulator code called back from library code
{
    int prev;
    Off() : prev(t_arena) { t_arena = 0; }
    ~Off() { t_arena = prev; }
};
struct HeapStats
{
    uint64_t live_blocks, live_bytes, total_blocks, peak_bytes;
};
HeapStats heap_stats();
void heap_setup(bool descending, uint64_t cap_live, uint64_t cap_single);
void heap_reuse(bool on);
void heap_peak_reset();

// ---------------------------------------------------------------- current operation / faults
struct FaultEngine
{
    const Plan *plan = nullptr;
    bool enabled = false;
    int cur_op = 0; // id
    int cur_order = 0;
    std::map<int, int> order; // id -> position
    int calls[8] = {0};
    std::vector<int64_t> used;
    std::vector<char> active;
    std::vector<int> cls;
    void (*record)(int op, int cls) = nullptr;
    uint64_t fired = 0;
    uint64_t fired_in_op = 0;
    uint64_t illegal_in_op = 0; // faults other than legal splitting
    void init(const Plan &p);
    void begin_op(const Op &o);
    void begin(int id);
    // returns the fault to apply at this event or nullptr
    const Fault *at(int cls);
};
enum EvClass
{
    EV_OPEN,
    EV_READ,
    EV_WRITE,
    EV_SEEK,
    EV_CLOSE,
    EV_ALLOC,
    EV_SYNC
};
extern FaultEngine fe;

// ---------------------------------------------------------------- simulated storage
struct WriteRec
{
    uint64_t off;
    std::string bytes;
};
struct SimFile
{
    std::string name;
    std::string data;
    bool keep_log = false;
    std::vector<WriteRec> log;
    std::string base;   // what it held once it was opened for writing
    bool based = false;
    uint64_t writes = 0;
    bool exists = true;
    int64_t capacity = -1; // disk full beyond this size
    bool lost_on_close = false;
    std::string dirty_base; // for faults that lose data on close
};
struct SimFS
{
    std::map<std::string, std::shared_ptr<SimFile>> files;
    int open_handles = 0;
    int opens = 0;
    uint64_t chop = 0; // 0: whole transfers; else seed of the splitting policy
    uint64_t chop_n = 0;
    std::shared_ptr<SimFile> get(const std::string &name, bool create);
    void reset();
};
extern SimFS fs;
// The I/O primitives every seam goes through; -1 with errno on error.
int64_t io_read(SimFile &f, uint64_t off, char *buf, uint64_t n);
int64_t io_write(SimFile &f, uint64_t off, const char *buf, uint64_t n);
int io_seek();
int io_open(const std::string &name);
int io_close(SimFile &f);

// Stream buffer over a simulated file (what a caller-supplied stream looks like).
struct StreamOpts
{
    int bufsize = 256;      // 0: unbuffered
    bool throws = false;    // a failing transfer throws instead of returning eof
};
class SimBuf : public std::streambuf
{
    std::shared_ptr<SimFile> f_;
    StreamOpts o_;
    std::string rbuf_, wbuf_;
    uint64_t rbase_ = 0; // file offset of eback()
    uint64_t pos_ = 0;   // file offset of the write buffer / unbuffered position
    bool flush();
    uint64_t tell() const;
    void drop_read();
    [[noreturn]] void boom();

  public:
    SimBuf(std::shared_ptr<SimFile> f, StreamOpts o);
    ~SimBuf() override;

  protected:
    int_type underflow() override;
    std::streamsize xsgetn(char *s, std::streamsize n) override;
    int_type overflow(int_type c) override;
    std::streamsize xsputn(const char *s, std::streamsize n) override;
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which) override;
    pos_type seekpos(pos_type p, std::ios_base::openmode which) override;
    int sync() override;
};

// ---------------------------------------------------------------- scheduler (real threads, one runs at a time)
struct Scheduler
{
    bool active = false;
    uint64_t points = 0; // yield points passed
    size_t nsw = 0;      // next switch
    uint64_t switches = 0;
    void run(const Plan &p, std::vector<std::function<void()>> tasks);
    void yield();
    void yield_blocked();
};
extern Scheduler sched;
int this_task();          // of the calling thread, -1 outside
void set_this_task(int t); // the thread acts for that task
void set_step_limit(uint64_t n);
} // namespace sim
