// Simulator core: see core.hpp.
#include "core.hpp"

#include <atomic>
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <pthread.h>
#include <sanitizer/asan_interface.h>
#include <semaphore.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim
{
const char *counter_names[] = {
#define C(x) #x,
#include "counters.inc"
#undef C
};
Shared *sh = nullptr;
bool g_verbose = false;
FaultEngine fe;
SimFS fs;
Scheduler sched;
thread_local int t_arena = 0;
static thread_local int t_guard = 0; // inside a static initialiser: plain malloc, no yields
static uint64_t g_step_limit = 400000000ull;
void set_step_limit(uint64_t n) { g_step_limit = n; }

// ---------------------------------------------------------------- plan text
std::string Plan::text() const
{
    std::ostringstream o;
    o << "plan " << prop << " seed " << seed << " run " << run << "\n";
    for (auto &k : knob)
        o << "knob " << k.first << " " << k.second << "\n";
    for (auto &op : ops)
    {
        o << "op " << op.id << " " << op.name;
        for (auto v : op.a)
            o << " " << v;
        o << "\n";
    }
    for (auto &f : faults)
        o << "fault " << f.op << " " << f.call << " " << f.kind << " " << f.arg << " " << f.len << "\n";
    for (auto &s : sw)
        o << "switch " << s.at << " " << s.to << "\n";
    return o.str();
}
bool Plan::parse(const std::string &t, Plan &p, std::string &expect)
{
    std::istringstream in(t);
    std::string line;
    bool any = false;
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string w, d;
        if (!(l >> w) || w[0] == '#')
            continue;
        if (w == "plan")
        {
            l >> p.prop >> d >> p.seed >> d >> p.run;
            any = true;
        }
        else if (w == "expect")
            std::getline(l, expect);
        else if (w == "knob")
        {
            int64_t v;
            l >> d >> v;
            p.knob[d] = v;
        }
        else if (w == "op")
        {
            Op o;
            l >> o.id >> o.name;
            int64_t v;
            while (l >> v)
                o.a.push_back(v);
            p.ops.push_back(o);
            p.nextid = std::max(p.nextid, o.id + 1);
        }
        else if (w == "fault")
        {
            Fault f;
            l >> f.op >> f.call >> f.kind >> f.arg >> f.len;
            p.faults.push_back(f);
        }
        else if (w == "switch")
        {
            Switch s;
            l >> s.at >> s.to;
            p.sw.push_back(s);
        }
        else if (w != "violation" && w != "detail")
            return false;
    }
    return any;
}

// ---------------------------------------------------------------- trace / verdicts
void trace_event(const std::string &s)
{
    Off off;
    Hash h;
    h.h = sh->trace;
    h.str(s);
    sh->trace = h.h;
    sh->ntrace++;
    if (g_verbose)
    {
        std::string o = "  " + s + "\n";
        (void)!::write(1, o.data(), o.size());
    }
}
void trace_num(const char *tag, uint64_t a, uint64_t b, uint64_t c)
{
    Off off;
    if (g_verbose)
        return trace_event(std::string(tag) + " " + std::to_string(a) + " " + std::to_string(b) + " " +
                           std::to_string(c));
    // same hash as the textual form is not needed, only the same value in every run of this binary: build the text
    trace_event(std::string(tag) + " " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c));
}
void note_violation(const std::string &cls, const std::string &msg)
{
    if (sh->violated)
        return;
    std::snprintf(sh->cls, sizeof sh->cls, "%s", cls.c_str());
    std::snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    for (char *p = sh->msg; *p; p++)
        if (*p == '\n' || *p == '\r')
            *p = ' ';
    sh->violated = 1;
}
void fail(const std::string &cls, const std::string &msg)
{
    Off off;
    note_violation(cls, msg);
    throw Violation();
}
[[noreturn]] static void die(const char *cls, const std::string &msg)
{
    Off off;
    note_violation(cls, msg);
    sh->done = 1;
    _exit(0);
}

// ---------------------------------------------------------------- allocator
static const uintptr_t ARENA = 0x200000000000ull;
static const uint64_t ARENA_SIZE = 6ull << 30;
static const uint64_t RED = 32;
struct Head
{
    uint64_t magic;
    uint64_t size;
};
static const uint64_t LIVE = 0x11ae11ae5a5a5a5aull, DEAD = 0xdeaddeaddeaddeadull;
static uint64_t a_pos = 0, a_cap_live = ~0ull, a_cap_single = ~0ull;
static bool a_desc = false, a_ready = false;
static HeapStats a_st{};
static uint64_t a_fill = 0xA5A5A5A5A5A5A5A5ull;
// With reuse, freed blocks of up to REUSE_MAX bytes are handed out again, last freed first
static const uint64_t REUSE_MAX = 8192;
static bool a_reuse = false;
static uintptr_t a_free[REUSE_MAX / 16 + 1];
// only one task runs at a time, but threads that end run their destructors by themselves
static std::atomic_flag a_busy = ATOMIC_FLAG_INIT;
struct Busy
{
    Busy()
    {
        while (a_busy.test_and_set(std::memory_order_acquire))
            ;
    }
    ~Busy() { a_busy.clear(std::memory_order_release); }
};
void heap_reuse(bool on) { a_reuse = on; }
void heap_setup(bool descending, uint64_t cap_live, uint64_t cap_single)
{
    if (!a_ready)
    {
        void *p = mmap(reinterpret_cast<void *>(ARENA), ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void *>(ARENA))
        {
            std::perror("arena");
            _exit(70);
        }
        a_ready = true;
    }
    a_desc = descending;
    a_cap_live = cap_live;
    a_cap_single = cap_single;
    a_fill = descending ? 0x5555555555555555ull : 0xA5A5A5A5A5A5A5A5ull;
}
HeapStats heap_stats() { return a_st; }
void heap_peak_reset() { a_st.peak_bytes = a_st.live_bytes; }
static inline bool in_arena(const void *p)
{
    auto u = reinterpret_cast<uintptr_t>(p);
    return u >= ARENA && u < ARENA + ARENA_SIZE;
}
static void *arena_alloc(size_t n, size_t al)
{
    if (fe.enabled)
    {
        Off off;
        if (fe.at(EV_ALLOC))
        {
            count(c_f_oom);
            throw std::bad_alloc();
        }
    }
    if (n > a_cap_single || a_st.live_bytes + n > a_cap_live)
    {
        Off off;
        die("over-allocation",
            "the library asked for " + std::to_string(n) + " bytes with " + std::to_string(a_st.live_bytes) + " live");
    }
    if (al < 16)
        al = 16;
    Busy busy;
    uint64_t room = RED + ((n + 15) & ~15ull) + al + RED;
    uint64_t unit = (n + 15) / 16;
    uintptr_t base, user;
    if (a_reuse && al == 16 && n > 0 && n <= REUSE_MAX && a_free[unit])
    {
        user = a_free[unit];
        base = user - RED;
        __asan_unpoison_memory_region(reinterpret_cast<void *>(base), room);
        a_free[unit] = *reinterpret_cast<uintptr_t *>(user);
    }
    else
    {
        if (a_pos + room > ARENA_SIZE)
            throw std::bad_alloc();
        base = a_desc ? ARENA + ARENA_SIZE - a_pos - room : ARENA + a_pos;
        user = (base + RED + al - 1) & ~(static_cast<uintptr_t>(al) - 1);
        a_pos += room;
        __asan_unpoison_memory_region(reinterpret_cast<void *>(base), room);
    }
    Head *h = reinterpret_cast<Head *>(user - sizeof(Head));
    h->magic = LIVE;
    h->size = n;
    if (n <= 4096)
        for (uint64_t i = 0; i < ((n + 7) & ~7ull); i += 8)
            *reinterpret_cast<uint64_t *>(user + i) = a_fill;
    __asan_poison_memory_region(reinterpret_cast<void *>(base), user - base);
    __asan_poison_memory_region(reinterpret_cast<void *>(user + n), base + room - user - n);
    a_st.live_blocks++;
    a_st.live_bytes += n;
    a_st.total_blocks++;
    a_st.peak_bytes = std::max(a_st.peak_bytes, a_st.live_bytes);
    return reinterpret_cast<void *>(user);
}
__attribute__((no_sanitize("address"))) static void arena_free(void *p)
{
    Head *h = reinterpret_cast<Head *>(reinterpret_cast<uintptr_t>(p) - sizeof(Head));
    if (h->magic != LIVE)
        die("memory-error", h->magic == DEAD ? "memory freed twice" : "free of a pointer that was not allocated");
    Busy busy;
    h->magic = DEAD;
    a_st.live_blocks--;
    a_st.live_bytes -= h->size;
    if (a_reuse && h->size > 0 && h->size <= REUSE_MAX)
    {
        uint64_t unit = (h->size + 15) / 16;
        *reinterpret_cast<uintptr_t *>(p) = a_free[unit];
        a_free[unit] = reinterpret_cast<uintptr_t>(p);
    }
    __asan_poison_memory_region(p, h->size ? h->size : 1);
    if (h->size >= (1u << 16))
    {
        uintptr_t a = (reinterpret_cast<uintptr_t>(p) + 4095) & ~4095ull,
                  b = (reinterpret_cast<uintptr_t>(p) + h->size) & ~4095ull;
        if (b > a)
            madvise(reinterpret_cast<void *>(a), b - a, MADV_DONTNEED);
    }
}
static void *do_new(size_t n, size_t al)
{
    if (t_arena > 0 && !t_guard)
        return arena_alloc(n, al);
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
static void do_delete(void *p)
{
    if (!p)
        return;
    if (in_arena(p))
        arena_free(p);
    else
        free(p);
}

// ---------------------------------------------------------------- faults
static int kind_class(const std::string &k)
{
    if (k == "open_fail")
        return EV_OPEN;
    if (k == "read_eio" || k == "read_eof" || k == "read_short" || k == "read_eintr")
        return EV_READ;
    if (k == "write_eio" || k == "write_enospc" || k == "write_short" || k == "write_eintr")
        return EV_WRITE;
    if (k == "seek_fail")
        return EV_SEEK;
    if (k == "close_fail" || k == "close_lost")
        return EV_CLOSE;
    if (k == "oom")
        return EV_ALLOC;
    if (k == "flush_fail")
        return EV_SYNC;
    return -1;
}
void FaultEngine::init(const Plan &p)
{
    plan = &p;
    used.assign(p.faults.size(), 0);
    active.assign(p.faults.size(), 0);
    order.clear();
    int i = 0;
    for (auto &o : p.ops)
        order[o.id] = i++;
    cls.clear();
    for (auto &f : p.faults)
        cls.push_back(kind_class(f.kind));
    fired = fired_in_op = illegal_in_op = 0;
    cur_op = 0;
    std::fill(calls, calls + 8, 0);
}
void FaultEngine::begin(int id)
{
    cur_op = id;
    auto i = order.find(id);
    cur_order = i == order.end() ? 0 : i->second;
    std::fill(calls, calls + 8, 0);
    fired_in_op = illegal_in_op = 0;
    if (plan)
        for (size_t k = 0; k < plan->faults.size(); k++)
            if (active[k] && plan->faults[k].len < 0)
            {
                auto e = order.find(static_cast<int>(-plan->faults[k].len));
                if (e != order.end() && cur_order >= e->second)
                    active[k] = 2; // healed
            }
}
void FaultEngine::begin_op(const Op &o)
{
    begin(o.id);
    count(c_ops);
}
const Fault *FaultEngine::at(int c)
{
    calls[c]++;
    if (record)
        record(cur_op, c);
    if (!plan)
        return nullptr;
    for (size_t k = 0; k < plan->faults.size(); k++)
    {
        if (cls[k] != c || active[k] == 2)
            continue;
        const Fault &f = plan->faults[k];
        if (!active[k] && f.op == cur_op && calls[c] >= f.call)
            active[k] = 1;
        if (active[k] == 1)
        {
            used[k]++;
            if (f.len > 0 && used[k] >= f.len)
                active[k] = 2;
            fired++;
            fired_in_op++;
            if (f.kind != "read_short" && f.kind != "read_eintr" && f.kind != "write_short" && f.kind != "write_eintr")
                illegal_in_op++;
            trace_num(("fault " + f.kind).c_str(), static_cast<uint64_t>(cur_op), static_cast<uint64_t>(calls[c]));
            return &f;
        }
    }
    return nullptr;
}

// ---------------------------------------------------------------- storage
std::shared_ptr<SimFile> SimFS::get(const std::string &name, bool create)
{
    auto i = files.find(name);
    if (i != files.end() && i->second->exists)
        return i->second;
    if (!create)
        return nullptr;
    auto f = std::make_shared<SimFile>();
    f->name = name;
    files[name] = f;
    return f;
}
void SimFS::reset()
{
    files.clear();
    open_handles = 0;
    opens = 0;
    chop = 0;
    chop_n = 0;
}
static uint64_t chop_len(uint64_t n)
{
    if (!fs.chop || n <= 1)
        return n;
    uint64_t r = mix(fs.chop, ++fs.chop_n);
    switch (r % 8)
    {
    case 0:
        count(c_f_legal_split);
        return 1;
    case 1:
    case 2:
        count(c_f_legal_split);
        return 1 + (r >> 8) % n;
    case 3:
        count(c_f_legal_split);
        return std::min<uint64_t>(n, 1 + (r >> 8) % 97);
    default:
        return n;
    }
}
static bool chop_eintr()
{
    if (!fs.chop)
        return false;
    bool b = mix(fs.chop, ++fs.chop_n) % 23 == 0;
    if (b)
        count(c_f_eintr);
    return b;
}
int64_t io_read(SimFile &f, uint64_t off, char *buf, uint64_t n)
{
    Off o;
    sched.yield();
    count(c_io_read);
    count(c_sim_io_us, 40 + n / 200);
    if (fe.enabled)
    {
        if (const Fault *x = fe.at(EV_READ))
        {
            if (x->kind == "read_eio")
            {
                count(c_f_read_eio);
                errno = EIO;
                return -1;
            }
            if (x->kind == "read_eof")
            {
                count(c_f_read_eof);
                return 0;
            }
            if (x->kind == "read_eintr")
            {
                count(c_f_eintr);
                errno = EINTR;
                return -1;
            }
            if (x->kind == "read_short" && n > 1)
            {
                count(c_f_read_short);
                // shorter than what is there, not only than what is asked for
                if (off < f.data.size())
                    n = std::min<uint64_t>(n, f.data.size() - off);
                n = 1 + static_cast<uint64_t>(x->arg < 0 ? -x->arg : x->arg) % n;
            }
        }
        else if (chop_eintr())
        {
            errno = EINTR;
            return -1;
        }
    }
    if (off >= f.data.size())
        return 0;
    uint64_t k = std::min<uint64_t>(n, f.data.size() - off);
    if (fe.enabled)
        k = chop_len(k);
    std::memcpy(buf, f.data.data() + off, k);
    trace_num("read", off, n, k);
    return static_cast<int64_t>(k);
}
int64_t io_write(SimFile &f, uint64_t off, const char *buf, uint64_t n)
{
    Off o;
    sched.yield();
    count(c_io_write);
    count(c_sim_io_us, 60 + n / 100);
    f.writes++;
    if (fe.enabled)
    {
        if (const Fault *x = fe.at(EV_WRITE))
        {
            if (x->kind == "write_eio")
            {
                count(c_f_write_eio);
                errno = EIO;
                return -1;
            }
            if (x->kind == "write_eintr")
            {
                count(c_f_eintr);
                errno = EINTR;
                return -1;
            }
            if (x->kind == "write_enospc")
            {
                count(c_f_write_enospc);
                uint64_t part = n > 1 ? static_cast<uint64_t>(x->arg < 0 ? -x->arg : x->arg) % n : 0;
                if (!part)
                {
                    errno = ENOSPC;
                    return -1;
                }
                n = part; // the rest of the transfer meets the next event
            }
            else if (x->kind == "write_short" && n > 1)
            {
                count(c_f_write_short);
                n = 1 + static_cast<uint64_t>(x->arg < 0 ? -x->arg : x->arg) % n;
            }
        }
        else if (chop_eintr())
        {
            errno = EINTR;
            return -1;
        }
        n = chop_len(n);
    }
    if (f.capacity >= 0 && off + n > static_cast<uint64_t>(f.capacity))
    {
        count(c_f_disk_full);
        fe.illegal_in_op++;
        fe.fired++;
        if (off >= static_cast<uint64_t>(f.capacity))
        {
            trace_num("disk-full", off, n);
            errno = ENOSPC;
            return -1;
        }
        n = static_cast<uint64_t>(f.capacity) - off;
    }
    if (off > (512u << 20))
    {
        errno = EFBIG;
        return -1;
    }
    if (f.data.size() < off + n)
        f.data.resize(off + n, 0);
    std::memcpy(&f.data[off], buf, n);
    if (f.keep_log)
        f.log.push_back({off, std::string(buf, n)});
    count(c_bytes_written, n);
    Hash h;
    h.bytes(buf, n);
    trace_num("write", off, n, h.h);
    return static_cast<int64_t>(n);
}
int io_seek()
{
    Off o;
    sched.yield();
    count(c_io_seek);
    if (fe.enabled && fe.at(EV_SEEK))
    {
        count(c_f_seek_fail);
        errno = EIO;
        return -1;
    }
    return 0;
}
int io_open(const std::string &name)
{
    Off o;
    sched.yield();
    count(c_io_open);
    trace_event("open " + name);
    if (fe.enabled && fe.at(EV_OPEN))
    {
        count(c_f_open_fail);
        errno = EMFILE;
        return -1;
    }
    return 0;
}
int io_close(SimFile &f)
{
    Off o;
    sched.yield();
    count(c_io_close);
    trace_event("close " + f.name);
    if (fe.enabled)
        if (fe.at(EV_CLOSE))
        {
            count(c_f_close_fail);
            // the error is reported and the data this handle still had in flight is lost
            if (f.writes && f.data.size() > 1)
                f.data.resize(f.data.size() / 2);
            errno = EIO;
            return -1;
        }
    return 0;
}

// ---------------------------------------------------------------- SimBuf
SimBuf::SimBuf(std::shared_ptr<SimFile> f, StreamOpts o) : f_(std::move(f)), o_(o)
{
    if (o_.bufsize > 0)
        rbuf_.resize(static_cast<size_t>(o_.bufsize));
    else
        rbuf_.resize(1);
}
SimBuf::~SimBuf() { flush(); }
void SimBuf::boom() { throw std::ios_base::failure("simulated stream failure"); }
bool SimBuf::flush()
{
    size_t done = 0;
    bool ok = true;
    while (done < wbuf_.size())
    {
        int64_t k = io_write(*f_, pos_, wbuf_.data() + done, wbuf_.size() - done);
        if (k < 0 && errno == EINTR)
            continue;
        if (k <= 0)
        {
            ok = false;
            break;
        }
        done += static_cast<size_t>(k);
        pos_ += static_cast<uint64_t>(k);
    }
    wbuf_.erase(0, done);
    if (!ok)
        wbuf_.clear(); // the data is lost, as with a failed device
    return ok;
}
uint64_t SimBuf::tell() const
{
    if (gptr())
        return rbase_ + static_cast<uint64_t>(gptr() - eback());
    return pos_ + wbuf_.size();
}
void SimBuf::drop_read()
{
    if (gptr())
    {
        pos_ = tell();
        setg(nullptr, nullptr, nullptr);
    }
}
SimBuf::int_type SimBuf::underflow()
{
    Off off;
    if (gptr() && gptr() < egptr())
        return traits_type::to_int_type(*gptr());
    drop_read();
    if (!wbuf_.empty() && !flush())
    {
        if (o_.throws)
            boom();
        return traits_type::eof();
    }
    for (;;)
    {
        int64_t k = io_read(*f_, pos_, &rbuf_[0], rbuf_.size());
        if (k < 0 && errno == EINTR)
            continue;
        if (k < 0 && o_.throws)
            boom();
        if (k <= 0)
            return traits_type::eof();
        rbase_ = pos_;
        setg(&rbuf_[0], &rbuf_[0], &rbuf_[0] + k);
        return traits_type::to_int_type(*gptr());
    }
}
std::streamsize SimBuf::xsgetn(char *s, std::streamsize n)
{
    Off off;
    std::streamsize done = 0;
    while (done < n)
    {
        if (gptr() && gptr() < egptr())
        {
            std::streamsize k = std::min<std::streamsize>(n - done, egptr() - gptr());
            std::memcpy(s + done, gptr(), static_cast<size_t>(k));
            setg(eback(), gptr() + k, egptr());
            done += k;
            continue;
        }
        if (n - done >= static_cast<std::streamsize>(rbuf_.size()))
        {
            drop_read();
            if (!wbuf_.empty() && !flush())
                break;
            int64_t k = io_read(*f_, pos_, s + done, static_cast<uint64_t>(n - done));
            if (k < 0 && errno == EINTR)
                continue;
            if (k < 0 && o_.throws)
                boom();
            if (k <= 0)
                break;
            pos_ += static_cast<uint64_t>(k);
            done += k;
            continue;
        }
        if (traits_type::eq_int_type(underflow(), traits_type::eof()))
            break;
    }
    return done;
}
SimBuf::int_type SimBuf::overflow(int_type c)
{
    if (traits_type::eq_int_type(c, traits_type::eof()))
        return sync() == 0 ? traits_type::not_eof(c) : c;
    char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
}
std::streamsize SimBuf::xsputn(const char *s, std::streamsize n)
{
    Off off;
    drop_read();
    wbuf_.append(s, static_cast<size_t>(n));
    if (wbuf_.size() > static_cast<size_t>(o_.bufsize) && !flush())
    {
        if (o_.throws)
            boom();
        return 0;
    }
    return n;
}
SimBuf::pos_type SimBuf::seekoff(off_type offs, std::ios_base::seekdir dir, std::ios_base::openmode)
{
    Off off;
    if (io_seek() != 0)
    {
        if (o_.throws)
            boom();
        return pos_type(off_type(-1));
    }
    if (dir == std::ios_base::cur && offs == 0)
        return pos_type(static_cast<off_type>(tell()));
    if (!wbuf_.empty() && !flush())
    {
        if (o_.throws)
            boom();
        return pos_type(off_type(-1));
    }
    int64_t base = dir == std::ios_base::beg   ? 0
                   : dir == std::ios_base::cur ? static_cast<int64_t>(tell())
                                               : static_cast<int64_t>(f_->data.size());
    int64_t to;
    if (__builtin_add_overflow(base, static_cast<int64_t>(offs), &to) || to < 0)
        return pos_type(off_type(-1));
    setg(nullptr, nullptr, nullptr);
    pos_ = static_cast<uint64_t>(to);
    return pos_type(static_cast<off_type>(to));
}
SimBuf::pos_type SimBuf::seekpos(pos_type p, std::ios_base::openmode which)
{
    return seekoff(off_type(p), std::ios_base::beg, which);
}
int SimBuf::sync()
{
    Off off;
    if (fe.enabled && fe.at(EV_SYNC))
    {
        count(c_f_flush_fail);
        wbuf_.clear();
        if (o_.throws)
            boom();
        return -1;
    }
    if (!wbuf_.empty() && !flush())
    {
        if (o_.throws)
            boom();
        return -1;
    }
    return 0;
}

// ---------------------------------------------------------------- scheduler
namespace
{
struct Task
{
    sem_t sem;
    bool done = false;
    std::function<void()> fn;
};
std::vector<Task *> tasks;
thread_local int t_task = -1;
int cur_task = -1;
sem_t main_sem;
const Plan *sch_plan;
uint64_t since_switch = 0;
} // namespace
int this_task() { return t_task; }
void set_this_task(int t) { t_task = t; }
static void hand_over(int to)
{
    int me = t_task;
    cur_task = to;
    sched.switches++;
    count(c_task_switches);
    since_switch = 0;
    sem_post(&tasks[static_cast<size_t>(to)]->sem);
    sem_wait(&tasks[static_cast<size_t>(me)]->sem);
}
static int next_live(int from)
{
    int n = static_cast<int>(tasks.size());
    for (int i = 1; i <= n; i++)
        if (!tasks[static_cast<size_t>((from + i) % n)]->done)
            return (from + i) % n;
    return -1;
}
void Scheduler::yield()
{
    if (!active || t_task < 0 || t_guard)
        return;
    points++;
    since_switch++;
    int to = -1;
    while (nsw < sch_plan->sw.size() && sch_plan->sw[nsw].at <= points)
    {
        to = sch_plan->sw[nsw].to;
        nsw++;
    }
    if (to >= 0 || since_switch > 3000000)
    {
        if (to < 0)
            to = next_live(t_task);
        to = to % static_cast<int>(tasks.size());
        if (tasks[static_cast<size_t>(to)]->done)
            to = next_live(to);
        if (to >= 0 && to != t_task)
        {
            Off o;
            trace_num("switch", points, static_cast<uint64_t>(to));
            hand_over(to);
        }
        else
            since_switch = 0;
    }
}
void Scheduler::yield_blocked()
{
    Off o;
    int to = next_live(t_task);
    if (to == t_task || to < 0)
        die("deadlock", "a task waits for a lock that nobody can release");
    if (++sh->call_steps > g_step_limit)
        die("deadlock", "tasks wait for each other's locks");
    trace_num("blocked", static_cast<uint64_t>(t_task), static_cast<uint64_t>(to));
    hand_over(to);
}
void Scheduler::run(const Plan &p, std::vector<std::function<void()>> fns)
{
    sch_plan = &p;
    points = 0;
    nsw = 0;
    switches = 0;
    since_switch = 0;
    sem_init(&main_sem, 0, 0);
    std::vector<pthread_t> th(fns.size());
    for (auto &f : fns)
    {
        Task *t = new Task;
        sem_init(&t->sem, 0, 0);
        t->fn = f;
        tasks.push_back(t);
    }
    for (size_t i = 0; i < fns.size(); i++)
        if (pthread_create(
                &th[i], nullptr,
                [](void *a) -> void *
                {
                    int me = static_cast<int>(reinterpret_cast<intptr_t>(a));
                    Task *t = tasks[static_cast<size_t>(me)];
                    sem_wait(&t->sem);
                    t_task = me;
                    t->fn();
                    t_task = -1;
                    t->done = true;
                    int to = next_live(me);
                    if (to < 0)
                        sem_post(&main_sem);
                    else
                    {
                        cur_task = to;
                        since_switch = 0;
                        sem_post(&tasks[static_cast<size_t>(to)]->sem);
                    }
                    return nullptr;
                },
                reinterpret_cast<void *>(static_cast<intptr_t>(i))) != 0)
            _exit(71);
    active = true;
    cur_task = 0;
    sem_post(&tasks[0]->sem);
    sem_wait(&main_sem);
    active = false;
    for (auto &t : th)
        pthread_join(t, nullptr);
    for (auto t : tasks)
        delete t;
    tasks.clear();
    count(c_yield_points, points);
}
} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- global replacements
void *operator new(size_t n) { return do_new(n, 16); }
void *operator new[](size_t n) { return do_new(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a)); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept
{
    try
    {
        return do_new(n, 16);
    }
    catch (...)
    {
        return nullptr;
    }
}
void *operator new[](size_t n, const std::nothrow_t &) noexcept
{
    try
    {
        return do_new(n, 16);
    }
    catch (...)
    {
        return nullptr;
    }
}
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

extern "C"
{
    // Function-local statics: only one task runs at a time and none is preempted inside an initialiser.
    int __cxa_guard_acquire(int64_t *g)
    {
        if (*reinterpret_cast<volatile char *>(g))
            return 0;
        t_guard++;
        return 1;
    }
    void __cxa_guard_release(int64_t *g) noexcept
    {
        *reinterpret_cast<volatile char *>(g) = 1;
        t_guard--;
    }
    void __cxa_guard_abort(int64_t *) noexcept { t_guard--; }

    // Basic-block callback of the instrumented library objects.
    __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc()
    {
        if (t_arena <= 0 || !sh)
            return;
        uint64_t pc = reinterpret_cast<uint64_t>(__builtin_return_address(0));
        static thread_local uint32_t prev = 0;
        uint32_t ix = static_cast<uint32_t>((pc * 0x9e3779b97f4a7c15ull) >> 40);
        sh->cov[ix & 0x1ffff] = 1;
        sh->edge[(ix ^ prev) & 0xffff] = 1;
        prev = (ix >> 1) & 0x7fffff;
        sh->steps++;
        if (++sh->call_steps > g_step_limit)
        {
            Off off;
            die("hang", "the call did not end within the step limit");
        }
        if (sched.active)
            sched.yield();
    }

    typedef int (*lockfn)(pthread_mutex_t *);
    int pthread_mutex_lock(pthread_mutex_t *m)
    {
        static lockfn real = reinterpret_cast<lockfn>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
        if (sched.active && t_task >= 0)
        {
            int r;
            while ((r = pthread_mutex_trylock(m)) == EBUSY)
                sched.yield_blocked();
            return r;
        }
        return real(m);
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t *m)
    {
        static auto real =
            reinterpret_cast<int (*)(pthread_rwlock_t *)>(dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"));
        if (sched.active && t_task >= 0)
        {
            int r;
            while ((r = pthread_rwlock_tryrdlock(m)) == EBUSY)
                sched.yield_blocked();
            return r;
        }
        return real(m);
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t *m)
    {
        static auto real =
            reinterpret_cast<int (*)(pthread_rwlock_t *)>(dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"));
        if (sched.active && t_task >= 0)
        {
            int r;
            while ((r = pthread_rwlock_trywrlock(m)) == EBUSY)
                sched.yield_blocked();
            return r;
        }
        return real(m);
    }
    int pthread_once(pthread_once_t *o, void (*f)(void))
    {
        static auto real =
            reinterpret_cast<int (*)(pthread_once_t *, void (*)(void))>(dlsym(RTLD_NEXT, "pthread_once"));
        t_guard++;
        int r = real(o, f);
        t_guard--;
        return r;
    }
}

// ---------------------------------------------------------------- libc file calls for simulated paths
namespace
{
struct Handle
{
    std::shared_ptr<SimFile> f;
    uint64_t pos = 0;
    FILE *fp = nullptr;
};
Handle *handles[1024];
Handle *handle(int fd) { return fd >= 0 && fd < 1024 ? handles[fd] : nullptr; }
bool is_sim(const char *p) { return std::strncmp(p, "simfs:", 6) == 0; }

FILE *sim_fopen(const char *path, const char *mode)
{
    Off off;
    bool w = std::strpbrk(mode, "wa+") != nullptr;
    if (io_open(path) != 0)
        return nullptr;
    auto f = fs.get(path, w && mode[0] != 'r');
    if (!f)
    {
        errno = ENOENT;
        return nullptr;
    }
    int fd = ::open("/dev/null", O_RDWR);
    if (fd < 0 || fd >= 1024)
        _exit(72);
    FILE *fp = fdopen(fd, "r+");
    if (mode[0] == 'w')
        f->data.clear();
    if (w && !f->based)
    {
        f->based = true;
        f->base = f->data;
    }
    Handle *h = new Handle;
    h->f = f;
    h->fp = fp;
    h->pos = mode[0] == 'a' ? f->data.size() : 0;
    handles[fd] = h;
    fs.open_handles++;
    fs.opens++;
    return fp;
}
template <typename F> F real_fn(const char *n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
} // namespace
extern "C"
{
    FILE *fopen(const char *path, const char *mode)
    {
        static auto real = real_fn<FILE *(*)(const char *, const char *)>("fopen");
        return is_sim(path) ? sim_fopen(path, mode) : real(path, mode);
    }
    FILE *fopen64(const char *path, const char *mode)
    {
        static auto real = real_fn<FILE *(*)(const char *, const char *)>("fopen64");
        return is_sim(path) ? sim_fopen(path, mode) : real(path, mode);
    }
    int fclose(FILE *fp)
    {
        static auto real = real_fn<int (*)(FILE *)>("fclose");
        int fd = fileno(fp);
        if (Handle *h = handle(fd))
        {
            Off off;
            int r = io_close(*h->f), e = errno;
            handles[fd] = nullptr;
            delete h;
            fs.open_handles--;
            real(fp);
            errno = e;
            return r;
        }
        return real(fp);
    }
    ssize_t read(int fd, void *buf, size_t n)
    {
        static auto real = real_fn<ssize_t (*)(int, void *, size_t)>("read");
        if (Handle *h = handle(fd))
        {
            int64_t k = io_read(*h->f, h->pos, static_cast<char *>(buf), n);
            if (k > 0)
                h->pos += static_cast<uint64_t>(k);
            return k;
        }
        return real(fd, buf, n);
    }
    ssize_t write(int fd, const void *buf, size_t n)
    {
        static auto real = real_fn<ssize_t (*)(int, const void *, size_t)>("write");
        if (Handle *h = handle(fd))
        {
            int64_t k = io_write(*h->f, h->pos, static_cast<const char *>(buf), n);
            if (k > 0)
                h->pos += static_cast<uint64_t>(k);
            return k;
        }
        return real(fd, buf, n);
    }
    ssize_t writev(int fd, const struct iovec *v, int c)
    {
        static auto real = real_fn<ssize_t (*)(int, const struct iovec *, int)>("writev");
        if (Handle *h = handle(fd))
        {
            Off off;
            std::string all;
            for (int i = 0; i < c; i++)
                all.append(static_cast<const char *>(v[i].iov_base), v[i].iov_len);
            int64_t k = io_write(*h->f, h->pos, all.data(), all.size());
            if (k > 0)
                h->pos += static_cast<uint64_t>(k);
            return k;
        }
        return real(fd, v, c);
    }
    static off64_t sim_lseek(Handle *h, off64_t o, int wh)
    {
        if (io_seek() != 0)
            return -1;
        int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? static_cast<int64_t>(h->pos)
                                                           : static_cast<int64_t>(h->f->data.size());
        int64_t to;
        if (__builtin_add_overflow(base, static_cast<int64_t>(o), &to) || to < 0)
        {
            errno = EINVAL;
            return -1;
        }
        h->pos = static_cast<uint64_t>(to);
        return to;
    }
    off64_t lseek64(int fd, off64_t o, int wh) noexcept
    {
        static auto real = real_fn<off64_t (*)(int, off64_t, int)>("lseek64");
        if (Handle *h = handle(fd))
            return sim_lseek(h, o, wh);
        return real(fd, o, wh);
    }
    off_t lseek(int fd, off_t o, int wh) noexcept
    {
        static auto real = real_fn<off_t (*)(int, off_t, int)>("lseek");
        if (Handle *h = handle(fd))
            return sim_lseek(h, o, wh);
        return real(fd, o, wh);
    }
}
