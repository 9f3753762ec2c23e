// Supervisor: generates plans from seeds, executes each one in a child process of its own, classifies the outcome,
// replays and minimises failing plans.
#include "work.hpp"

#include <array>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

extern "C" const char *__asan_default_options()
{
    return "alloc_dealloc_mismatch=0:detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
           "handle_abort=0:symbolize=1:malloc_context_size=12:fast_unwind_on_malloc=1:print_legend=0:quarantine_size_mb=8";
}

namespace
{
struct PlanBuf
{
    volatile uint64_t len;
    char text[8u << 20];
};
PlanBuf *pb;
int errfd = -1;
double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
void publish(const Plan &p)
{
    std::string t = p.text();
    if (t.size() >= sizeof pb->text)
        _exit(73);
    std::memcpy(pb->text, t.data(), t.size());
    pb->len = t.size();
}
struct Outcome
{
    bool bad = false;     // violation
    bool harness = false; // the harness itself failed
    std::string cls, msg;
    uint64_t trace = 0, ntrace = 0;
};
void on_terminate()
{
    Off off;
    std::string w = "std::terminate was called";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (std::exception &x)
        {
            w += std::string(": ") + x.what();
        }
        catch (...)
        {
        }
    }
    note_violation("terminate", w);
    sh->done = 1;
    _exit(0);
}
void child_setup()
{
    signal(SIGALRM, SIG_DFL);
    (void)!ftruncate(errfd, 0);
    lseek(errfd, 0, SEEK_SET);
    dup2(errfd, 2);
    std::set_terminate(on_terminate);
    // the library may print
    static std::ofstream null("/dev/null");
    std::cout.rdbuf(null.rdbuf());
    std::cerr.rdbuf(null.rdbuf());
}
std::string slurp_err()
{
    std::string s;
    char b[4096];
    lseek(errfd, 0, SEEK_SET);
    ssize_t n;
    while ((n = ::read(errfd, b, sizeof b)) > 0 && s.size() < (1u << 20))
        s.append(b, static_cast<size_t>(n));
    return s;
}
template <typename F> Outcome in_child(F &&f, double timeout)
{
    std::memset(sh, 0, sizeof *sh);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0)
    {
        std::perror("fork");
        exit(2);
    }
    if (pid == 0)
    {
        child_setup();
        f();
        sh->done = 1;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    bool timedout = false;
    // wait with a deadline
    useconds_t nap = 100;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (r < 0 && errno != EINTR)
        {
            std::perror("waitpid");
            exit(2);
        }
        if (now() - t0 > timeout)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            timedout = true;
            break;
        }
        usleep(nap);
        if (nap < 2000)
            nap += nap / 4;
    }
    Outcome o;
    o.trace = sh->trace;
    o.ntrace = sh->ntrace;
    if (timedout)
    {
        o.bad = true;
        o.cls = "hang";
        o.msg = "the run did not end within " + std::to_string(static_cast<int>(timeout)) + " s";
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done)
    {
        if (sh->violated)
        {
            o.bad = true;
            o.cls = sh->cls;
            o.msg = sh->msg;
            if (o.cls == "harness")
                o.harness = true;
        }
        return o;
    }
    std::string err = slurp_err();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    {
        o.bad = true;
        o.cls = "memory-error";
        size_t k = err.find("SUMMARY: ");
        o.msg = k == std::string::npos ? "sanitizer error" : err.substr(k + 9, err.find('\n', k) - k - 9);
        if (o.msg.find("stack-overflow") != std::string::npos)
            o.cls = "stack-overflow";
        // frames inside the library
        size_t at = 0;
        int n = 0;
        while (n < 4 && (at = err.find("\n    #", at)) != std::string::npos)
        {
            size_t e = err.find('\n', at + 1);
            std::string l = err.substr(at + 5, e - at - 5);
            at = e == std::string::npos ? err.size() : e;
            size_t c = l.find("copc::");
            if (c != std::string::npos || l.find("lazperf::") != std::string::npos)
            {
                size_t i = l.find(" in ");
                std::string fn = i == std::string::npos ? l : l.substr(i + 4);
                if (fn.size() > 160)
                    fn.resize(160);
                o.msg += " | " + fn;
                n++;
            }
        }
        return o;
    }
    o.bad = true;
    if (WIFSIGNALED(st))
    {
        o.cls = "crash";
        o.msg = std::string("the process died of signal ") + strsignal(WTERMSIG(st));
        return o;
    }
    o.harness = true;
    o.cls = "harness";
    o.msg = "child ended with status " + std::to_string(WEXITSTATUS(st)) + " " + err.substr(0, 400);
    return o;
}
void note_event(int op, int cls)
{
    if (cls >= 0 && cls < 8)
        g_profile.ev[op][static_cast<size_t>(cls)]++;
}
void run_plan(const Plan &p, const Prop &prop)
{
    fs.reset();
    heap_setup(p.k("desc") != 0, 2ull << 30, 1ull << 30);
    heap_reuse(p.k("reuse") != 0);
    fs.chop = static_cast<uint64_t>(p.k("chop", 0));
    fe.init(p);
    fe.enabled = true;
    try
    {
        prop.run(p);
    }
    catch (Violation &)
    {
    }
    fe.enabled = false;
}
uint64_t hash_str(const std::string &s)
{
    Hash h;
    h.str(s);
    return h.h;
}
const double TIMEOUT = 90;
std::string generate(const Prop &prop, uint64_t seed, uint64_t run, Outcome &o)
{
    pb->len = 0;
    o = in_child(
        [&]
        {
            Rng r(mix(mix(seed, hash_str(prop.id)), run));
            Plan p;
            p.prop = prop.id;
            p.seed = seed;
            p.run = run;
            prop.gen(p, r);
            publish(p);
            if (prop.faults)
            {
                fe.record = note_event;
                run_plan(p, prop);
                fe.record = nullptr;
                g_profile.written = sh->counters[c_bytes_written];
                Rng rf(mix(mix(mix(seed, hash_str(prop.id)), run), 77));
                prop.faults(p, rf);
                publish(p);
            }
        },
        TIMEOUT);
    return std::string(pb->text, pb->len);
}
Outcome execute(const std::string &text, double timeout = TIMEOUT)
{
    return in_child(
        [&]
        {
            Plan p;
            std::string ex;
            if (!Plan::parse(text, p, ex))
            {
                note_violation("harness", "unreadable plan");
                return;
            }
            const Prop *prop = find_prop(p.prop);
            if (!prop)
            {
                note_violation("harness", "unknown property " + p.prop);
                return;
            }
            run_plan(p, *prop);
        },
        timeout);
}

// ---------------------------------------------------------------- minimisation
struct Mini
{
    std::string cls;
    Plan best;
    double until;
    int tries = 0;
    bool still(const Plan &c)
    {
        if (now() > until)
            return false;
        tries++;
        Outcome o = execute(c.text(), 30);
        if (o.bad && !o.harness && o.cls == cls)
        {
            best = c;
            return true;
        }
        return false;
    }
    template <typename V, typename Get> bool shrink_list(Get get)
    {
        bool any = false;
        size_t n = get(best).size();
        for (size_t chunk = std::max<size_t>(n / 2, 1);; chunk /= 2)
        {
            for (size_t i = 0; i < get(best).size();)
            {
                Plan c = best;
                V &v = get(c);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + static_cast<long>(i), v.begin() + static_cast<long>(e));
                if (still(c))
                    any = true;
                else
                    i += chunk;
                if (now() > until)
                    return any;
            }
            if (chunk <= 1)
                break;
        }
        return any;
    }
    void go()
    {
        for (int round = 0; round < 6 && now() < until; round++)
        {
            bool any = false;
            any |= shrink_list<std::vector<Fault>>([](Plan &p) -> std::vector<Fault> & { return p.faults; });
            any |= shrink_list<std::vector<Op>>([](Plan &p) -> std::vector<Op> & { return p.ops; });
            any |= shrink_list<std::vector<Switch>>([](Plan &p) -> std::vector<Switch> & { return p.sw; });
            std::vector<std::string> ks;
            for (auto &k : best.knob)
                if (k.second != 0 && k.first != "log" && k.first != "flushclose")
                    ks.push_back(k.first);
            for (auto &k : ks)
            {
                Plan c = best;
                c.knob[k] = 0;
                if (k == "capacity" || k == "cut" || k == "torn" || k == "pick")
                    continue;
                any |= still(c);
            }
            for (size_t i = 0; i < best.faults.size(); i++)
                if (best.faults[i].len != 1)
                {
                    Plan c = best;
                    c.faults[i].len = 1;
                    any |= still(c);
                }
            for (size_t i = 0; i < best.ops.size(); i++)
                for (size_t j = 0; j < best.ops[i].a.size() && now() < until; j++)
                {
                    int64_t v = best.ops[i].a[j];
                    for (int64_t t : {int64_t(0), int64_t(1), v / 2})
                    {
                        if (t == v || (v >= 0 && t >= v))
                            continue;
                        Plan c = best;
                        c.ops[i].a[j] = t;
                        if (still(c))
                        {
                            any = true;
                            break;
                        }
                    }
                }
            if (!any)
                break;
        }
    }
};
std::string read_file(const char *path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
std::string hex(uint64_t v)
{
    char b[32];
    std::snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(v));
    return b;
}
std::string esc(const std::string &s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            o += '\\';
        if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126)
            o += '?';
        else
            o += c;
    }
    return o;
}
} // namespace

int main(int argc, char **argv)
{
    if (!getenv("SIM_REEXEC"))
    {
        setenv("SIM_REEXEC", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        rlimit rl{16u << 20, 16u << 20};
        setrlimit(RLIMIT_STACK, &rl);
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        execv("/proc/self/exe", argv);
    }
    sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    pb = static_cast<PlanBuf *>(mmap(nullptr, sizeof(PlanBuf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    errfd = memfd_create("err", 0);
    if (argc < 3)
        return 64;
    std::string mode = argv[1];
    auto arg = [&](const char *n, const char *d) -> std::string
    {
        for (int i = 3; i + 1 < argc; i++)
            if (std::string(argv[i]) == n)
                return argv[i + 1];
        return d;
    };
    if (mode == "exec")
    {
        std::string text = read_file(argv[2]);
        for (int i = 3; i < argc; i++)
            if (std::string(argv[i]) == "-v")
                g_verbose = true;
        Outcome o = execute(text);
        if (o.bad)
        {
            std::printf("class %s\ntrace %s %llu\ndetail %s\n", o.cls.c_str(), hex(o.trace).c_str(),
                        static_cast<unsigned long long>(o.ntrace), o.msg.c_str());
            if (g_verbose)
                std::printf("%s\n", slurp_err().c_str());
            return o.harness ? 2 : 1;
        }
        std::printf("class ok\ntrace %s %llu\n", hex(o.trace).c_str(), static_cast<unsigned long long>(o.ntrace));
        return 0;
    }
    if (mode == "min")
    {
        Mini m;
        std::string text = read_file(argv[2]), ex;
        if (!Plan::parse(text, m.best, ex))
            return 2;
        Outcome o = execute(text);
        if (!o.bad || o.harness)
            return 3;
        m.cls = o.cls;
        m.until = now() + std::atof(arg("--time", "60").c_str());
        m.go();
        o = execute(m.best.text());
        std::ostringstream out;
        out << "# class " << o.cls << "\n# trace " << hex(o.trace) << " " << o.ntrace << "\n# detail " << o.msg << "\n# "
            << m.tries << " executions while minimising\n"
            << m.best.text();
        std::string to = arg("--out", "");
        if (to.empty())
            std::printf("%s", out.str().c_str());
        else
            std::ofstream(to) << out.str();
        return o.bad ? 0 : 4;
    }
    if (mode == "gen")
    {
        const Prop *p = find_prop(argv[2]);
        if (!p)
            return 64;
        Outcome o;
        std::string t =
            generate(*p, std::strtoull(arg("--seed", "1").c_str(), nullptr, 10), std::strtoull(arg("--run", "0").c_str(), nullptr, 10), o);
        std::printf("%s", t.c_str());
        if (o.bad)
            std::printf("# while profiling: %s %s\n", o.cls.c_str(), o.msg.c_str());
        return 0;
    }
    if (mode != "run")
        return 64;
    const Prop *prop = find_prop(argv[2]);
    if (!prop)
        return 64;
    uint64_t seed = std::strtoull(arg("--seed", "1").c_str(), nullptr, 10);
    uint64_t from = std::strtoull(arg("--from", "0").c_str(), nullptr, 10);
    uint64_t to = std::strtoull(arg("--to", "100").c_str(), nullptr, 10);
    uint64_t stride = std::strtoull(arg("--stride", "1").c_str(), nullptr, 10);
    double deadline = now() + std::atof(arg("--deadline", "100000").c_str());
    uint64_t recheck = std::strtoull(arg("--recheck", "40").c_str(), nullptr, 10);
    int maxviol = std::atoi(arg("--maxviol", "12").c_str());
    std::string out = arg("--out", "/tmp/simout");
    std::set<uint64_t> traces, sigs;
    std::vector<uint64_t> tot(c_COUNT);
    std::vector<unsigned char> cov(sizeof sh->cov), edge(sizeof sh->edge);
    uint64_t runs = 0, nontriv = 0, steps = 0, faultruns = 0, rechecked = 0;
    std::map<std::string, int> classes;
    std::set<std::string> kinds;
    int viol = 0;
    std::string harness;
    bool cut = false;
    for (uint64_t i = from; i < to; i += stride)
    {
        if (now() > deadline)
        {
            cut = true;
            break;
        }
        Outcome g;
        std::string text = generate(*prop, seed, i, g);
        if (text.empty())
        {
            harness = "generation of run " + std::to_string(i) + " failed: " + g.cls + " " + g.msg;
            break;
        }
        Outcome o = execute(text);
        runs++;
        for (int c = 0; c < c_COUNT; c++)
            tot[static_cast<size_t>(c)] += sh->counters[c];
        steps += sh->steps;
        uint64_t f = 0;
        for (int c = c_f_open_fail; c <= c_f_mid_corrupt; c++)
            f += sh->counters[c];
        faultruns += f > 0;
        Hash ch;
        for (size_t k = 0; k < cov.size(); k++)
            if (sh->cov[k])
            {
                cov[k] = 1;
                ch.num(k);
            }
        for (size_t k = 0; k < edge.size(); k++)
            edge[k] |= sh->edge[k];
        if (sh->nontrivial)
        {
            nontriv++;
            traces.insert(o.trace);
            sigs.insert(ch.h);
        }
        if (o.harness)
        {
            harness = "run " + std::to_string(i) + ": " + o.msg;
            std::ofstream(out + ".harness.plan") << text;
            break;
        }
        if (!o.bad && recheck && i % recheck == 0)
        {
            uint64_t n = sh->ntrace;
            Outcome o2 = execute(text);
            rechecked++;
            if (o2.bad || o2.trace != o.trace || o2.ntrace != n)
            {
                harness = "run " + std::to_string(i) + " is not repeatable";
                std::ofstream(out + ".harness.plan") << text;
                break;
            }
        }
        if (o.bad)
        {
            viol++;
            classes[o.cls]++;
            std::string kind = o.cls + " ";
            for (char c : o.msg.substr(0, 70))
                if (!(c >= '0' && c <= '9'))
                    kind += c;
            if (kinds.insert(kind).second)
            {
                std::ofstream v(out + ".viol." + std::to_string(kinds.size()));
                v << "# class " << o.cls << "\n# run " << i << "\n# detail " << o.msg << "\n" << text;
            }
            if (viol >= maxviol)
                break;
        }
    }
    std::ofstream j(out + ".json");
    j << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"steps\":" << steps << ",\"fault_runs\":" << faultruns
      << ",\"violations\":" << viol << ",\"cut\":" << (cut ? "true" : "false") << ",\"rechecked\":" << rechecked << ",\"harness\":\""
      << esc(harness) << "\",\"counters\":{";
    for (int c = 0; c < c_COUNT; c++)
        j << (c ? "," : "") << "\"" << counter_names[c] << "\":" << tot[static_cast<size_t>(c)];
    j << "},\"classes\":{";
    bool first = true;
    for (auto &c : classes)
    {
        j << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second;
        first = false;
    }
    j << "},\"traces\":[";
    first = true;
    for (auto t : traces)
    {
        j << (first ? "" : ",") << "\"" << hex(t) << "\"";
        first = false;
    }
    j << "],\"sigs\":[";
    first = true;
    for (auto t : sigs)
    {
        j << (first ? "" : ",") << "\"" << hex(t) << "\"";
        first = false;
    }
    j << "]}\n";
    j.close();
    std::ofstream(out + ".cov", std::ios::binary).write(reinterpret_cast<char *>(cov.data()), static_cast<long>(cov.size()));
    std::ofstream(out + ".edge", std::ios::binary).write(reinterpret_cast<char *>(edge.data()), static_cast<long>(edge.size()));
    return 0;
}
