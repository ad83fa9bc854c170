// Runs: one simulated execution per forked child; search, replay, minimisation.
#include "world.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <sys/time.h>
#include <ctime>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <exception>
#include <cxxabi.h>
#include <sched.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/prctl.h>

extern "C" char __libc_single_threaded;
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);

using namespace sim;
using namespace world;

static Result* R;

// ---------------------------------------------------------------- which observation breaks which property
static std::map<std::string, std::set<std::string>> g_rel;
static void rel(const char* cls, const char* props) {
    std::istringstream s(props);
    std::string p;
    while (s >> p) g_rel[cls].insert(p);
}
static void rel_init() {
    rel("kf1-wedged", "C09");
    rel("wrong-value", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C15 C17");
    rel("wrong-args", "C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C15 C17");
    rel("wrong-error", "C01 C06 C10 C11 C12");
    rel("dup-outcome", "C02 C03 C05 C06 C07 C08 C09 C10 C11 C15 C17");
    rel("no-outcome", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C15 C17");
    rel("broken-promise", "C02 C05 C06 C07 C08 C09 C10 C11 C15 C17");
    rel("late", "C02 C04 C05 C06 C07 C08 C09 C10 C11 C13 C17");
    rel("api-threw", "C01 C02 C06 C07 C08 C09 C10 C11 C12 C15 C16 C17");
    rel("dup-exec", "C01 C02 C03 C04 C06 C08 C09 C10");
    rel("success-not-executed", "C01 C02 C03 C04 C06 C08 C09 C10 C11 C12 C17");
    rel("exec-after-failure", "C02 C03");
    rel("stale-exec", "C01 C07 C08 C09");
    rel("not-served", "C02 C04 C05 C06 C07 C08 C09 C10 C11 C12 C17");
    rel("spurious-failure", "C01 C02 C03 C05 C06 C07 C08 C09 C10 C11 C12 C15 C17");
    rel("early-timeout", "C02 C04 C06 C13");
    rel("probe-failed", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C15 C16 C17");
    rel("uninit-hang", "C02 C05 C06 C07 C08 C09 C10 C11 C15 C17");
    rel("sync-hang", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C13 C15 C17");
    rel("hang", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C17");
    rel("still-init", "C07");
    rel("exec-after-uninit", "C02 C07 C08");
    rel("cb-after-uninit", "C02 C07");
    rel("call-ok-after-uninit", "C07");
    rel("init-failed", "C07 C08 C09 C11 C14 C15 C16 C17");
    rel("init-not-clean", "C16");
    rel("init-rules", "C16");
    rel("queue-open", "C04");
    rel("getter", "C15 C16 C17");
    rel("leak", "C14 C16");
    rel("fifo", "C04");
    rel("registry", "C12");
    rel("race", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17");
    rel("deadlock", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15 C16 C17");
    rel("crash", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17");
    rel("terminate", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17");
    rel("memory", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17");
    rel("sync-misuse", "C02 C04 C05 C07 C11 C12 C15 C16");
}
static std::string g_prop;
static bool relevant(const char* c) {
    if (!strncmp(c, "harness", 7) || !strcmp(c, "unsupported")) return true;
    static const bool all = getenv("VSIM_ALL") != nullptr;
    if (all) return true;
    auto it = g_rel.find(c);
    return it == g_rel.end() || it->second.count(g_prop);
}

// ---------------------------------------------------------------- child
static void on_terminate() {
    ++in_sim;
    const char* what = "no active exception";
    std::string w;
    if (std::type_info* t = abi::__cxa_current_exception_type()) {
        w = t->name();
        try { throw; } catch (std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {}
        what = w.c_str();
    }
    violation_fatal("terminate", "std::terminate was called in process %d (%s); by%s", cur_thr ? cur_thr->proc : -1, what, backtrace_str().c_str());
}
static void on_signal(int sig, siginfo_t* si, void*) {
    static volatile int nested;
    if (nested++) real_exit_group(99);
    ++in_sim;
    R->crash_sig = sig;
    violation_fatal(sig == SIGABRT ? "terminate" : "crash", "signal %d (%s) at address %p in process %d; by%s", sig, strsignal(sig), si->si_addr, cur_thr ? cur_thr->proc : -1, backtrace_str().c_str());
}
static void on_prof(int, siginfo_t*, void*) {
    static volatile int nested;
    if (nested++) real_exit_group(99);
    ++in_sim;
    violation_fatal("hang", "30 s of processor time without an end (busy loop) in process %d; by%s", cur_thr ? cur_thr->proc : -1, backtrace_str().c_str());
}
static void child(const Plan& plan, const std::vector<Dev>* devs, FILE* tracef) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    prctl(78 /* PR_FUTEX_HASH */, 1 /* SET_SLOTS */, 0, 0, 0);   // no per-process futex hash: its resizing keeps the memory of ended processes for seconds
    { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) dup2(fd, 1); }
    alarm(200);
    static Plan pl;
    pl = plan;
    P = &pl;
    g_prop = pl.prop;
    G.cfg = pl.cfg;
    G.res = R;
    if (devs) {
        G.replay = true;
        for (const Dev& d : *devs) {
            if (d.kind == D_MEM || d.kind == D_CRASHM) G.rep_mem[d.lid].push_back(d);
            else G.rep[{((u64)d.kind << 32) | d.lid, d.n}] = d.val;
        }
        for (auto& p : G.rep_mem) std::sort(p.second.begin(), p.second.end(), [](const Dev& a, const Dev& b) { return a.n < b.n; });
    }
    if (tracef) { G.tracing = true; G.tracef = tracef; }
    __libc_single_threaded = 0;
    stack_t ss; static char sst[65536];
    ss.ss_sp = sst; ss.ss_size = sizeof sst; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    sa.sa_sigaction = on_prof;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 30;
    setitimer(ITIMER_PROF, &it, nullptr);
    std::set_terminate(on_terminate);
    cls_relevant = relevant;
    mem_child_init();
    sys_child_init();
    img_setup();
    sched_init();
    for (int i = 0; i < MAXP; i++) G.proc[i].alive = i < pl.nproc || i == 15;
    G.on_crash = [](int p) { o_crash(p); };
    if (!(pl.flags & FL_KF1)) G.crash_ok = [](int p) { return !sem_held_foreign(p, nullptr); };
    g_active = true;
    try {
        switch (pl.mode) {
            case 0: run_world(); break;
            case 1: run_mq(); break;
            case 2: run_timed(); break;
            case 3: run_initfail(); break;
        }
    } catch (std::exception& e) {
        ++in_sim;
        violation_fatal("harness-exception", "exception in the control thread: %s", e.what());
    }
    ++in_sim;
    std::string c = counters_json();
    snprintf(R->extra, sizeof R->extra, "%s", c.c_str());
    finish(1);
}
// returns: 1 ok, 2 violation, 3 skip, 4 child failed (no verdict)
static int run_one(const Plan& plan, const std::vector<Dev>* devs, const char* tracefile = nullptr) {
    memset((void*)R, 0, offsetof(Result, dev));
    R->extra[0] = 0; R->nstat = 0;
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(3); }
    if (p == 0) {
        FILE* f = tracefile ? fopen(tracefile, "w") : nullptr;
        child(plan, devs, f);
        _exit(98);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (R->done == 0 || (R->done == 2 && WIFSIGNALED(st))) {
        snprintf(R->msg, sizeof R->msg, "child ended without a result (status 0x%x)", st);
        return 4;
    }
    return R->done;
}

// ---------------------------------------------------------------- replay files
static std::string devs_to_text(const std::vector<Dev>& v) {
    std::ostringstream o;
    for (const Dev& d : v) o << "dev " << dk_name[d.kind] << " p" << (d.lid >> 16) << "." << ((d.lid >> 8) & 255) << "." << (d.lid & 255) << " " << d.n << " " << d.val << "\n";
    return o.str();
}
static std::vector<Dev> devs_from_text(const std::string& text) {
    std::vector<Dev> v;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        char k[32]; unsigned a, b, c; unsigned long n; long val;
        if (sscanf(line.c_str(), "dev %31s p%u.%u.%u %lu %ld", k, &a, &b, &c, &n, &val) != 6) continue;
        Dev d; memset(&d, 0, sizeof d);
        for (int i = 1; i < D_NK; i++) if (!strcmp(k, dk_name[i])) d.kind = i;
        d.lid = a << 16 | b << 8 | c; d.n = n; d.val = val;
        v.push_back(d);
    }
    return v;
}
static std::vector<Dev> result_devs() { return std::vector<Dev>(R->dev, R->dev + R->ndev); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

struct Out { std::string cls, msg, trace; u64 sh, eh; };
static Out out() { return Out{R->cls, R->msg, R->trace, R->st.sched_hash, R->st.ev_hash}; }

static std::string one_line(std::string s) { for (char& c : s) if (c == '\n') c = ' '; return s; }
static std::string symbolize(std::string s) {   // pc:0x... -> function (file:line)
    char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (n < 0) return s;
    exe[n] = 0;
    std::set<std::string> pcs;
    for (size_t i = 0; (i = s.find("pc:0x", i)) != std::string::npos; i++) {
        size_t e = i + 5; while (e < s.size() && isxdigit(s[e])) e++;
        pcs.insert(s.substr(i + 3, e - i - 3));
        if (pcs.size() > 60) break;
    }
    if (pcs.empty()) return s;
    extern char __executable_start;
    std::string cmd = std::string("addr2line -Cfspe ") + exe;
    std::vector<std::string> order(pcs.begin(), pcs.end());
    for (auto& p : order) { char b[40]; snprintf(b, sizeof b, " 0x%lx", strtoul(p.c_str(), 0, 16) + (unsigned long)&__executable_start - 1); cmd += b; }
    FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    if (!f) return s;
    std::map<std::string, std::string> m;
    char line[2000];
    for (auto& p : order) {
        if (!fgets(line, sizeof line, f)) break;
        std::string l = line;
        while (!l.empty() && l.back() == '\n') l.pop_back();
        size_t at = l.rfind(" at ");
        std::string fn = at == std::string::npos ? l : l.substr(0, at), loc = at == std::string::npos ? "" : l.substr(at + 4);
        size_t par = fn.find('('); if (par != std::string::npos && par > 0) fn = fn.substr(0, par);
        if (fn.size() > 70) fn = "..." + fn.substr(fn.size() - 66);
        m[p] = fn + "@" + loc;
    }
    pclose(f);
    std::string o;
    for (size_t i = 0; i < s.size();) {
        if (s.compare(i, 5, "pc:0x") == 0) {
            size_t e = i + 5; while (e < s.size() && isxdigit(s[e])) e++;
            std::string k = s.substr(i + 3, e - i - 3);
            o += m.count(k) ? m[k] : s.substr(i, e - i);
            i = e;
        } else o += s[i++];
    }
    return o;
}
static void write_replay(const std::string& file, const Plan& p, const std::vector<Dev>& devs, const Out& o, const std::string& note, bool by_seed = false) {
    std::ofstream f(file);
    f << "# veigar simulation replay: run with   tools/check.py --replay FILE\n# " << note << "\n# class: " << o.cls << "\n# " << one_line(symbolize(o.msg)) << "\n";
    std::istringstream t(symbolize(o.trace));
    std::string l;
    while (std::getline(t, l)) f << "#   " << l << "\n";
    f << "expect " << o.cls << "\n";
    if (by_seed) f << "by_seed\n" << plan_to_text(p);   // too many decisions to list them: the seed repeats them
    else f << plan_to_text(p) << devs_to_text(devs);
}

// ---------------------------------------------------------------- minimisation
struct Cand { Plan p; std::vector<Dev> d; };
static bool reproduces(const Plan& p, const std::vector<Dev>& d, const std::string& cls) { return run_one(p, &d) == 2 && cls == R->cls; }
static int nops(const Plan& p) { int n = (int)p.ctl.size(); for (auto& t : p.threads) n += (int)t.ops.size(); return n; }
template <class T, class F> static bool ddmin(std::vector<T>& v, F test, double end) {   // test(candidate)
    bool any = false;
    size_t n = 2;
    while (!v.empty() && mono() < end) {
        size_t chunk = std::max<size_t>(1, (v.size() + n - 1) / n);
        bool red = false;
        for (size_t i = 0; i < v.size() && mono() < end; i += chunk) {
            std::vector<T> c(v.begin(), v.begin() + i);
            c.insert(c.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
            if (test(c)) { v = c; red = any = true; n = std::max<size_t>(2, n - 1); break; }
        }
        if (!red) { if (chunk == 1) break; n = std::min(v.size(), n * 2); }
    }
    return any;
}
static void minimise(Cand& c, const std::string& cls, double end) {
    // no decisions at all?
    { std::vector<Dev> none; if (reproduces(c.p, none, cls)) c.d.clear(); }
    for (int round = 0; round < 6 && mono() < end; round++) {
        size_t before = c.d.size() * 4 + nops(c.p);
        // kinds of decisions
        for (int k = 1; k < D_NK && mono() < end; k++) {
            std::vector<Dev> x; for (auto& d : c.d) if (d.kind != k) x.push_back(d);
            if (x.size() < c.d.size() && reproduces(c.p, x, cls)) c.d = x;
        }
        // operations: threads, then single ones
        for (size_t t = 0; t < c.p.threads.size() && mono() < end; t++) {
            if (c.p.threads[t].ops.empty()) continue;
            Plan q = c.p; q.threads[t].ops.clear();
            if (reproduces(q, c.d, cls)) { c.p = q; continue; }
            ddmin(c.p.threads[t].ops, [&](const std::vector<WOp>& o) { Plan q = c.p; q.threads[t].ops = o; return reproduces(q, c.d, cls); }, end);
        }
        ddmin(c.p.ctl, [&](const std::vector<WOp>& o) { Plan q = c.p; q.ctl = o; return reproduces(q, c.d, cls); }, end);
        ddmin(c.d, [&](const std::vector<Dev>& d) { return reproduces(c.p, d, cls); }, end);
        // smaller numbers
        for (size_t t = 0; t < c.p.threads.size() && mono() < end; t++)
            for (size_t i = 0; i < c.p.threads[t].ops.size() && mono() < end; i++) {
                WOp& o = c.p.threads[t].ops[i];
                if (o.op == W_CALL && o.e > 4) { Plan q = c.p; q.threads[t].ops[i].e = 1; if (reproduces(q, c.d, cls)) c.p = q; }
                if (o.op == W_CALL && o.c != 0) { Plan q = c.p; q.threads[t].ops[i].c = 0; if (reproduces(q, c.d, cls)) c.p = q; }
            }
        for (int k = 0; k < 3 && mono() < end; k++) if (c.p.knob[k] > 1) { Plan q = c.p; q.knob[k] = 1; if (reproduces(q, c.d, cls)) c.p = q; }
        if (c.d.size() * 4 + nops(c.p) >= before) break;
    }
}

// ---------------------------------------------------------------- worker
static u64 max_points, max_mems;
static void add(Stats& a, const Stats& b) {
    a.points += b.points; if (b.points > max_points) max_points = b.points; if (b.mems > max_mems) max_mems = b.mems; a.mems += b.mems; a.switches += b.switches;
    for (int i = 0; i < D_NK; i++) a.fired[i] += b.fired[i];
    for (int i = 0; i < OP_NKINDS; i++) a.ops[i] += b.ops[i];
    a.lock_timeouts += b.lock_timeouts; a.sem_timeouts += b.sem_timeouts; a.eintr += b.eintr; a.spur += b.spur; a.shm_moves += b.shm_moves; a.threads += b.threads;
    a.procs_crashed += b.procs_crashed; a.jumps += b.jumps; a.stalls += b.stalls; a.fails += b.fails; a.allocfails += b.allocfails;
    a.crash_in_lock += b.crash_in_lock; a.crash_deferred += b.crash_deferred; a.allocs += b.allocs; a.frees += b.frees; a.vtime += b.vtime;
}
static void merge_extra(std::map<std::string, i64>& m, const char* s) {
    while ((s = strchr(s, '"'))) {
        const char* e = strchr(s + 1, '"');
        if (!e) return;
        m[std::string(s + 1, e)] += atoll(e + 2);
        s = e + 1;
    }
}
static std::string plan_summary(const Plan& p) {
    std::ostringstream o;
    o << p.nproc << " processes;";
    for (auto& w : p.insts) o << " ch" << w.chan << "@p" << w.proc << "(" << w.cap << "x" << w.msg << ")";
    for (auto& t : p.threads) {
        o << "; thread@p" << t.proc << ":";
        for (auto& w : t.ops) { o << " " << opk_name[w.op] << "(" << w.a << "," << w.b << "," << w.c << "," << w.d << "," << w.e << "," << w.f << ")"; }
    }
    o << "; control:";
    for (auto& w : p.ctl) o << " " << opk_name[w.op] << "(" << w.a << "," << w.b << "," << w.c << ")";
    o << " -> " << R->st.points << " scheduling points, " << R->st.switches << " switches, " << R->ndev << " decisions, " << R->st.vtime / 1000000 << " simulated ms, schedule hash " << std::hex << R->st.sched_hash;
    return o.str();
}
static int worker(int argc, char** argv) {
    // worker PROP FROM STRIDE SECONDS OUT.json REPLAYDIR MINSEC [max] [stop-on-first=1]
    std::string prop = argv[2], outf = argv[6], rdir = argv[7];
    u64 from = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10);
    double secs = atof(argv[5]), minsec = atof(argv[8]);
    u64 max = argc > 9 ? strtoull(argv[9], 0, 10) : ~0ull;
    bool stop = argc > 10 ? atoi(argv[10]) : 1;
    int kf = argc > 11 ? atoi(argv[11]) : 0;
    Stats tot; memset((void*)&tot, 0, sizeof tot);
    std::map<std::string, i64> extra, foreign;
    std::set<u64> hashes;
    u64 runs = 0, skips = 0, fails = 0, dets = 0, viol = 0, nondet = 0, inexact = 0, trivial = 0;
    std::string samples;
    std::string records;
    double t0 = mono();
    for (u64 i = 0; i < max && mono() - t0 < secs; i++) {
        u64 seed = from + i * stride;
        Plan p;
        gen_plan(p, prop, seed, kf);
        int r = run_one(p, nullptr);
        runs++;
        add(tot, R->st);
        if (R->ndev > 0) hashes.insert(R->st.sched_hash); else trivial++;   // no decision of the scheduler or fault fired: the default schedule
        if (i < 2) samples += (samples.empty() ? "" : ",") + std::string("\"seed ") + std::to_string(seed) + ": " + plan_summary(p) + "\"";
        merge_extra(extra, R->extra);
        if (R->foreign) { std::istringstream s(R->foreign_cls); std::string w; while (s >> w) foreign[w]++; }
        if (r == 3) { skips++; if (R->msg[0] && !R->foreign) foreign[std::string("skip: ") + one_line(R->msg)]++; }
        if (r == 4) {
            fails++; foreign[std::string("failed: ") + one_line(R->msg) + " seed " + std::to_string(seed)]++;
        }
        if (r == 1 && (i % 25) == 0) {   // the same seed again: exactly the same run
            u64 a = R->st.sched_hash, b = R->st.ev_hash;
            int r2 = run_one(p, nullptr);
            dets++;
            if (r2 != r || R->st.sched_hash != a || R->st.ev_hash != b) { nondet++; foreign["NONDETERMINISTIC seed " + std::to_string(seed)]++; }
        }
        if (r == 2) {
            Out o = out();
            std::vector<Dev> d = result_devs();
            bool over = R->devover;
            viol++;
            // the same seed must give the same violation, and so must its recorded decisions
            int r2 = run_one(p, nullptr);
            bool same = r2 == 2 && o.cls == R->cls, exact = same && o.msg == R->msg && o.eh == R->st.ev_hash;
            if (same && !exact) inexact++;
            std::string file = rdir + "/" + prop + "-" + std::to_string(seed) + ".replay";
            bool rep = reproduces(p, d, o.cls), by_seed = !rep && over && same;
            Cand c{p, d};
            std::string note = "seed " + std::to_string(seed) + ", " + std::to_string(d.size()) + " decisions, " + std::to_string(nops(p)) + " operations";
            if (same && rep && !by_seed && minsec > 0) {
                minimise(c, o.cls, mono() + minsec);
                if (reproduces(c.p, c.d, o.cls)) { o = out(); note += "; minimised to " + std::to_string(c.d.size()) + " decisions, " + std::to_string(nops(c.p)) + " operations"; }
                else { c.p = p; c.d = d; }
            }
            if (by_seed) { rep = true; note += "; too many decisions for a list, repeated by the seed"; }
            write_replay(file, c.p, c.d, o, note, by_seed);
            if (!same || !rep) { nondet++; foreign[std::string(same ? "UNREPLAYABLE" : "NONDETERMINISTIC") + " violation " + o.cls + " seed " + std::to_string(seed)]++; }
            auto esc = [](const std::string& s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((u8)ch < 32 || (u8)ch > 126) r += ' '; else r += ch; } return r; };
            if (!records.empty()) records += ",";
            records += "{\"seed\":" + std::to_string(seed) + ",\"cls\":\"" + esc(o.cls) + "\",\"msg\":\"" + esc(symbolize(o.msg)) + "\",\"replay\":\"" + file + "\",\"same\":" + (same ? "true" : "false") + ",\"replays\":" + (rep ? "true" : "false") +
                       ",\"after_s\":" + std::to_string(mono() - t0) + ",\"note\":\"" + esc(note) + "\"}";
            if (stop && same && rep) break;
        }
    }
    std::ofstream f(outf + ".tmp");
    f << "{\"runs\":" << runs << ",\"skips\":" << skips << ",\"failed\":" << fails << ",\"distinct\":" << hashes.size() << ",\"seconds\":" << (mono() - t0) << ",\"determinism_checks\":" << dets << ",\"nondeterministic\":" << nondet
      << ",\"inexact\":" << inexact << ",\"trivial\":" << trivial << ",\"samples\":[" << samples << "],\"violations\":[" << records << "],\"virtual_s\":" << tot.vtime / 1e9 << ",\"points\":" << tot.points << ",\"max_points\":" << max_points << ",\"max_mems\":" << max_mems << ",\"mem_accesses\":" << tot.mems << ",\"switches\":" << tot.switches;
    f << ",\"decisions\":{"; for (int i = 1; i < D_NK; i++) f << (i > 1 ? "," : "") << "\"" << dk_name[i] << "\":" << tot.fired[i]; f << "}";
    f << ",\"ops\":{"; bool first = true; for (int i = 1; i < OP_NKINDS; i++) if (tot.ops[i]) { f << (first ? "" : ",") << "\"" << op_name[i] << "\":" << tot.ops[i]; first = false; } f << "}";
    f << ",\"faults\":{\"stalls\":" << tot.stalls << ",\"interrupted_waits\":" << tot.eintr << ",\"spurious_wakeups\":" << tot.spur << ",\"clock_steps\":" << tot.jumps << ",\"crashes\":" << tot.procs_crashed << ",\"failed_calls\":" << tot.fails
      << ",\"failed_allocations\":" << tot.allocfails << ",\"lock_timeouts\":" << tot.lock_timeouts << ",\"overlapping_moves\":" << tot.shm_moves << ",\"crashes_deferred\":" << tot.crash_deferred << "}";
    f << ",\"counters\":{"; first = true; for (auto& e : extra) { f << (first ? "" : ",") << "\"" << e.first << "\":" << e.second; first = false; } f << "}";
    f << ",\"other\":{"; first = true; for (auto& e : foreign) { std::string k; for (char ch : e.first) k += (ch == '"' || ch == '\\' || (u8)ch < 32 || (u8)ch > 126) ? ' ' : ch; f << (first ? "" : ",") << "\"" << k << "\":" << e.second; first = false; } f << "}";
    f << ",\"hashes\":["; first = true; { int n = 0; for (u64 h : hashes) { if (n++ >= 200000) break; f << (first ? "" : ",") << h; first = false; } } f << "]}\n";
    f.close();
    rename((outf + ".tmp").c_str(), outf.c_str());
    return 0;
}

int main(int argc, char** argv) {
    if (argc < 2) return 3;
    if (!getenv("VSIM_NOASLR")) {
        setenv("VSIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (const char* c = getenv("VSIM_CPU")) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(c), &s); sched_setaffinity(0, sizeof s, &s); }
    else { cpu_set_t s; CPU_ZERO(&s); CPU_SET(sched_getcpu(), &s); sched_setaffinity(0, sizeof s, &s); }
    R = (Result*)__real_mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mem_setup();
    rel_init();
    std::string cmd = argv[1];
    if (cmd == "worker") return worker(argc, argv);
    if (cmd == "relevant") {   // class table
        for (auto& e : g_rel) { printf("%s:", e.first.c_str()); for (auto& p : e.second) printf(" %s", p.c_str()); printf("\n"); }
        return 0;
    }
    if (cmd == "plan") { Plan p; gen_plan(p, argv[2], strtoull(argv[3], 0, 10), 0); printf("%s", plan_to_text(p).c_str()); return 0; }
    if (cmd == "seed") {   // seed PROP N [trace]
        Plan p; gen_plan(p, argv[2], strtoull(argv[3], 0, 10), argc > 5 ? atoi(argv[5]) : 0);
        int r = run_one(p, nullptr, argc > 4 && argv[4][0] ? argv[4] : nullptr);
        printf("result %d class '%s'\n%s\n%s\nhash %lx %lx devs %u points %lu mems %lu vtime %.3f s foreign %lu %s\n%s\n", r, R->cls, symbolize(R->msg).c_str(), symbolize(R->trace).c_str(), (long)R->st.sched_hash, (long)R->st.ev_hash, R->ndev,
               (long)R->st.points, (long)R->st.mems, R->st.vtime / 1e9, (long)R->foreign, R->foreign_cls, R->extra);
        return r == 2 ? 1 : r == 1 ? 0 : 2;
    }
    if (cmd == "replay") {   // replay FILE [trace]
        std::string text = slurp(argv[2]);
        Plan p;
        if (text.empty() || !plan_from_text(p, text)) { printf("cannot read %s\n", argv[2]); return 3; }
        std::vector<Dev> d = devs_from_text(text);
        std::string expect;
        { std::istringstream in(text); std::string l; while (std::getline(in, l)) if (l.compare(0, 7, "expect ") == 0) expect = l.substr(7); }
        const bool by_seed = text.find("\nby_seed\n") != std::string::npos;
        int r = run_one(p, by_seed ? nullptr : &d, argc > 3 ? argv[3] : nullptr);
        printf("result %d class '%s' expected '%s'\n%s\n%s\nhash %lx %lx\n", r, R->cls, expect.c_str(), symbolize(R->msg).c_str(), symbolize(R->trace).c_str(), (long)R->st.sched_hash, (long)R->st.ev_hash);
        return r == 2 && expect == R->cls ? 1 : r == 1 ? 0 : 2;
    }
    return 3;
}
