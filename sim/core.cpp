#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <dlfcn.h>
#include <algorithm>

namespace sim {
Global G;
thread_local Thr* cur_thr __attribute__((tls_model("initial-exec"))) = nullptr;
thread_local int in_sim __attribute__((tls_model("initial-exec"))) = 0;
bool g_active = false;
std::function<bool(const char*)> cls_relevant;

const char* dk_name[] = {"-", "SWITCH", "MEM", "STALL", "CRASH", "CRASHM", "JUMP", "FAIL", "SPUR", "WAKE", "ALLOC"};
const char* op_name[] = {"none", "mutex_lock", "mutex_unlock", "cond_wait", "cond_signal", "sem_wait", "sem_timedwait", "sem_post",
                         "sem_open", "sem_close", "sem_unlink", "sem_getvalue", "shm_open", "shm_unlink", "ftruncate", "mmap", "munmap", "close", "fstat",
                         "thread_create", "thread_start", "thread_join", "thread_exit", "clock", "sleep", "yield", "futex", "once", "rwlock", "random", "user"};

static inline long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
void real_futex_wait(int* a, int v) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
void real_futex_wake(int* a) { raw_syscall6(SYS_futex, (long)a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
void real_exit_group(int c) { for (;;) raw_syscall6(SYS_exit_group, c, 0, 0, 0, 0, 0); }

// ---------------------------------------------------------------- RNG
static inline u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
static u64 splitmix(u64& s) {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
u64 mix(u64 a, u64 b) { u64 s = a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull); return splitmix(s); }
u64 rnd() {
    u64* s = G.rng;
    u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
u64 rnd_below(u64 n) { return n ? (u64)(((unsigned __int128)rnd() * n) >> 64) : 0; }
bool rnd_p(u64 num, u64 den) { return num && rnd_below(den) < num; }

// ---------------------------------------------------------------- reporting
static const char* st_name(ThrState s) {
    static const char* n[] = {"runnable", "blocked", "stalled", "finished", "dead"};
    return n[s];
}
extern "C" char __executable_start;
std::string backtrace_str() {
    std::string s;
    Thr* t = cur_thr;
    if (!t) return s;
    int k = 0;
    if (t->apc) { char b[40]; snprintf(b, sizeof b, " pc:0x%lx", (unsigned long)(t->apc - (uptr)&__executable_start)); s += b; }
    for (size_t i = t->stack.size(); i-- > 0 && k < 10; k++) {
        char b[40];
        snprintf(b, sizeof b, " pc:0x%lx", (unsigned long)(t->stack[i] - (uptr)&__executable_start));
        s += b;
    }
    return s;
}
static std::string threads_str() {
    std::string s;
    for (Thr* t : G.thr) {
        if (t->st == FINISHED) continue;
        char b[200];
        snprintf(b, sizeof b, "\n    thread p%d.%d.%d %s%s%s step %lu stack pc:0x%lx", t->proc, t->inc, t->lid & 0xff, st_name(t->st),
                 t->st == BLOCKED ? " on " : "", t->st == BLOCKED ? t->blocked_on : "", (unsigned long)t->nstep, (unsigned long)(t->apc ? t->apc - (uptr)&__executable_start : 0));
        s += b;
        int k = 0;
        for (size_t i = t->stack.size(); i-- > 0 && k < 4; k++) {
            snprintf(b, sizeof b, " pc:0x%lx", (unsigned long)(t->stack[i] - (uptr)&__executable_start));
            s += b;
        }
        if (s.size() > 12000) break;
    }
    return s;
}
void trace(const char* fmt, ...) {
    if (!G.tracing) return;
    Enter e;
    va_list ap;
    va_start(ap, fmt);
    Thr* t = cur_thr;
    if (t) fprintf(G.tracef, "%12.6f ms p%d.%d.%d/%lu ", (G.now) / 1e6, t->proc, t->inc, t->lid & 0xff, (unsigned long)t->nstep);
    vfprintf(G.tracef, fmt, ap);
    fputc('\n', G.tracef);
    va_end(ap);
}
void probe(int id) { if (G.res) G.res->st.probes[id]++; }

void finish(int done) {
    ++in_sim;
    G.res->st.vtime = G.now;
    G.res->done = done;
    if (G.tracef) fflush(G.tracef);
    real_exit_group(0);
}
static void vreport(bool fatal, const char* cls, const char* fmt, va_list ap) {
    ++in_sim;
    // known finding KF1: a process crashed while it held the lock of a living peer's queue, and that channel is wedged
    if (G.res->st.crash_in_lock)
        for (const char* k : {"probe-failed", "no-outcome", "not-served", "late", "sync-hang", "uninit-hang", "hang", "deadlock"})
            if (!strcmp(k, cls)) { cls = "kf1-wedged"; break; }
    if (cls_relevant && !cls_relevant(cls)) {
        G.res->foreign++;
        if (!strstr(G.res->foreign_cls, cls) && strlen(G.res->foreign_cls) + strlen(cls) + 2 < sizeof G.res->foreign_cls) {
            strcat(G.res->foreign_cls, cls);
            strcat(G.res->foreign_cls, " ");
        }
        if (!fatal) { --in_sim; return; }
        finish(3);
    }
    snprintf(G.res->cls, sizeof G.res->cls, "%s", cls);
    vsnprintf(G.res->msg, sizeof G.res->msg, fmt, ap);
    std::string tr = "at " + std::to_string(G.now / 1000) + " us, thread ";
    if (cur_thr) tr += "p" + std::to_string(cur_thr->proc) + "." + std::to_string(cur_thr->inc) + "." + std::to_string(cur_thr->lid & 0xff) + " stack" + backtrace_str();
    tr += threads_str();
    snprintf(G.res->trace, sizeof G.res->trace, "%s", tr.c_str());
    trace("VIOLATION %s: %s", cls, G.res->msg);
    finish(2);
}
void violation(const char* cls, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vreport(false, cls, fmt, ap); va_end(ap);
}
void violation_fatal(const char* cls, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vreport(true, cls, fmt, ap); va_end(ap);
    finish(3);
}

// ---------------------------------------------------------------- decisions
static void record(DK k, u32 lid, u64 n, i64 val) {
    Result* r = G.res;
    r->st.fired[k]++;
    if (r->ndev < Result::MAXDEV) {
        Dev& d = r->dev[r->ndev++];
        d.kind = k; d.lid = lid; d.n = n; d.val = val;
    } else r->devover = 1;
}
static inline std::pair<u64, u64> dkey(DK k, u32 lid, u64 n) { return {((u64)k << 32) | lid, n}; }
i64 decide(DK k, u64 n, const std::function<i64()>& random) {
    Thr* t = cur_thr;
    i64 v = 0;
    if (G.replay) {
        if (G.rep.empty()) return 0;
        auto it = G.rep.find(dkey(k, t->lid, n));
        if (it == G.rep.end()) return 0;
        v = it->second;
    } else v = random();
    if (v) record(k, t->lid, n, v);
    return v;
}

// ---------------------------------------------------------------- vector clocks
void acquire(const VC& v) { cur_thr->vc.join(v); }
void release_to(VC& v) {
    Thr* t = cur_thr;
    v.join(t->vc);
    t->vc.c[t->tid]++;
}
VC& syncvc(void* a) {
    VC*& p = G.syncvc[a];
    if (!p) { p = new VC; p->clear(); }
    return *p;
}

// ---------------------------------------------------------------- scheduler
static i64 g_next_timer = 0;
static u64 g_crash_count = 0;
static bool g_crash_pending = false;

static i64 eff_deadline(Thr* t) {
    i64 d = t->deadline;
    if (t->is_rt) {
        __int128 m = (__int128)t->rt_abs - G.rt_off;
        d = m > INF ? INF : (i64)m;
    }
    if (t->spur_at < d) d = t->spur_at;
    return d;
}
static void enqueue(Thr* t) { t->rq_at = G.res->st.points; t->rq_t = G.now; G.runq.push_back(t); }
static void make_runnable(Thr* t) {
    if (t->stall_until > G.now) {
        t->st = STALLED;
        t->deadline = t->stall_until;
        t->is_rt = false;
        t->spur_at = INF;
        if (t->stall_until < g_next_timer) g_next_timer = t->stall_until;
        return;
    }
    t->st = RUNNABLE;
    enqueue(t);
}
static void unqueue(Thr* t) {
    if (t->wq) {
        auto& q = t->wq->q;
        for (size_t i = 0; i < q.size(); i++)
            if (q[i] == t) { q.erase(q.begin() + i); break; }
        t->wq = nullptr;
    }
}
void wake(Thr* t, int reason) {
    if (t->st != BLOCKED) return;
    unqueue(t);
    t->wake_reason = reason;
    make_runnable(t);
}
Thr* wake_one(WaitQ* q) {
    if (q->q.empty()) return nullptr;
    size_t i = 0;
    if (q->q.size() > 1 && G.sched_dev) {
        Thr* t = cur_thr;
        i64 v = decide(D_WAKE, t->nstep, [&]() -> i64 { return rnd_p(G.cfg.p_wake, 10000) ? (i64)(1 + rnd_below(q->q.size() - 1)) : 0; });
        if (v > 0 && (size_t)v < q->q.size()) i = v;
    }
    Thr* w = q->q[i];
    wake(w, 0);
    return w;
}
void wake_all(WaitQ* q) {
    while (!q->q.empty()) wake(q->q.front(), 0);
}
static void watch_report(const char* pre) {
    if (G.watch_cls.empty()) return;
    std::string c = G.watch_cls, m = G.watch_msg;
    if (G.watch_fn) G.watch_fn(c, m);
    G.watch_deadline = INF;
    violation_fatal(c.c_str(), "%s%s", pre, m.c_str());
}
static void check_timers() {
    if (G.now > G.watch_deadline) {
        G.watch_deadline = INF;
        watch_report("");
    }
    if (G.now < g_next_timer) return;
    i64 nxt = INF;
    // wake in deadline order, ties by thread id
    std::vector<std::pair<i64, Thr*>> due;
    for (Thr* t : G.thr) {
        if (t->st == BLOCKED) {
            i64 d = eff_deadline(t);
            if (d <= G.now) due.push_back({d, t});
            else if (d < nxt) nxt = d;
        } else if (t->st == STALLED) {
            if (t->deadline <= G.now) due.push_back({t->deadline, t});
            else if (t->deadline < nxt) nxt = t->deadline;
        }
    }
    g_next_timer = nxt;
    if (due.empty()) return;
    std::stable_sort(due.begin(), due.end(), [](const std::pair<i64, Thr*>& a, const std::pair<i64, Thr*>& b) { return a.first < b.first; });
    for (auto& p : due) {
        Thr* t = p.second;
        if (t->st == STALLED) { t->st = RUNNABLE; enqueue(t); }
        else {
            int reason = t->spur_at <= G.now ? 2 : 1;
            unqueue(t);
            t->wake_reason = reason;
            make_runnable(t);
        }
    }
}
static void wait_baton(Thr* t) {
    while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) != 1) real_futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void hand_to(Thr* u) {
    Stats& s = G.res->st;
    s.switches++;
    s.sched_hash = mix(s.sched_hash, ((u64)u->lid << 20) ^ (cur_thr ? (cur_thr->nstep ^ ((u64)cur_thr->lid << 40)) : 0));
    G.cur = u;
    u->slice = 0;
    u->slice_m = u->mstep;
    img_switch(u->proc);
    if (G.tracing) trace("-> p%d.%d.%d", u->proc, u->inc, u->lid & 0xff);
    __atomic_store_n(&u->go, 1, __ATOMIC_RELEASE);
    real_futex_wake(&u->go);
}
static Thr* find_in_runq(u32 lid) {
    for (Thr* t : G.runq) if (t->lid == lid) return t;
    return nullptr;
}
static void take(Thr* u) {
    for (size_t i = 0; i < G.runq.size(); i++)
        if (G.runq[i] == u) { G.runq.erase(G.runq.begin() + i); return; }
}
static Thr* best_prio() {
    // priorities do not keep a thread waiting for ever
    Thr* f = G.runq.front();
    if (f->rq_at + 20000 < G.res->st.points || f->rq_t + 60000000 < G.now) f->prio = ++G.pct_high;
    Thr* b = nullptr;
    for (Thr* t : G.runq) if (!b || t->prio > b->prio) b = t;
    return b;
}
static Thr* choose_next(Thr* t) {
    for (;;) {
        check_timers();
        if (!G.runq.empty()) break;
        if (g_next_timer == INF) {
            watch_report("all threads are blocked: ");
            violation_fatal("deadlock", "all threads are blocked without a timeout");
        }
        if (g_next_timer > G.now) G.now = g_next_timer;
    }
    Thr* u = G.runq.front();
    if (G.sched_dev && G.runq.size() > 1) {
        i64 v = decide(D_SWITCH, t->nstep * 2 + 1, [&]() -> i64 {
            Thr* w = u;
            if (G.cfg.strategy == 1) { if (rnd_p(G.cfg.p_pick, 10000)) w = G.runq[rnd_below(G.runq.size())]; }
            else if (G.cfg.strategy == 2) w = best_prio();
            return w == u ? 0 : (i64)w->lid + 1;
        });
        if (v) { Thr* w = find_in_runq((u32)(v - 1)); if (w) u = w; }
    }
    take(u);
    return u;
}
// give up the processor; the current thread is in no run queue
static void reschedule() {
    Thr* t = cur_thr;
    Thr* u = choose_next(t);
    if (u == t) { t->slice = 0; return; }
    hand_to(u);
    wait_baton(t);
}
static void yield_to(Thr* u) {  // current stays runnable
    Thr* t = cur_thr;
    take(u);
    enqueue(t);
    hand_to(u);
    wait_baton(t);
}
static void too_long() {
    // (no run of the correct library comes near)
    watch_report("step budget exhausted (livelock): ");
    violation_fatal("hang", "step budget exhausted (livelock)");
}

void set_next_mem(Thr* t) {
    u64 tick = t->mstep + 20000;
    t->next_mem = tick;
    t->next_mem_kind = 0;
    if (G.replay) {
        auto it = G.rep_mem.find(t->lid);
        if (it != G.rep_mem.end()) {
            auto& v = it->second;
            while (t->mem_pos < v.size() && v[t->mem_pos].n <= t->mstep) t->mem_pos++;
            if (t->mem_pos < v.size() && v[t->mem_pos].n < tick) {
                t->next_mem = v[t->mem_pos].n;
                t->next_mem_kind = v[t->mem_pos].kind;
                t->next_mem_val = v[t->mem_pos].val;
            }
        }
    } else if (G.cfg.mem_gap > 0 && G.sched_dev) {
        u64 g = 1 + rnd_below(2 * (u64)G.cfg.mem_gap);
        if (t->mstep + g < tick) { t->next_mem = t->mstep + g; t->next_mem_kind = D_MEM; }
    }
}
static void do_crash_self(DK kind, u64 n) {
    Thr* t = cur_thr;
    record(kind, t->lid, n, 1);
    trace("CRASH of process %d", t->proc);
    crash_proc(t->proc);   // does not return for the current thread
}
static bool crash_allowed(int p) { return !G.crash_ok || G.crash_ok(p); }

void mem_event(Thr* t) {
    Enter e;
    Stats& s = G.res->st;
    s.mems += t->mstep - t->slice_m;
    G.now += (i64)(t->mstep - t->slice_m);
    t->slice_m = t->mstep;
    if (s.mems > G.max_mems) too_long();
    int kind = t->next_mem_kind;
    i64 val = t->next_mem_val;
    if (kind == D_CRASHM && G.faults && !t->control) {
        set_next_mem(t);
        if (crash_allowed(t->proc)) do_crash_self(D_CRASHM, t->mstep);
        return;
    }
    if (kind == D_MEM && G.sched_dev) {
        check_timers();
        Thr* u = nullptr;
        if (!G.replay) {
            if (!G.runq.empty()) {
                u = G.cfg.strategy == 2 && rnd_p(1, 2) ? best_prio() : G.runq[rnd_below(G.runq.size())];
                val = (i64)u->lid + 1;
            }
        } else u = find_in_runq((u32)(val - 1));
        if (u) record(D_MEM, t->lid, t->mstep, val);
        set_next_mem(t);
        if (u) yield_to(u);
        return;
    }
    set_next_mem(t);
    if (++t->slice > 3) {
        check_timers();
        if (!G.runq.empty()) yield_to(G.runq.front()); else t->slice = 0;
    }
}

void clock_jump(i64 delta) {
    G.rt_off += delta;
    G.res->st.jumps++;
    g_next_timer = 0;  // realtime deadlines moved
}

void advance(i64 ns) { G.now += ns; }

static void fault_points(Thr* t) {
    const Cfg& c = G.cfg;
    // crash
    if (G.replay) {
        if (!G.rep.empty() && decide(D_CRASH, t->nstep, nullptr)) {
            G.res->st.fired[D_CRASH]--;
            G.res->ndev--;
            if (crash_allowed(t->proc)) do_crash_self(D_CRASH, t->nstep);
        }
    } else if (c.crash_proc == t->proc && t->inc == 0) {
        if (g_crash_count && --g_crash_count == 0) g_crash_pending = true;
        if (g_crash_pending) {
            if (c.crash_mem && rnd_p(1, 2)) {
                g_crash_pending = false; g_crash_count = 40;
                t->next_mem = t->mstep + 1 + rnd_below(c.crash_mem);
                t->next_mem_kind = D_CRASHM;
            } else if (crash_allowed(t->proc)) {
                g_crash_pending = false;
                do_crash_self(D_CRASH, t->nstep);
            } else G.res->st.crash_deferred++;
        }
    }
    // stall
    if (c.p_stall || G.replay) {
        i64 v = decide(D_STALL, t->nstep, [&]() -> i64 {
            if (G.stall_used >= (i64)c.stall_total * MS) return 0;
            u64 p = c.p_stall;
            if (!t->held.empty()) p *= c.stall_lock_boost;
            if (!rnd_p(p, 1000000)) return 0;
            i64 ms = 1 + rnd_below(c.stall_ms);
            return ms | (rnd_p(1, 6) ? (1 << 20) : 0);
        });
        if (v) {
            i64 ms = v & 0xfffff;
            G.stall_used += ms * MS;
            G.res->st.stalls++;
            G.last_fault = G.now + ms * MS;
            i64 until = G.now + ms * MS;
            trace("STALL %ld ms %s", (long)ms, v >> 20 ? "whole process" : "thread");
            if (v >> 20) {
                for (Thr* o : G.thr) if (o != t && o->proc == t->proc && o->inc == t->inc && !o->control && o->st != FINISHED && o->st != DEAD) {
                    o->stall_until = std::max(o->stall_until, until);
                    if (o->st == RUNNABLE) { take(o); o->st = STALLED; o->deadline = until; o->is_rt = false; o->spur_at = INF; }
                    else if (o->st == STALLED && o->deadline < until) o->deadline = until;
                }
            }
            t->stall_until = std::max(t->stall_until, until);
            t->st = STALLED; t->deadline = until; t->is_rt = false; t->spur_at = INF;
            if (until < g_next_timer) g_next_timer = until;
            t->nstep++;
            reschedule();
        }
    }
    if (c.p_jump || G.replay) {
        i64 v = decide(D_JUMP, t->nstep, [&]() -> i64 {
            if (!rnd_p(c.p_jump, 1000000)) return 0;
            static const i64 amt[] = {50, 900, 5000, 60000, 3600000};
            i64 a = amt[rnd_below(5)] * (1 + rnd_below(3));
            return rnd_p(1, 2) ? a : -a;
        });
        if (v) { trace("CLOCK STEP %ld ms", (long)v); clock_jump(v * MS); }
    }
}

void point(Op op, void* obj) {
    Enter e;
    Thr* t = cur_thr;
    Stats& s = G.res->st;
    t->nstep++;
    s.mems += t->mstep - t->slice_m;
    G.now += (i64)(t->mstep - t->slice_m);
    t->slice_m = t->mstep;
    s.points++;
    s.ops[op]++;
    s.ev_hash = mix(s.ev_hash, ((u64)t->lid << 8 | op) ^ ((u64)G.now << 32) ^ t->mstep);
    if (s.points > G.max_points) too_long();
    G.now += G.cfg.op_cost;
    if (G.tracing) trace("%s", op_name[op]);
    if (G.faults && !t->control && !t->nocrash) fault_points(t);
    check_timers();
    if (G.runq.empty()) return;
    ++t->slice;
    if (G.sched_dev) {
        i64 v = decide(D_SWITCH, t->nstep * 2, [&]() -> i64 {
            Thr* w = t;
            if (G.cfg.strategy == 1) { if (rnd_p(G.cfg.p_switch, 10000)) w = G.runq[rnd_below(G.runq.size())]; }
            else if (G.cfg.strategy == 2) {
                if (!G.pct_points.empty() && s.points >= G.pct_points.back()) { G.pct_points.pop_back(); t->prio = --G.pct_low; }
                if (t->slice > 1500) t->prio = --G.pct_low;
                Thr* b = best_prio();
                if (b->prio > t->prio) w = b;
            }
            return w == t ? 0 : (i64)w->lid + 1;
        });
        if (v) { Thr* w = find_in_runq((u32)(v - 1)); if (w) { yield_to(w); return; } }
    }
    if (t->slice > 2000) yield_to(G.runq.front());
}

int block(WaitQ* q, i64 deadline, bool rt, const char* what, i64 spur_at) {
    Enter e;
    Thr* t = cur_thr;
    t->nstep++;
    t->st = BLOCKED;
    t->blocked_on = what;
    t->is_rt = rt;
    t->deadline = rt ? INF : deadline;
    t->rt_abs = deadline;
    t->spur_at = spur_at;
    t->wq = q;
    if (q) q->q.push_back(t);
    i64 d = eff_deadline(t);
    if (d < g_next_timer) g_next_timer = d;
    G.res->st.ev_hash = mix(G.res->st.ev_hash, t->lid ^ 0xb10cull);
    if (G.tracing) trace("blocks on %s%s", what, d == INF ? "" : " (timed)");
    reschedule();
    t->spur_at = INF;
    t->is_rt = false;
    return t->wake_reason;
}

void sleep_until(i64 at, bool rt) {
    block(nullptr, at, rt, "sleep");
}

// ---------------------------------------------------------------- threads
static int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
// at the very end of a run: the control thread keeps nothing in thread-local objects of the library either
void control_tls_end() {
    Thr* t = cur_thr;
    ++in_sim;
    while (!t->tls_dtors.empty()) {
        auto d = t->tls_dtors.back();
        t->tls_dtors.pop_back();
        --in_sim; d.first(d.second); ++in_sim;
    }
    --in_sim;
}
static void* trampoline(void* a) {
    Thr* t = (Thr*)a;
    cur_thr = t;
    in_sim = 1;
    wait_baton(t);
    in_sim = 0;
    void* r = t->fn(t->arg);
    ++in_sim;
    while (!t->tls_dtors.empty()) {
        auto d = t->tls_dtors.back();
        t->tls_dtors.pop_back();
        --in_sim; d.first(d.second); ++in_sim;
    }
    --in_sim;
    point(OP_THREAD_EXIT);
    ++in_sim;
    t->ret = r;
    t->st = FINISHED;
    t->vc.c[t->tid]++;
    G.proc[t->proc].nthreads--;
    wake_all(&t->joinq);
    trace("thread exits");
    t->nstep++;
    Thr* u = choose_next(t);
    hand_to(u);
    // The real thread must not run library destructors concurrently with the next thread: park it.
    for (;;) { int z = 0; real_futex_wait(&z, 0); }
    return nullptr;
}
static int g_k[MAXP][64];
Thr* thread_create(void* (*fn)(void*), void* arg, int proc, bool detached, bool is_lib) {
    Enter e;
    if ((int)G.thr.size() >= MAXT) { snprintf(G.res->msg, sizeof G.res->msg, "too many threads"); finish(3); }
    Thr* c = new Thr;
    c->tid = (int)G.thr.size();
    c->proc = proc;
    c->inc = G.proc[proc].inc;
    c->lid = (proc << 16) | ((c->inc & 0xff) << 8) | (g_k[proc][c->inc & 63]++ & 0xff);
    c->fn = fn;
    c->arg = arg;
    c->detached = detached;
    c->is_lib = is_lib;
    c->vc.clear();
    if (cur_thr) { c->vc.join(cur_thr->vc); cur_thr->vc.c[cur_thr->tid]++; }
    c->vc.c[c->tid] = 1;
    c->prio = G.replay ? 0 : (int)(1 + rnd_below(1000000));
    c->stack.reserve(256);
    G.thr.push_back(c);
    G.proc[proc].nthreads++;
    G.res->st.threads++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 * 1024);
    int r = real_pthread_create(&c->real, &at, trampoline, c);
    if (r) { fprintf(stderr, "sim: real pthread_create failed: %d\n", r); snprintf(G.res->msg, sizeof G.res->msg, "real pthread_create: %d", r); finish(3); }
    set_next_mem(c);
    enqueue(c);
    return c;
}
void* thread_join(Thr* t) {
    Enter e;
    while (t->st != FINISHED) block(&t->joinq, INF, false, "join");
    acquire(t->vc);
    t->joined = true;
    return t->ret;
}

void crash_proc(int p) {
    Enter e;
    Thr* self = cur_thr;
    int inc = G.proc[p].inc;
    G.res->st.procs_crashed++;
    bool me = false;
    if (G.on_crash) G.on_crash(p);
    for (Thr* t : G.thr) {
        if (t->proc != p || t->inc != inc || t->st == FINISHED || t->st == DEAD || t->control) continue;
        if (t == self) { me = true; continue; }
        if (t->st == RUNNABLE) take(t);
        unqueue(t);
        t->st = DEAD;
    }
    G.proc[p].alive = false;
    G.proc[p].nthreads = 0;
    sys_crash_proc(p);
    heap_forget_proc(p);
    G.last_fault = G.now;
    if (me) {
        self->st = DEAD;
        self->nstep++;
        Thr* u = choose_next(self);
        hand_to(u);
        for (;;) { int z = 0; real_futex_wait(&z, 0); }
    }
}


static bool fail_now() { int k = ++G.nfailable; return G.cfg.fail_at && k >= G.cfg.fail_at && k < G.cfg.fail_at + G.cfg.fail_n; }
bool fail_op(Op op, int* err, const int* errs, int nerrs) {
    Thr* t = cur_thr;
    if (!G.callfaults || t->nofault || t->control) return false;
    Enter e;
    i64 v = decide(D_FAIL, t->nstep, [&]() -> i64 {
        if (G.nfail >= G.cfg.max_fail || !(fail_now() || rnd_p(G.cfg.p_fail, 10000))) return 0;
        return errs[rnd_below(nerrs)];
    });
    if (!v) return false;
    G.nfail++;
    G.res->st.fails++;
    G.last_fault = G.now;
    *err = (int)v;
    trace("FAIL %s errno %d", op_name[op], (int)v);
    return true;
}
bool alloc_fails() {
    Thr* t = cur_thr;
    t->nalloc++;
    if (!G.callfaults || t->nofault || t->control) return false;
    if (G.cfg.oom_ms && G.now >= G.fault_t0 + G.cfg.oom_at * MS && G.now < G.fault_t0 + (G.cfg.oom_at + G.cfg.oom_ms) * MS) {
        G.res->st.allocfails++;
        G.last_fault = G.now;
        return true;
    }
    if (!G.replay && !G.cfg.p_alloc && !G.cfg.fail_at) return false;
    Enter e;
    i64 v = decide(D_ALLOC, t->nalloc, [&]() -> i64 { return G.nfail < G.cfg.max_fail && (fail_now() || rnd_p(G.cfg.p_alloc, 1000000)) ? 1 : 0; });
    if (!v) return false;
    G.nfail++;
    G.res->st.allocfails++;
    G.last_fault = G.now;
    trace("ALLOCATION FAILS");
    return true;
}

void sched_init() {
    *(void**)&real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
    u64 s = G.cfg.seed;
    for (int i = 0; i < 4; i++) G.rng[i] = splitmix(s);
    memset(g_k, 0, sizeof g_k);
    g_crash_count = G.cfg.crash_after;
    g_crash_pending = false;
    g_next_timer = INF;
    G.now = 1000000000ll + 123456;
    G.mono_off = G.cfg.up_ms * MS;
    G.rt_off = G.cfg.date_ms * MS;
    if (G.cfg.strategy == 2 && !G.replay) {
        for (int i = 0; i < G.cfg.pct_d; i++) G.pct_points.push_back(1 + rnd_below(G.cfg.pct_len));
        std::sort(G.pct_points.rbegin(), G.pct_points.rend());
    }
    // adopt the calling thread as the control thread
    Thr* c = new Thr;
    c->tid = 0; c->proc = 15; c->lid = 0; c->control = true; c->is_lib = false;
    c->vc.clear();
    c->vc.c[0] = 1;
    c->prio = 2000000;
    c->stack.reserve(256);
    g_k[0][0] = 1;
    G.thr.push_back(c);
    cur_thr = c;
    G.cur = c;
    set_next_mem(c);
}
}  // namespace sim
