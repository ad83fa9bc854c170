// Interposed operating-system and threading interfaces: pthreads, semaphores, shared memory, clocks, futex, randomness.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <climits>
#include <dlfcn.h>
#include <fcntl.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <random>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_close(int);
int __real_ftruncate(int, off_t);
int __real_fstat(int, struct stat*);
int __real_shm_open(const char*, int, mode_t);
int __real_shm_unlink(const char*);
int __real_printf(const char*, ...);
int __real_kill(pid_t, int);
}

namespace sim {
struct ShmMap { int obj; int proc; int inc; size_t len; bool live; };
extern std::vector<ShmMap> g_maps;
extern std::vector<size_t> g_objsize;

template <class F> static F real(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    return (F)p;
}
#define REAL(name) ([]() { static auto f = real<decltype(&::name)>(#name); return f; }())

static const int CLK_RT = 1;
static i64 ts_ns(const struct timespec* t) {
    __int128 v = (__int128)t->tv_sec * 1000000000ll + t->tv_nsec;
    if (v > INF) return INF;
    if (v < 0) return 0;
    return (i64)v;
}
// an absolute time of a clock, as the simulator keeps it
static i64 ts_abs(const struct timespec* t, bool rt) {
    i64 v = ts_ns(t);
    return rt || v == INF ? v : v > G.mono_off ? v - G.mono_off : 0;
}
static bool ts_ok(const struct timespec* t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000l; }

static i64 spur(const char*, i64 maxdelay) {   // injected spurious wake-up / signal: absolute time or INF
    if (!G.faults || (!G.replay && !G.cfg.p_spur)) return INF;
    Thr* t = cur_thr;
    if (t->control) return INF;
    i64 v = decide(D_SPUR, t->nstep, [&]() -> i64 { return rnd_p(G.cfg.p_spur, 10000) ? (i64)(1 + rnd_below(rnd_p(1, 2) ? 200 : 25000)) : 0; });
    return v ? G.now + v * 1000 : INF;
}

// ---------------------------------------------------------------- semaphores
struct SemObj { int id; std::string name; i64 value; int init; WaitQ q; VC vc; bool linked; int owner, oinc; };
struct Handle { u64 magic; int obj; int proc, inc; int refs; };
static std::vector<SemObj*> g_sems;
static std::map<std::string, int> g_semnames;
static Handle* g_handles;   // fixed array: sem_t* point here
static int g_nh;
static const int MAXH = 8192;
static std::map<void*, int> g_anon;  // sem_init
static const u64 MAGIC = 0x53454d4821ull;

static std::string norm(const char* n) {
    while (*n == '/') n++;
    return n;
}
static Handle* handle(void* s, const char* what) {
    uptr a = (uptr)s, b = (uptr)g_handles;
    if (a >= b && a < b + sizeof(Handle) * MAXH && (a - b) % sizeof(Handle) == 0) {
        Handle* h = (Handle*)s;
        if ((int)(h - g_handles) < g_nh) {
            if (h->refs <= 0) violation_fatal("memory", "%s on a semaphore handle that was closed (%s); by%s", what, g_sems[h->obj]->name.c_str(), backtrace_str().c_str());
            if (h->proc != cur_thr->proc || h->inc != cur_thr->inc) violation_fatal("memory", "%s on another process' semaphore handle", what);
            return h;
        }
    }
    auto it = g_anon.find(s);
    if (it != g_anon.end()) {
        static Handle tmp; tmp.obj = it->second; tmp.refs = 1; return &tmp;
    }
    violation_fatal("memory", "%s on an address that is no semaphore (%p); by%s", what, s, backtrace_str().c_str());
    return nullptr;
}
static SemObj* new_sem(const std::string& name, i64 v) {
    SemObj* o = new SemObj;
    o->id = (int)g_sems.size(); o->name = name; o->value = v; o->init = (int)v; o->vc.clear(); o->linked = true;
    o->owner = cur_thr->proc; o->oinc = cur_thr->inc;
    g_sems.push_back(o);
    return o;
}
static const int E_SEM[] = {EMFILE, ENFILE, ENOMEM, EACCES};
static sem_t* do_sem_open(const char* name, int oflag, unsigned mode, unsigned value) {
    point(OP_SEM_OPEN);
    Enter e;
    std::string n = norm(name);
    trace("sem_open %s %s%s", n.c_str(), oflag & O_CREAT ? "CREAT " : "", oflag & O_EXCL ? "EXCL" : "");
    int err;
    if (n.empty() || n.find('/') != std::string::npos || n.size() > 250) { errno = n.size() > 250 ? ENAMETOOLONG : EINVAL; return SEM_FAILED; }
    if (fail_op(OP_SEM_OPEN, &err, E_SEM, 4)) { errno = err; return SEM_FAILED; }
    auto it = g_semnames.find(n);
    SemObj* o;
    if (it == g_semnames.end()) {
        if (!(oflag & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
        if (value > INT_MAX) { errno = EINVAL; return SEM_FAILED; }
        o = new_sem(n, value);
        g_semnames[n] = o->id;
        release_to(o->vc);
    } else {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        o = g_sems[it->second];
        acquire(o->vc);
    }
    for (int i = 0; i < g_nh; i++) {
        Handle& h = g_handles[i];
        if (h.obj == o->id && h.proc == cur_thr->proc && h.inc == cur_thr->inc && h.refs > 0) { h.refs++; return (sem_t*)&h; }
    }
    if (g_nh >= MAXH) { errno = EMFILE; return SEM_FAILED; }
    Handle& h = g_handles[g_nh++];
    h.magic = MAGIC; h.obj = o->id; h.proc = cur_thr->proc; h.inc = cur_thr->inc; h.refs = 1;
    return (sem_t*)&h;
}
static void hold(SemObj* o) { if (o->init >= 1) cur_thr->held.push_back(o->id); }
static void unhold(SemObj* o) {
    for (int pass = 0; pass < 2; pass++)
        for (Thr* t : G.thr) {
            if (pass == 0 && t != cur_thr) continue;
            if (pass == 1 && (t->proc != cur_thr->proc || t->inc != cur_thr->inc)) continue;
            for (size_t i = 0; i < t->held.size(); i++) if (t->held[i] == o->id) { t->held.erase(t->held.begin() + i); return; }
        }
}
static int do_sem_wait(void* s, i64 deadline, bool rt, bool timed) {
    point(timed ? OP_SEM_TIMEDWAIT : OP_SEM_WAIT);
    Enter e;
    SemObj* o = g_sems[handle(s, "wait")->obj];
    bool first = true;
    for (;;) {
        if (o->value > 0) {
            o->value--;
            acquire(o->vc);
            hold(o);
            return 0;
        }
        i64 sp = first ? spur("sem", 0) : INF;
        first = false;
        char what[80];
        int r = block(&o->q, deadline, rt, o->init >= 1 ? "a queue lock semaphore" : "a read-signal semaphore", sp);
        (void)what;
        if (r == 1) {
            if (o->value > 0) continue;   // a post that raced with the timeout is still taken
            G.res->st.sem_timeouts++;
            if (o->init >= 1) G.res->st.lock_timeouts++;
            trace("timeout on semaphore %s", o->name.c_str());
            errno = ETIMEDOUT;
            return -1;
        }
        if (r == 2) {
            G.res->st.eintr++;
            trace("EINTR on semaphore %s", o->name.c_str());
            errno = EINTR;
            return -1;
        }
        handle(s, "wait (while waiting)");
    }
}

// crash support: is a lock of a living foreign channel held by a thread of this process?
bool sem_held_foreign(int proc, std::string* name) {
    for (Thr* t : G.thr) {
        if (t->proc != proc || t->inc != G.proc[proc].inc || t->st == FINISHED || t->st == DEAD) continue;
        for (int id : t->held) {
            SemObj* o = g_sems[id];
            if (o->owner != proc && o->linked && G.proc[o->owner].alive && G.proc[o->owner].inc == o->oinc) { if (name) *name = o->name; return true; }
        }
    }
    return false;
}
int* sem_value_by_name(const std::string&) { return nullptr; }

// ---------------------------------------------------------------- shared memory
struct ShmObj { int id; std::string name; int memfd; size_t size; bool linked; VC vc; int refs; bool unbacked = false; };
static std::vector<ShmObj*> g_shms;
static std::map<std::string, int> g_shmnames;
void shm_punch(u64 a, u64 n) {   // zeroes whole pages of a mapping without touching them
    const ShmMap& m = g_maps[(a - SHMA) / SHMA_SLOT];
    if (n && fallocate(g_shms[m.obj]->memfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, (off_t)((a - SHMA) % SHMA_SLOT), (off_t)n)) { snprintf(G.res->msg, sizeof G.res->msg, "punching a hole failed"); finish(3); }
}
struct Fd { int obj; int proc, inc; bool open; };
static std::vector<Fd> g_fds;
static const int FD0 = 100000;
static Fd* fake_fd(int fd) {
    if (fd < FD0 || fd >= FD0 + (int)g_fds.size()) return nullptr;
    return &g_fds[fd - FD0];
}
static Fd* open_fd(int fd, const char* what) {
    Fd* f = fake_fd(fd);
    if (!f) return nullptr;
    if (!f->open) violation_fatal("memory", "%s on a descriptor that was closed already; by%s", what, backtrace_str().c_str());
    if (f->proc != cur_thr->proc || f->inc != cur_thr->inc) violation_fatal("memory", "%s on another process' descriptor", what);
    return f;
}

void sys_child_init() {
    static char buf[sizeof(Handle) * MAXH];
    g_handles = (Handle*)buf;
    g_maps.reserve(SHMA_N);
}
void sys_crash_proc(int p) {
    int inc = G.proc[p].inc;
    for (int i = 0; i < g_nh; i++) if (g_handles[i].proc == p && g_handles[i].inc == inc) g_handles[i].refs = 0;
    for (auto& f : g_fds) if (f.proc == p && f.inc == inc) f.open = false;
    for (auto& m : g_maps) if (m.proc == p && m.inc == inc) m.live = false;
}
SysCount sys_count(int proc) {
    SysCount c = {0, 0, 0, 0, 0, ""};
    c.shm_names = (int)g_shmnames.size();
    c.sem_names = (int)g_semnames.size();
    for (auto& p : g_shmnames) c.names += p.first + " ";
    for (auto& p : g_semnames) c.names += p.first + " ";
    for (int i = 0; i < g_nh; i++) if (g_handles[i].refs > 0 && (proc < 0 || g_handles[i].proc == proc)) c.semh++;
    for (auto& f : g_fds) if (f.open && (proc < 0 || f.proc == proc)) c.fds++;
    for (auto& m : g_maps) if (m.live && (proc < 0 || m.proc == proc)) c.maps++;
    return c;
}
void names_list(std::vector<std::string>& out) {
    for (auto& p : g_shmnames) out.push_back(p.first);
    for (auto& p : g_semnames) out.push_back(p.first);
}

// ---------------------------------------------------------------- mutexes
template <class M> static void forget(M& m, uptr lo, uptr hi) {
    for (auto it = m.begin(); it != m.end();) if ((uptr)it->first >= lo && (uptr)it->first < hi) { delete it->second; it = m.erase(it); } else ++it;
}
struct Mtx { Thr* owner = nullptr; int rec = 0; WaitQ q; VC vc; Mtx() { vc.clear(); } };
static std::unordered_map<void*, Mtx*> g_mtx;
static std::map<uptr, Mtx*> g_held;  // mutexes in the simulated heap that a thread holds now
static void held_set(void* m, Mtx& x) { if (heap_owns(m)) g_held[(uptr)m] = &x; }
static void held_clear(void* m) { if (heap_owns(m)) g_held.erase((uptr)m); }
void sync_freed(uptr lo, uptr hi) {
    for (auto it = g_held.lower_bound(lo); it != g_held.end() && it->first < hi; it = g_held.erase(it)) {
        Thr* o = it->second->owner;
        if (o && o->st != DEAD && cur_thr && o->proc == cur_thr->proc)
            violation_fatal("sync-misuse", "destruction of a mutex that p%d.%d holds; by%s", o->lid >> 16, (o->lid >> 8) & 255, backtrace_str().c_str());
    }
}
static Mtx& mtx(void* m) {
    Mtx*& p = g_mtx[skey(m, cur_thr->proc)];
    if (!p) p = new Mtx;
    return *p;
}
static int mtx_lock(pthread_mutex_t* m, i64 deadline, bool rt, bool tr) {
    point(OP_MUTEX_LOCK);
    mem_range(m, 8, false, nullptr);  // liveness of the object (no race entry: see below)
    Enter e;
    Mtx& x = mtx(m);
    int kind = m->__data.__kind & 3;
    Thr* t = cur_thr;
    if (x.owner == t) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.rec++; return 0; }
        if (tr) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        violation_fatal("deadlock", "a thread locks a mutex it already holds; by%s", backtrace_str().c_str());
    }
    while (x.owner) {
        if (x.owner->st == DEAD) { x.owner = nullptr; break; }
        if (tr) return EBUSY;
        int r = block(&x.q, deadline, rt, "a mutex");
        if (r == 1 && x.owner) return ETIMEDOUT;
    }
    x.owner = t;
    x.rec = 1;
    held_set(m, x);
    acquire(x.vc);
    return 0;
}
static void mtx_unlock_nopoint(pthread_mutex_t* m) {
    Mtx& x = mtx(m);
    Thr* t = cur_thr;
    if (x.owner != t) violation_fatal("sync-misuse", "unlock of a mutex that the thread does not hold; by%s", backtrace_str().c_str());
    if (--x.rec > 0) return;
    x.owner = nullptr;
    held_clear(m);
    release_to(x.vc);
    wake_one(&x.q);
}
struct Cond { WaitQ q; bool rt = true; };
static std::unordered_map<void*, Cond*> g_cond;
static Cond& cnd(void* c) {
    Cond*& p = g_cond[skey(c, cur_thr->proc)];
    if (!p) p = new Cond;
    return *p;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, i64 deadline, bool rt) {
    point(OP_COND_WAIT);
    Enter e;
    i64 sp = spur("cond", 0);
    mtx_unlock_nopoint(m);
    int r = block(&cnd(c).q, deadline, rt, "a condition variable", sp);
    if (r == 2) G.res->st.spur++;
    Mtx& x = mtx(m);
    while (x.owner) {
        if (x.owner->st == DEAD) { x.owner = nullptr; break; }
        block(&x.q, INF, false, "a mutex");
    }
    x.owner = cur_thr;
    x.rec = 1;
    held_set(m, x);
    acquire(x.vc);
    return r == 1 ? ETIMEDOUT : 0;
}
// rwlocks
struct Rw { Thr* w = nullptr; std::vector<Thr*> r; WaitQ q; VC vc, rvc; Rw() { vc.clear(); rvc.clear(); } };
static std::unordered_map<void*, Rw*> g_rw;
static Rw& rwl(void* a) { Rw*& p = g_rw[skey(a, cur_thr->proc)]; if (!p) p = new Rw; return *p; }
static int rw_lock(void* a, bool wr, i64 dl, bool rt, bool tr) {
    point(OP_RWLOCK);
    Enter e;
    Rw& x = rwl(a);
    while (x.w || (wr && !x.r.empty())) {
        if (tr) return EBUSY;
        if (x.w == cur_thr) return EDEADLK;
        int r = block(&x.q, dl, rt, "a reader-writer lock");
        if (r == 1 && (x.w || (wr && !x.r.empty()))) return ETIMEDOUT;
    }
    acquire(x.vc);
    if (wr) { acquire(x.rvc); x.w = cur_thr; } else x.r.push_back(cur_thr);
    return 0;
}
// futex
static std::unordered_map<void*, WaitQ*> g_futex;
void sync_forget(uptr lo, uptr hi) {
    g_held.erase(g_held.lower_bound(lo), g_held.lower_bound(hi));
    forget(g_mtx, lo, hi); forget(g_cond, lo, hi); forget(g_rw, lo, hi); forget(g_futex, lo, hi); forget(G.syncvc, lo, hi);
}
static WaitQ& futexq(void* a) { WaitQ*& p = g_futex[skey(a, cur_thr->proc)]; if (!p) p = new WaitQ; return *p; }

static u64 proc_rand(int p) { u64& s = G.proc[p].rand_state; s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
static u64 dev_rand() { return mix(G.cfg.seed ^ 0xdee7, ++G.rand_dev); }
}  // namespace sim
using namespace sim;

extern "C" {
// ---------------------------------------------------------------- pthread
int pthread_mutex_lock(pthread_mutex_t* m) { if (!on()) return REAL(pthread_mutex_lock)(m); return mtx_lock(m, INF, false, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!on()) return REAL(pthread_mutex_trylock)(m); return mtx_lock(m, INF, false, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
    if (!on()) return REAL(pthread_mutex_timedlock)(m, ts);
    if (!ts_ok(ts)) return EINVAL;
    return mtx_lock(m, ts_ns(ts), true, false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
    if (!on()) return REAL(pthread_mutex_clocklock)(m, c, ts);
    if (!ts_ok(ts)) return EINVAL;
    return mtx_lock(m, ts_abs(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME, false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return REAL(pthread_mutex_unlock)(m);
    { Enter e; mtx_unlock_nopoint(m); }
    point(OP_MUTEX_UNLOCK);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int r = REAL(pthread_mutex_init)(m, a);
    if (on()) { Enter e; g_mtx.erase(skey(m, cur_thr->proc)); }
    return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!on()) return REAL(pthread_mutex_destroy)(m);
    Enter e;
    if (mtx(m).owner) violation_fatal("sync-misuse", "destruction of a locked mutex; by%s", backtrace_str().c_str());
    g_mtx.erase(skey(m, cur_thr->proc));
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
    int r = REAL(pthread_cond_init)(c, a);
    if (on()) {
        Enter e;
        g_cond.erase(skey(c, cur_thr->proc));
        clockid_t k = CLOCK_REALTIME;
        if (a) pthread_condattr_getclock(a, &k);
        cnd(c).rt = k == CLOCK_REALTIME;
    }
    return r;
}
int pthread_cond_destroy(pthread_cond_t* c) {
    if (!on()) return REAL(pthread_cond_destroy)(c);
    Enter e;
    if (!cnd(c).q.q.empty()) violation_fatal("sync-misuse", "destruction of a condition variable with waiters; by%s", backtrace_str().c_str());
    g_cond.erase(skey(c, cur_thr->proc));
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!on()) return REAL(pthread_cond_wait)(c, m); return cond_wait(c, m, INF, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!on()) return REAL(pthread_cond_timedwait)(c, m, ts);
    if (!ts_ok(ts)) return EINVAL;
    bool rt; { Enter e; rt = cnd(c).rt; }
    return cond_wait(c, m, ts_abs(ts, rt), rt);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
    if (!on()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    if (!ts_ok(ts)) return EINVAL;
    return cond_wait(c, m, ts_abs(ts, k == CLOCK_REALTIME), k == CLOCK_REALTIME);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) return REAL(pthread_cond_signal)(c);
    point(OP_COND_SIGNAL);
    mem_range(c, 8, false, nullptr);
    Enter e; wake_one(&cnd(c).q); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) return REAL(pthread_cond_broadcast)(c);
    point(OP_COND_SIGNAL);
    mem_range(c, 8, false, nullptr);
    Enter e; wake_all(&cnd(c).q); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!on()) return REAL(pthread_rwlock_rdlock)(l); return rw_lock(l, false, INF, false, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!on()) return REAL(pthread_rwlock_wrlock)(l); return rw_lock(l, true, INF, false, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { if (!on()) return REAL(pthread_rwlock_tryrdlock)(l); return rw_lock(l, false, INF, false, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { if (!on()) return REAL(pthread_rwlock_trywrlock)(l); return rw_lock(l, true, INF, false, true); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!on()) return REAL(pthread_rwlock_timedrdlock)(l, ts); return rw_lock(l, false, ts_ns(ts), true, false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) { if (!on()) return REAL(pthread_rwlock_timedwrlock)(l, ts); return rw_lock(l, true, ts_ns(ts), true, false); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { if (!on()) return REAL(pthread_rwlock_clockrdlock)(l, c, ts); return rw_lock(l, false, ts_abs(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME, false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) { if (!on()) return REAL(pthread_rwlock_clockwrlock)(l, c, ts); return rw_lock(l, true, ts_abs(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!on()) return REAL(pthread_rwlock_unlock)(l);
    {
        Enter e;
        Rw& x = rwl(l);
        if (x.w == cur_thr) { x.w = nullptr; release_to(x.vc); }
        else {
            size_t i = 0;
            while (i < x.r.size() && x.r[i] != cur_thr) i++;
            if (i == x.r.size()) violation_fatal("sync-misuse", "unlock of a reader-writer lock that the thread does not hold; by%s", backtrace_str().c_str());
            x.r.erase(x.r.begin() + i);
            release_to(x.rvc);
        }
        wake_all(&x.q);
    }
    point(OP_RWLOCK);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (!on()) return REAL(pthread_rwlock_destroy)(l); Enter e; g_rw.erase(skey(l, cur_thr->proc)); return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!on()) return REAL(pthread_create)(out, a, fn, arg);
    point(OP_THREAD_CREATE);
    int err;
    static const int E[] = {EAGAIN, ENOMEM};
    if (fail_op(OP_THREAD_CREATE, &err, E, 1)) return err;
    Enter e;
    int ds = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &ds);
    Thr* c = thread_create(fn, arg, cur_thr->proc, ds == PTHREAD_CREATE_DETACHED, true);
    *out = c->real;
    in_sim--;
    point(OP_THREAD_CREATE);
    in_sim++;
    return 0;
}
static Thr* by_real(pthread_t p) {
    for (Thr* t : G.thr) if (t->real == p) return t;
    return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
    if (!on()) return REAL(pthread_join)(p, ret);
    point(OP_THREAD_JOIN);
    Enter e;
    Thr* t = by_real(p);
    if (!t || t->joined || t->detached) violation_fatal("sync-misuse", "join of a thread that is not joinable; by%s", backtrace_str().c_str());
    if (t == cur_thr) return EDEADLK;
    void* r = thread_join(t);
    if (ret) *ret = r;
    return 0;
}
int pthread_detach(pthread_t p) {
    if (!on()) return REAL(pthread_detach)(p);
    Enter e;
    Thr* t = by_real(p);
    if (t) t->detached = true;
    return 0;
}
int pthread_once(pthread_once_t* c, void (*fn)(void)) {
    if (!on()) return REAL(pthread_once)(c, fn);
    point(OP_ONCE);
    ++in_sim;
    while (*c == 1) block(&futexq(c), INF, false, "once");
    if (*c == 2) { acquire(syncvc(skey(c, cur_thr->proc))); --in_sim; return 0; }
    *c = 1;
    --in_sim;
    try { fn(); } catch (...) {
        Enter e; *c = 0; wake_all(&futexq(c));
        throw;
    }
    Enter e;
    *c = 2;
    release_to(syncvc(skey(c, cur_thr->proc)));
    wake_all(&futexq(c));
    return 0;
}
int __cxa_guard_acquire(long long* g) {
    u8* b = (u8*)g;
    if (!on()) { if (b[0]) return 0; b[1] = 1; return 1; }
    point(OP_ONCE);
    Enter e;
    while (b[1] && !b[0]) block(&futexq(g), INF, false, "static initialisation");
    if (b[0]) { acquire(syncvc(skey(g, cur_thr->proc))); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) {
    u8* b = (u8*)g;
    b[0] = 1; b[1] = 0;
    if (on()) { Enter e; release_to(syncvc(skey(g, cur_thr->proc))); wake_all(&futexq(g)); }
}
void __cxa_guard_abort(long long* g) {
    u8* b = (u8*)g;
    b[1] = 0;
    if (on()) { Enter e; wake_all(&futexq(g)); }
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso) {
    if (!on()) { static auto f = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit_impl"); return f(fn, obj, dso); }
    Enter e;
    cur_thr->tls_dtors.push_back({fn, obj});
    return 0;
}

// ---------------------------------------------------------------- semaphores
sem_t* sem_open(const char* name, int oflag, ...) {
    mode_t mode = 0; unsigned value = 0;
    if (oflag & O_CREAT) { va_list ap; va_start(ap, oflag); mode = va_arg(ap, mode_t); value = va_arg(ap, unsigned); va_end(ap); }
    if (!on()) { return oflag & O_CREAT ? REAL(sem_open)(name, oflag, mode, value) : REAL(sem_open)(name, oflag); }
    return do_sem_open(name, oflag, mode, value);
}
int sem_close(sem_t* s) {
    if (!on()) return REAL(sem_close)(s);
    point(OP_SEM_CLOSE);
    Enter e;
    Handle* h = handle(s, "sem_close");
    h->refs--;
    return 0;
}
int sem_unlink(const char* name) {
    if (!on()) return REAL(sem_unlink)(name);
    point(OP_SEM_UNLINK);
    Enter e;
    auto it = g_semnames.find(norm(name));
    if (it == g_semnames.end()) { errno = ENOENT; return -1; }
    trace("sem_unlink %s", it->first.c_str());
    g_sems[it->second]->linked = false;
    g_semnames.erase(it);
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) {
    if (!on()) return REAL(sem_init)(s, 0, v);
    Enter e;
    g_anon[s] = new_sem("(unnamed)", v)->id;
    return 0;
}
int sem_destroy(sem_t* s) { if (!on()) return REAL(sem_destroy)(s); Enter e; g_anon.erase(s); return 0; }
int sem_wait(sem_t* s) { if (!on()) return REAL(sem_wait)(s); return do_sem_wait(s, INF, false, false); }
int sem_trywait(sem_t* s) {
    if (!on()) return REAL(sem_trywait)(s);
    point(OP_SEM_TIMEDWAIT);
    Enter e;
    SemObj* o = g_sems[handle(s, "trywait")->obj];
    if (o->value > 0) { o->value--; acquire(o->vc); hold(o); return 0; }
    errno = EAGAIN;
    return -1;
}
int sem_timedwait(sem_t* s, const struct timespec* ts) {
    if (!on()) return REAL(sem_timedwait)(s, ts);
    if (!ts_ok(ts)) { point(OP_SEM_TIMEDWAIT); errno = EINVAL; return -1; }
    return do_sem_wait(s, ts_ns(ts), true, true);
}
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) {
    if (!on()) return REAL(sem_clockwait)(s, c, ts);
    if (!ts_ok(ts)) { point(OP_SEM_TIMEDWAIT); errno = EINVAL; return -1; }
    return do_sem_wait(s, ts_abs(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME, true);
}
int sem_post(sem_t* s) {
    if (!on()) return REAL(sem_post)(s);
    point(OP_SEM_POST);
    {
        Enter e;
        SemObj* o = g_sems[handle(s, "post")->obj];
        if (o->value >= INT_MAX) { errno = EOVERFLOW; return -1; }
        o->value++;
        unhold(o);
        release_to(o->vc);
        wake_one(&o->q);
    }
    point(OP_SEM_POST);
    return 0;
}
int sem_getvalue(sem_t* s, int* v) {
    if (!on()) return REAL(sem_getvalue)(s, v);
    point(OP_SEM_GETVALUE);
    Enter e;
    *v = (int)g_sems[handle(s, "getvalue")->obj]->value;
    return 0;
}

// ---------------------------------------------------------------- shared memory
int __wrap_shm_open(const char* name, int oflag, mode_t mode) {
    if (!on()) return __real_shm_open(name, oflag, mode);
    point(OP_SHM_OPEN);
    Enter e;
    std::string n = norm(name);
    trace("shm_open %s %s%s%s", n.c_str(), oflag & O_CREAT ? "CREAT " : "", oflag & O_EXCL ? "EXCL " : "", oflag & O_TRUNC ? "TRUNC" : "");
    static const int E[] = {EMFILE, ENFILE, EACCES, ENOMEM};
    int err;
    if (n.empty() || n.find('/') != std::string::npos || n.size() > 255) { errno = n.size() > 255 ? ENAMETOOLONG : EINVAL; return -1; }
    if (fail_op(OP_SHM_OPEN, &err, E, 4)) { errno = err; return -1; }
    auto it = g_shmnames.find(n);
    ShmObj* o;
    if (it == g_shmnames.end()) {
        if (!(oflag & O_CREAT)) { errno = ENOENT; return -1; }
        if (g_shms.size() >= 500) { snprintf(G.res->msg, sizeof G.res->msg, "too many shared objects"); finish(3); }
        o = new ShmObj;
        o->id = (int)g_shms.size(); o->name = n; o->size = 0; o->linked = true; o->vc.clear(); o->refs = 0;
        o->memfd = memfd_create("sim", 0);
        if (o->memfd < 0) { snprintf(G.res->msg, sizeof G.res->msg, "memfd_create failed"); finish(3); }
        g_shms.push_back(o);
        g_objsize.push_back(0);
        g_shmnames[n] = o->id;
    } else {
        if ((oflag & O_CREAT) && (oflag & O_EXCL)) { errno = EEXIST; return -1; }
        o = g_shms[it->second];
        if (oflag & O_TRUNC) { __real_ftruncate(o->memfd, 0); o->size = 0; g_objsize[o->id] = 0; }
    }
    g_fds.push_back(Fd{o->id, cur_thr->proc, cur_thr->inc, true});
    return FD0 + (int)g_fds.size() - 1;
}
int __wrap_shm_unlink(const char* name) {
    if (!on()) return __real_shm_unlink(name);
    point(OP_SHM_UNLINK);
    Enter e;
    auto it = g_shmnames.find(norm(name));
    if (it == g_shmnames.end()) { errno = ENOENT; return -1; }
    trace("shm_unlink %s", it->first.c_str());
    g_shms[it->second]->linked = false;
    g_shmnames.erase(it);
    return 0;
}
int __wrap_ftruncate(int fd, off_t n) {
    Fd* f;
    if (!on() || !fake_fd(fd)) return __real_ftruncate(fd, n);
    point(OP_FTRUNCATE);
    Enter e;
    f = open_fd(fd, "ftruncate");
    static const int E[] = {ENOSPC, EINTR, EIO};
    int err;
    if (fail_op(OP_FTRUNCATE, &err, E, 1)) { errno = err; return -1; }
    if (n < 0) { errno = EINVAL; return -1; }
    if ((u64)n > SHMA_SLOT) { errno = EFBIG; return -1; }
    ShmObj* o = g_shms[f->obj];
    __real_ftruncate(o->memfd, n);
    o->size = n;
    g_objsize[o->id] = n;
    return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_posix_fallocate(int fd, off_t off, off_t len) {
    Fd* f;
    if (!on() || !fake_fd(fd)) return REAL(posix_fallocate)(fd, off, len);
    point(OP_FTRUNCATE);
    Enter e;
    f = open_fd(fd, "posix_fallocate");
    static const int E[] = {ENOSPC};
    int err;
    ShmObj* o = g_shms[f->obj];
    if (fail_op(OP_FTRUNCATE, &err, E, 1)) { if (err == ENOSPC) o->unbacked = true; return err; }   // (use of the memory is a bus error from now on)
    o->unbacked = false;
    if ((size_t)(off + len) > o->size) {
        if ((u64)(off + len) > SHMA_SLOT) return EFBIG;
        __real_ftruncate(o->memfd, off + len); o->size = off + len; g_objsize[o->id] = o->size;
    }
    return 0;
}
void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
    if (!on() || !fake_fd(fd)) return __real_mmap(a, len, prot, flags, fd, off);
    point(OP_MMAP);
    Enter e;
    Fd* f = open_fd(fd, "mmap");
    static const int E[] = {ENOMEM, EAGAIN};
    int err;
    if (fail_op(OP_MMAP, &err, E, 1)) { errno = err; return MAP_FAILED; }
    if (!len || off != 0) { errno = EINVAL; return MAP_FAILED; }
    if (len > SHMA_SLOT || g_maps.size() >= SHMA_N) { errno = ENOMEM; return MAP_FAILED; }
    ShmObj* o = g_shms[f->obj];
    size_t slot = g_maps.size();
    size_t rl = (len + 4095) & ~4095ull;
    void* p = __real_mmap((void*)(SHMA + slot * SHMA_SLOT), rl, o->unbacked ? PROT_NONE : prot, MAP_SHARED | MAP_FIXED, o->memfd, 0);
    if (p == MAP_FAILED) return p;
    g_maps.push_back(ShmMap{o->id, cur_thr->proc, cur_thr->inc, len, true});
    return p;
}
void* __wrap_mmap64(void* a, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(a, len, prot, flags, fd, off); }
int __wrap_munmap(void* a, size_t len) {
    if (!on() || (uptr)a - SHMA >= SHMA_SLOT * SHMA_N) return __real_munmap(a, len);
    point(OP_MUNMAP);
    Enter e;
    size_t slot = ((uptr)a - SHMA) / SHMA_SLOT;
    if (((uptr)a - SHMA) % SHMA_SLOT || slot >= g_maps.size() || !g_maps[slot].live || g_maps[slot].proc != cur_thr->proc)
        violation_fatal("memory", "munmap of an address that is not mapped; by%s", backtrace_str().c_str());
    if (((len + 4095) & ~4095ull) < ((g_maps[slot].len + 4095) & ~4095ull)) return 0;  // partial: the rest stays mapped
    g_maps[slot].live = false;
    __real_mmap((void*)(SHMA + slot * SHMA_SLOT), (g_maps[slot].len + 4095) & ~4095ull, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    return 0;
}
int __wrap_close(int fd) {
    if (!on()) return __real_close(fd);
    if (!fake_fd(fd)) {
        if (fd < 0) { errno = EBADF; return -1; }
        if (fd < 3) violation("memory", "close of standard descriptor %d; by%s", fd, backtrace_str().c_str());
        errno = EBADF;
        return -1;
    }
    point(OP_CLOSE);
    Enter e;
    open_fd(fd, "close")->open = false;
    return 0;
}
int __wrap_fstat(int fd, struct stat* st) {
    if (!on() || !fake_fd(fd)) return __real_fstat(fd, st);
    point(OP_FSTAT);
    Enter e;
    Fd* f = open_fd(fd, "fstat");
    ShmObj* o = g_shms[f->obj];
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644;
    st->st_nlink = o->linked ? 1 : 0;
    st->st_size = o->size;
    st->st_ino = 1000 + o->id;
    st->st_dev = 24;
    return 0;
}
int __wrap_fstat64(int fd, struct stat* st) { return __wrap_fstat(fd, st); }

// ---------------------------------------------------------------- clocks
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!on()) return REAL(clock_gettime)(c, ts);
    point(OP_CLOCK);
    i64 v = G.now;
    if (G.cfg.clk_ms && G.fault_t0 && G.clk_used < 80 * MS && (int)(mix(G.cfg.seed, (u64)(v >> 10)) % 100) < G.cfg.clk_ms) {   // time goes on until a whole millisecond
        const i64 d = 1000000 - (v + G.rt_off) % 1000000;
        G.now = v += d % 1000000;
        G.clk_used += d % 1000000;
    }
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += G.rt_off;
    else if (c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID) v += G.mono_off;
    ts->tv_sec = v / 1000000000;
    ts->tv_nsec = v % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
    if (!on()) { static auto f = real<int (*)(struct timeval*, void*)>("gettimeofday"); return f(tv, tz); }
    point(OP_CLOCK);
    i64 v = G.now + G.rt_off;
    tv->tv_sec = v / 1000000000;
    tv->tv_usec = v % 1000000000 / 1000;
    return 0;
}
time_t time(time_t* o) {
    if (!on()) { static auto f = real<time_t (*)(time_t*)>("time"); return f(o); }
    time_t v = (G.now + G.rt_off) / 1000000000;
    if (o) *o = v;
    return v;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!on()) return REAL(nanosleep)(ts, rem);
    if (!ts_ok(ts) || ts->tv_sec < 0) { errno = EINVAL; return -1; }
    point(OP_SLEEP);
    Enter e;
    i64 d = ts_ns(ts);
    sleep_until(d > INF - G.now ? INF : G.now + d);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
    if (!on()) return REAL(clock_nanosleep)(c, flags, ts, rem);
    if (!ts_ok(ts)) return EINVAL;
    point(OP_SLEEP);
    Enter e;
    if (flags & TIMER_ABSTIME) sleep_until(ts_abs(ts, c == CLOCK_REALTIME), c == CLOCK_REALTIME);
    else sleep_until(ts_ns(ts) > INF - G.now ? INF : G.now + ts_ns(ts));
    return 0;
}
int usleep(useconds_t us) {
    if (!on()) return REAL(usleep)(us);
    point(OP_SLEEP);
    Enter e; sleep_until(G.now + (i64)us * 1000); return 0;
}
unsigned sleep(unsigned s) {
    if (!on()) return REAL(sleep)(s);
    point(OP_SLEEP);
    Enter e; sleep_until(G.now + (i64)s * 1000000000); return 0;
}
int sched_yield() {
    if (!on()) return REAL(sched_yield)();
    point(OP_YIELD);
    { Enter e; if (!G.runq.empty()) { sleep_until(G.now + 1); } }
    return 0;
}

// ---------------------------------------------------------------- raw syscalls
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (!on()) {
        long r;
        register long r10 __asm__("r10") = a[3];
        register long r8 __asm__("r8") = a[4];
        register long r9 __asm__("r9") = a[5];
        __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
        return r;
    }
    if (n == SYS_futex) {
        int op = (int)a[1];
        int cmd = op & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        int* addr = (int*)a[0];
        point(OP_FUTEX);
        Enter e;
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
            long k = 0, max = a[2];
            while (k < max && wake_one(&futexq(addr))) k++;
            return k;
        }
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            const struct timespec* ts = (const struct timespec*)a[3];
            i64 dl = INF; bool rt = false;
            if (ts) {
                if (!ts_ok(ts)) { errno = EINVAL; return -1; }
                i64 v = ts_ns(ts);
                if (cmd == FUTEX_WAIT) dl = v > INF - G.now ? INF : G.now + v;
                else { rt = op & FUTEX_CLOCK_REALTIME; dl = ts_abs(ts, rt); }
            }
            i64 sp = spur("futex", 0);
            int r = block(&futexq(addr), dl, rt, "a future", sp);
            if (r == 1) { errno = ETIMEDOUT; return -1; }
            if (r == 2) { G.res->st.spur++; errno = EINTR; return -1; }
            return 0;
        }
        violation_fatal("unsupported", "futex operation %d", op);
    }
    if (n == SYS_gettid) return 100000 + cur_thr->tid;
    if (n == SYS_getrandom) { u8* b = (u8*)a[0]; for (long i = 0; i < a[1]; i++) b[i] = (u8)dev_rand(); return a[1]; }
    Enter e;
    long r;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

// ---------------------------------------------------------------- randomness, identity
int rand() { if (!on()) { static u64 s = 1; s = s * 6364136223846793005ull + 1; return (int)(s >> 33); } Enter e; return (int)(proc_rand(cur_thr->proc) & 0x7fffffff); }
void srand(unsigned s) { if (on()) { Enter e; G.proc[cur_thr->proc].rand_state = s; } }
long random() { return rand(); }
void srandom(unsigned s) { srand(s); }
ssize_t getrandom(void* b, size_t n, unsigned) { u8* p = (u8*)b; for (size_t i = 0; i < n; i++) p[i] = (u8)dev_rand(); return n; }
int getentropy(void* b, size_t n) { getrandom(b, n, 0); return 0; }
unsigned arc4random() { return (unsigned)dev_rand(); }
pid_t getpid() { if (!on()) return (pid_t)([]() { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(SYS_getpid) : "rcx", "r11", "memory"); return r; }()); return 10000 + cur_thr->proc * 100 + cur_thr->inc; }
int __wrap_kill(pid_t p, int sig) {
    if (!on()) return __real_kill(p, sig);
    int pr = (p - 10000) / 100, inc = (p - 10000) % 100;
    if (sig == 0 && p >= 10000 && pr < MAXP && G.proc[pr].alive && G.proc[pr].inc == inc) return 0;
    errno = ESRCH;
    return -1;
}

// ---------------------------------------------------------------- output of the library: dropped
int __wrap_printf(const char* f, ...) {
    if (on()) {
        if (G.tracing) {
            Enter e;
            va_list ap; va_start(ap, f);
            char b[512]; vsnprintf(b, sizeof b, f, ap);
            va_end(ap);
            size_t n = strlen(b); while (n && b[n - 1] == '\n') b[--n] = 0;
            trace("log: %s", b);
        }
        return 0;
    }
    va_list ap; va_start(ap, f);
    int r = vprintf(f, ap);
    va_end(ap);
    return r;
}
int __wrap_puts(const char* s) { if (on()) return 0; return fputs(s, stdout) >= 0 && fputc('\n', stdout) >= 0; }
int __wrap_putchar(int c) { if (on()) return c; return fputc(c, stdout); }
int __wrap_fprintf(FILE* fp, const char* f, ...) {
    if (on()) return 0;
    va_list ap; va_start(ap, f);
    int r = vfprintf(fp, f, ap);
    va_end(ap);
    return r;
}
}  // extern "C"

std::random_device::result_type std::random_device::_M_getval() { return (unsigned)dev_rand(); }
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
