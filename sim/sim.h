// Deterministic simulator core: scheduler, virtual time, decisions, synchronisation objects.
// Everything in namespace sim runs uninstrumented and, while `in_sim` is raised, bypasses all interposers.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <ctime>
#include <vector>
#include <string>
#include <deque>
#include <unordered_map>
#include <map>
#include <set>
#include <functional>
#include <pthread.h>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

constexpr int MAXT = 192;       // simulated threads per run
constexpr i64 MS = 1000000;     // ns
constexpr i64 INF = INT64_MAX;

struct VC {
    u32 c[MAXT];
    void clear() { for (int i = 0; i < MAXT; i++) c[i] = 0; }
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum ThrState { RUNNABLE, BLOCKED, STALLED, FINISHED, DEAD };

struct Thr;
struct WaitQ {
    std::deque<Thr*> q;
};

// the address ranges of the simulated shared memory: mappings are 8 GiB apart
constexpr u64 SHMA = 0x300000000000ull, SHMA_SLOT = 1ull << 33, SHMA_N = 2048;
struct Thr {
    int tid = 0;          // dense id in this run
    u32 lid = 0;          // logical id: proc<<16 | incarnation<<8 | k
    int proc = 0, inc = 0;
    ThrState st = RUNNABLE;
    int go = 0;           // futex word: the baton
    i64 deadline = INF;   // virtual monotonic deadline while BLOCKED / STALLED
    i64 rt_abs = 0;       // realtime deadline (recomputed after clock jumps)
    bool is_rt = false;
    i64 spur_at = INF;    // injected spurious wake
    int wake_reason = 0;  // 0 woken, 1 timeout, 2 spurious/EINTR
    WaitQ* wq = nullptr;
    i64 stall_until = 0;
    bool stalled_blocked = false;
    u64 nstep = 0, mstep = 0, next_mem = ~0ull, nalloc = 0;
    int next_mem_kind = 0; i64 next_mem_val = 0;
    size_t mem_pos = 0;
    u64 slice_m = 0, rq_at = 0; i64 rq_t = 0;
    uptr apc = 0;         // where the latest checked access came from
    VC vc;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    pthread_t real = 0;
    bool detached = false, joined = false, control = false, is_lib = true;
    WaitQ joinq;
    int prio = 0;
    u64 slice = 0;
    int nofault = 0;      // >0: no allocation / system call failures here
    int nocrash = 0;
    std::vector<int> held; // semaphore ids waited for and not yet posted
    std::vector<uptr> stack; // shadow call stack
    const char* blocked_on = "";
    std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
    std::vector<void*> mutexes;
    void* cxa_guard = nullptr;
};

// Kinds of recorded decisions
enum DK { D_SWITCH = 1, D_MEM, D_STALL, D_CRASH, D_CRASHM, D_JUMP, D_FAIL, D_SPUR, D_WAKE, D_ALLOC, D_NK };
extern const char* dk_name[];

struct Dev { u8 kind; u32 lid; u64 n; i64 val; };

// Operations (scheduling point labels; failable ones carry the failure decision)
enum Op { OP_NONE, OP_MUTEX_LOCK, OP_MUTEX_UNLOCK, OP_COND_WAIT, OP_COND_SIGNAL, OP_SEM_WAIT, OP_SEM_TIMEDWAIT, OP_SEM_POST,
          OP_SEM_OPEN, OP_SEM_CLOSE, OP_SEM_UNLINK, OP_SEM_GETVALUE, OP_SHM_OPEN, OP_SHM_UNLINK, OP_FTRUNCATE, OP_MMAP, OP_MUNMAP, OP_CLOSE, OP_FSTAT,
          OP_THREAD_CREATE, OP_THREAD_START, OP_THREAD_JOIN, OP_THREAD_EXIT, OP_CLOCK, OP_SLEEP, OP_YIELD, OP_FUTEX, OP_ONCE, OP_RWLOCK, OP_RANDOM, OP_USER, OP_NKINDS };
extern const char* op_name[];

struct Cfg {
    u64 seed = 1;
    int strategy = 0;       // 0 run-to-block FIFO, 1 random walk, 2 PCT
    int p_switch = 0;       // random switch at a scheduling point, per 10000
    int p_pick = 0;         // random choice when blocking, per 10000
    int mem_gap = 0;        // mean memory accesses between memory preemptions (0 = off)
    int pct_d = 3;
    int pct_len = 20000;
    int op_cost = 500;      // ns per scheduling point
    int p_stall = 0;        // per 1e6 points
    int stall_ms = 60;
    int stall_total = 600;
    int stall_lock_boost = 50;
    int p_spur = 0;         // spurious wake/EINTR per 10000 waits
    int p_jump = 0;         // wall clock steps per 1e6 points
    int p_alloc = 0;        // allocation failure per 1e6 allocations
    int p_fail = 0;         // system call failure per 10000 failable calls
    int max_fail = 1000000;
    int crash_proc = -1, crash_after = 0, crash_mem = 0; // crash that process after that many of its points
    int memcpy_dir = 0;     // 1: memcpy copies backwards
    int p_wake = 0;         // non-FIFO wake choice per 10000
    int race = 1;
    int fail_at = 0;        // the n-th failable call or allocation fails (alone)
    int fail_n = 1;         // ... and the following ones
    int p_atom = 0;         // preemption between an atomic access and the next access, per 100
    i64 up_ms = 0;          // the machine has run for this long before the run, by its monotonic clock
    i64 date_ms = 0;        // and it is so late by its wall clock
    int clk_ms = 0;         // percentage of clock readings that fall on a whole millisecond
    int oom_at = 0, oom_ms = 0; // from that moment (ms after faults begin), for so long, every allocation of the library fails
};

struct Stats {
    u64 points = 0, mems = 0, switches = 0, sched_hash = 0, ev_hash = 0;
    u64 fired[D_NK] = {0};
    u64 ops[OP_NKINDS] = {0};
    u64 lock_timeouts = 0, sem_timeouts = 0, eintr = 0, spur = 0, shm_moves = 0, threads = 0, procs_crashed = 0, jumps = 0, stalls = 0, fails = 0, allocfails = 0;
    u64 crash_in_lock = 0, crash_deferred = 0, allocs = 0, frees = 0;
    i64 vtime = 0;
    u64 probes[64] = {0};
};

struct Result {          // shared memory, written by the child
    int done;            // 0 running, 1 ok, 2 violation, 3 skip
    int crash_sig;
    char cls[96];
    char msg[4096];
    char trace[16384];
    Stats st;
    u64 foreign;         // relevant-to-other-properties observations
    char foreign_cls[256];
    u32 ndev;
    u32 devover;
    static constexpr u32 MAXDEV = 400000;
    Dev dev[MAXDEV];
    u32 nstat;
    char extra[8192];    // harness' own statistics (JSON fragment)
    i64 kf[8];
};

struct Proc {
    bool alive = false;
    int inc = 0;
    int nthreads = 0;
    u64 rand_state = 1;
    i64 live_blocks = 0, live_bytes = 0;
    int fds = 0, maps = 0, semh = 0;
    u64 points = 0;
};
constexpr int MAXP = 16;

struct Global {
    Cfg cfg;
    bool replay = false;
    bool sched_dev = true;   // schedule deviations enabled
    bool faults = false;     // fault injection enabled
    bool callfaults = false; // allocation / system-call failures enabled
    Result* res = nullptr;
    i64 now = 0;
    i64 rt_off = 0;
    i64 mono_off = 0;      // of the monotonic clocks to the virtual time
    u64 rng[4];
    std::vector<Thr*> thr;
    std::deque<Thr*> runq;
    Thr* cur = nullptr;
    std::map<std::pair<u64, u64>, i64> rep;  // (kind<<32|lid, n) -> val
    std::map<u32, std::vector<Dev>> rep_mem;
    Proc proc[MAXP];
    i64 stall_used = 0, clk_used = 0;
    i64 last_fault = 0, fault_t0 = 0;
    int nfail = 0;
    int nfailable = 0;
    i64 watch_deadline = INF;
    std::string watch_cls, watch_msg;
    std::function<void(std::string& cls, std::string& msg)> watch_fn;
    u64 max_points = 10000000, max_mems = 120000000;
    int crash_pending_proc = -1;
    std::function<void(int)> on_crash;
    std::function<bool(int)> crash_ok;   // may this process crash now?
    std::vector<u64> pct_points;
    int pct_low = 0, pct_high = 3000000;
    std::unordered_map<void*, VC*> syncvc;
    bool tracing = false;
    FILE* tracef = nullptr;
    u64 rand_dev = 0;
};
extern Global G;
extern thread_local Thr* cur_thr;
extern thread_local int in_sim;
extern bool g_active;

struct Enter { Enter() { ++in_sim; } ~Enter() { --in_sim; } };
static inline bool on() { return g_active && cur_thr && in_sim == 0; }

u64 rnd();
u64 rnd_below(u64 n);
bool rnd_p(u64 num, u64 den);
u64 mix(u64 a, u64 b);

// --- scheduling
void sched_init();
void point(Op op, void* obj = nullptr);
// Blocks the current thread. deadline in virtual monotonic ns, or (rt) realtime ns. Returns wake reason.
int block(WaitQ* q, i64 deadline, bool rt, const char* what, i64 spur_at = INF);
Thr* wake_one(WaitQ* q);
void wake_all(WaitQ* q);
void wake(Thr* t, int reason);
void mem_event(Thr* t);
i64 decide(DK k, u64 n, const std::function<i64()>& random);
void set_next_mem(Thr* t);
void crash_proc(int p);
void advance(i64 ns);
Thr* thread_create(void* (*fn)(void*), void* arg, int proc, bool detached, bool is_lib);
void* thread_join(Thr* t);
void sleep_until(i64 t, bool rt = false);
bool fail_op(Op op, int* err, const int* errs, int nerrs);
bool alloc_fails();
void clock_jump(i64 delta);

void acquire(const VC& v);
void release_to(VC& v);      // v := v join cur; cur epoch++
VC& syncvc(void* addr);

// --- reporting
// Fatal classes always end the run; soft ones are filtered by relevance.
[[noreturn]] void finish(int done);
void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void violation_fatal(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
extern std::function<bool(const char*)> cls_relevant;
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string backtrace_str();
void probe(int id);

// --- memory
void mem_setup();            // reserve arenas (zygote)
void mem_child_init();
void* heap_alloc(size_t n, int kind, size_t align = 16);
bool heap_owns(const void* p);
void heap_free(void* p, int kind);
size_t heap_size(void* p);
void heap_report_leaks(int proc, std::string& out, int max, u32 from_mark);
u32 heap_mark();
bool heap_rewind(u32 mark);          // forgets the blocks since the mark if all of them are freed
void control_tls_end();
void sync_freed(uptr lo, uptr hi);
void sync_forget(uptr lo, uptr hi); // ... and the synchronisation objects in them
void img_setup();            // writable globals of the library: one image per simulated process
void img_switch(int proc);
void proc_globals_reset(int proc);
bool img_in(const void* p);
static inline void* skey(void* a, int proc) { return img_in(a) ? (void*)((uptr)a ^ ((uptr)(proc + 1) << 56)) : a; }
void mem_range(const void* p, size_t n, bool write, void* pc);
i64 heap_live(int proc);
void heap_forget_proc(int proc);
void mark_heap_epoch();

// --- system objects
void sys_child_init();
void sys_crash_proc(int p);
struct SysCount { int shm_names, sem_names, fds, maps, semh; std::string names; };
SysCount sys_count(int proc);  // fds/maps/handles of that process; names overall
bool sem_held_foreign(int proc, std::string* name);
void sys_sem_owner(const std::string& name, int proc);
int* sem_value_by_name(const std::string& name);
void names_list(std::vector<std::string>& out);

// real syscalls
void real_futex_wait(int* a, int v);
void real_futex_wake(int* a);
[[noreturn]] void real_exit_group(int c);
}  // namespace sim

// C API for instrumented harness code
extern "C" unsigned veigar_sim_knob(int k);
