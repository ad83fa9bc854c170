// Memory: simulated heap with state and happens-before shadow, the __tsan_* runtime the instrumented code calls,
// and the wrapped mem* functions.
#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
extern char __data_start, _end;
}

namespace sim {
static const uptr HEAP = 0x200000000000ull, HEAP_SZ = 1ull << 29;        // 512 MB
static const uptr HSTATE = 0x210000000000ull;                            // 1 byte per 8
static const uptr HBLK = 0x218000000000ull;                              // u32 per 8
static const uptr HCELL = 0x220000000000ull;                             // 32 bytes per 8
static const uptr SCELL = 0x400000000000ull, SCELL_N = 512;              // per object: slot*4 (the mapping slots are at SHMA)
static const uptr GCELL = 0x510000000000ull;
static uptr g_lo, g_hi;
static uptr heap_top;

struct Block { uptr p; u32 size; u8 kind; u8 freed; u8 proc; u8 inc; u32 lid; uptr pc[3]; uptr fpc[2]; u32 flid; };
static Block* blocks;           // HB arena
static u32 nblocks;
static const u32 MAXBLK = 4u << 20;
static u8* hstate() { return (u8*)HSTATE; }
static u32* hblk() { return (u32*)HBLK; }

struct Cell { u64 e[4]; };
// entry: epoch 32 | tid 8 | mask 8 | flags 8 (1 write, 2 atomic, 4 valid) | 8
struct ShmMap { int obj; int proc; int inc; size_t len; bool live; };
std::vector<ShmMap> g_maps;     // index = slot
std::vector<size_t> g_objsize;  // by object id, maintained by sys.cpp

static void* reserve(uptr a, size_t n) {
    void* p = __real_mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "sim: cannot reserve %lx\n", (long)a); _exit(3); }
    return p;
}
void mem_setup() {
    reserve(HEAP, HEAP_SZ);
    reserve(HSTATE, HEAP_SZ / 8);
    reserve(HBLK, HEAP_SZ / 2);
    reserve(HCELL, HEAP_SZ * 4);
    reserve(SCELL, SCELL_N * SHMA_SLOT * 4);
    void* p = __real_mmap((void*)SHMA, SHMA_SLOT * SHMA_N, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)SHMA) { fprintf(stderr, "sim: cannot reserve shm\n"); _exit(3); }
    g_lo = (uptr)&__data_start & ~7ull;
    g_hi = ((uptr)&_end + 7) & ~7ull;
    reserve(GCELL, (g_hi - g_lo) * 4 + 4096);
    blocks = (Block*)__real_mmap(nullptr, sizeof(Block) * (size_t)MAXBLK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    heap_top = HEAP + 4096;
    nblocks = 1;
}
bool heap_owns(const void* p) { return (uptr)p - HEAP < HEAP_SZ; }

static void fill_pcs(uptr* pc, int n) {
    Thr* t = cur_thr;
    for (int i = 0; i < n; i++) pc[i] = 0;
    if (!t) return;
    for (int i = 0; i < n && i < (int)t->stack.size(); i++) pc[i] = t->stack[t->stack.size() - 1 - i];
}
extern "C" char __executable_start;
static std::string pcs(const uptr* pc, int n) {
    std::string s;
    for (int i = 0; i < n; i++) if (pc[i]) {
        char b[40]; snprintf(b, sizeof b, " pc:0x%lx", (unsigned long)(pc[i] - (uptr)&__executable_start)); s += b;
    }
    return s;
}
static const char* kinds[] = {"malloc", "new", "new[]"};

void* heap_alloc(size_t n, int kind, size_t align) {
    if (align < 16) align = 16;
    uptr p = (heap_top + align - 1) & ~(align - 1);
    size_t sz = n ? n : 1;
    if (sz > HEAP_SZ || p + sz + 32 > HEAP + HEAP_SZ || nblocks >= MAXBLK) {
        if (sz > (64u << 20)) return nullptr;  // absurd request: out of memory
        snprintf(G.res->msg, sizeof G.res->msg, "simulated heap exhausted");
        finish(3);
    }
    heap_top = p + ((sz + 7) & ~7ull) + 16;
    u32 id = nblocks++;
    Block& b = blocks[id];
    Thr* t = cur_thr;
    b.p = p; b.size = (u32)n; b.kind = kind; b.freed = 0; b.proc = t ? t->proc : 0; b.inc = t ? t->inc : 0; b.lid = t ? t->lid : 0;
    fill_pcs(b.pc, 3);
    uptr g0 = (p - HEAP) >> 3;
    size_t full = n >> 3;
    for (size_t i = 0; i < full; i++) hstate()[g0 + i] = 8;
    if (n & 7) hstate()[g0 + full] = n & 7;
    size_t gn = (sz + 7) >> 3;
    if (gn <= 8) for (size_t i = 0; i < gn; i++) hblk()[g0 + i] = id;
    else { hblk()[g0] = id; for (size_t i = 1; i < gn; i++) hblk()[g0 + i] = id; }
    __real_memset((void*)p, 0xCD, n);
    G.proc[b.proc].live_blocks++;
    G.proc[b.proc].live_bytes += n;
    if (G.res) G.res->st.allocs++;
    return (void*)p;
}
static Block* blk_at(uptr a) {
    if (a - HEAP >= HEAP_SZ) return nullptr;
    u32 id = hblk()[(a - HEAP) >> 3];
    return id ? &blocks[id] : nullptr;
}
static std::string blk_desc(uptr a) {
    Block* b = blk_at(a);
    if (!b) for (int k = 1; k <= 8 && !b; k++) b = blk_at(a - 8 * k);
    if (!b) return "no block";
    char s[256];
    snprintf(s, sizeof s, "%ld bytes into a block of %u bytes allocated by p%d.%d.%d", (long)(a - b->p), b->size, b->lid >> 16, (b->lid >> 8) & 255, b->lid & 255);
    std::string r = s;
    r += " at" + pcs(b->pc, 3);
    if (b->freed) { snprintf(s, sizeof s, ", freed by p%d.%d.%d at", b->flid >> 16, (b->flid >> 8) & 255, b->flid & 255); r += s + pcs(b->fpc, 2); }
    return r;
}
size_t heap_size(void* p) { Block* b = blk_at((uptr)p); return b ? b->size : 0; }
static void race_range(uptr a, size_t n, bool w, bool at, uptr pc, bool isfree);
void heap_free(void* p, int kind) {
    Block* b = blk_at((uptr)p);
    if (!b || b->p != (uptr)p) violation_fatal("memory", "free of an address that is no allocation: %s, by%s", blk_desc((uptr)p).c_str(), backtrace_str().c_str());
    if (b->freed) violation_fatal("memory", "double free: %s, by%s", blk_desc((uptr)p).c_str(), backtrace_str().c_str());
    if (b->kind != kind) violation_fatal("memory", "mismatched free: allocated with %s, freed as %s: %s", kinds[b->kind], kinds[kind], blk_desc((uptr)p).c_str());
    if (b->size) sync_freed((uptr)p, (uptr)p + b->size);
    if (G.cfg.race && cur_thr && b->size) race_range((uptr)p, b->size > 256 ? 256 : b->size, true, false, 0, true);
    b->freed = 1;
    Thr* t = cur_thr;
    b->flid = t ? t->lid : 0;
    fill_pcs(b->fpc, 2);
    size_t gn = ((size_t)b->size + 7) >> 3;
    uptr g0 = ((uptr)p - HEAP) >> 3;
    for (size_t i = 0; i < gn; i++) hstate()[g0 + i] = 0xF;
    __real_memset(p, 0xDD, b->size);
    if (b->inc == G.proc[b->proc].inc) {
        G.proc[b->proc].live_blocks--;
        G.proc[b->proc].live_bytes -= b->size;
    }
    if (G.res) G.res->st.frees++;
}
i64 heap_live(int proc) { return G.proc[proc].live_blocks; }
void heap_forget_proc(int p) { G.proc[p].live_blocks = 0; G.proc[p].live_bytes = 0; }
u32 heap_mark() { return nblocks; }
bool heap_rewind(u32 mark) {
    if (mark >= nblocks) return true;
    for (u32 i = mark; i < nblocks; i++) if (!blocks[i].freed) return false;
    const uptr lo = blocks[mark].p & ~7ull, hi = heap_top;
    const uptr g = (lo - HEAP) >> 3, n = (hi - lo + 7) >> 3;
    __real_memset(hstate() + g, 0, n);
    __real_memset(hblk() + g, 0, n * 4);
    __real_memset((void*)(HCELL + g * 32), 0, n * 32);
    sync_forget(lo, hi);
    heap_top = lo;
    nblocks = mark;
    return true;
}
void heap_report_leaks(int proc, std::string& out, int max, u32 from_mark) {
    int n = 0;
    for (u32 i = from_mark ? from_mark : 1; i < nblocks && n < max; i++) {
        Block& b = blocks[i];
        if (b.freed || b.proc != proc || b.inc != G.proc[proc].inc) continue;
        char s[160];
        snprintf(s, sizeof s, "\n    %u bytes (%s) by p%d.%d.%d at", b.size, kinds[b.kind], b.lid >> 16, (b.lid >> 8) & 255, b.lid & 255);
        out += s + pcs(b.pc, 3);
        n++;
    }
}

// ------------------------------------------------------------------ access checks
static inline u64 mk(u32 epoch, int tid, u8 mask, u8 fl) { return (u64)epoch << 32 | (u64)tid << 24 | (u64)mask << 16 | (u64)fl << 8; }
static __attribute__((noinline)) void race_found(uptr a, const char* where, u64 e, bool w, bool isfree) {
    Enter en;
    int ot = (e >> 24) & 255;
    Thr* o = G.thr[ot];
    Thr* t = cur_thr;
    const bool ow = (e >> 8) & 1;
    std::string d = heap_owns((void*)a) ? blk_desc(a) : std::string(where);
    violation("race", "data race: %s by p%d.%d.%d at%s conflicts with an earlier %s by p%d.%d.%d (thread stack now%s); %s",
              isfree ? "free" : w ? "write" : "read", t->proc, t->inc, t->lid & 255, backtrace_str().c_str(), ow ? "write" : "read",
              o->proc, o->inc, o->lid & 255, o->stack.empty() ? " gone" : pcs(&o->stack[o->stack.size() > 3 ? o->stack.size() - 3 : 0], (int)std::min<size_t>(3, o->stack.size())).c_str(), d.c_str());
}
static inline void race_cell(Cell* c, u8 mask, bool w, bool at, uptr a, const char* where, bool isfree) {
    Thr* t = cur_thr;
    const u32* vc = t->vc.c;
    u8 fl = 4 | (w ? 1 : 0) | (at ? 2 : 0);
    u64 me = mk(vc[t->tid], t->tid, mask, fl);
    int slot = -1, empty = -1;
    for (int i = 0; i < 4; i++) {
        u64 e = c->e[i];
        if (!e) { if (empty < 0) empty = i; continue; }
        if (e == me) return;
        u8 em = (e >> 16) & 255;
        int et = (e >> 24) & 255;
        u8 ef = (e >> 8) & 255;
        if (!(em & mask)) continue;
        if (img_in((void*)a) && (G.thr[et]->proc != t->proc || G.thr[et]->inc != t->inc || G.thr[et]->control || t->control)) { c->e[i] = 0; if (empty < 0) empty = i; continue; }
        bool hb = et == t->tid || vc[et] >= (u32)(e >> 32);
        if (!hb && (w || (ef & 1)) && !(at && (ef & 2)) && G.thr[et]->st != DEAD) { race_found(a, where, e, w, isfree); }
        if (hb && (em & ~mask) == 0 && (w || !(ef & 1)) && (!at || (ef & 2))) {
            if (slot < 0) slot = i; else c->e[i] = 0;
        }
    }
    if (slot < 0) slot = empty;
    if (slot < 0) slot = (int)((vc[t->tid] ^ (a >> 3)) & 3);
    c->e[slot] = me;
}
static Cell* cell_of(uptr a, const char** where) {
    if (a - HEAP < HEAP_SZ) { *where = "heap"; return (Cell*)(HCELL + ((a - HEAP) >> 3) * 32); }
    if (a - SHMA < SHMA_SLOT * SHMA_N) {
        size_t slot = (a - SHMA) / SHMA_SLOT;
        if (slot >= g_maps.size() || g_maps[slot].obj >= (int)SCELL_N) return nullptr;
        *where = "shared memory";
        return (Cell*)(SCELL + (u64)g_maps[slot].obj * SHMA_SLOT * 4 + (((a - SHMA) % SHMA_SLOT) >> 3) * 32);
    }
    if (a - g_lo < g_hi - g_lo) { *where = "global variable"; return (Cell*)(GCELL + ((a - g_lo) >> 3) * 32); }
    return nullptr;
}
static void race_range(uptr a, size_t n, bool w, bool at, uptr, bool isfree) {
    uptr end = a + n;
    const char* where = "";
    while (a < end) {
        uptr base = a & ~7ull;
        uptr lim = base + 8 < end ? base + 8 : end;
        u8 mask = (u8)(((1u << (lim - base)) - 1) & ~((1u << (a - base)) - 1));
        Cell* c = cell_of(base, &where);
        if (c) race_cell(c, mask, w, at, a, where, isfree);
        a = lim;
    }
}
static __attribute__((noinline)) void heap_bad(uptr a, size_t n, bool w) {
    Enter e;
    Block* b = blk_at(a);
    violation_fatal("memory", "%s of %zu bytes %s: %s; by%s", w ? "write" : "read", n, b && b->freed ? "after free" : "outside an allocation",
                    blk_desc(a).c_str(), backtrace_str().c_str());
}
static inline void heap_check(uptr a, size_t n, bool w) {
    uptr o = a - HEAP;
    uptr g = o >> 3, ge = (o + n - 1) >> 3;
    u8 s = hstate()[g];
    if (s != 8) {
        if (s == 0 || s == 0xF || ((ge == g) ? ((o & 7) + n > s) : true)) heap_bad(a, n, w);
    }
    for (uptr i = g + 1; i <= ge; i++) {
        u8 q = hstate()[i];
        if (q == 8) continue;
        if (q == 0 || q == 0xF || (i < ge) || (((o + n - 1) & 7) + 1 > q)) heap_bad(a, n, w);
    }
}
static __attribute__((noinline)) void shm_check(uptr a, size_t n, bool w) {
    size_t slot = (a - SHMA) / SHMA_SLOT, off = (a - SHMA) % SHMA_SLOT;
    Enter e;
    if (slot >= g_maps.size()) violation_fatal("memory", "access to an address never mapped; by%s", backtrace_str().c_str());
    ShmMap& m = g_maps[slot];
    if (!m.live) violation_fatal("memory", "%s of shared memory after munmap; by%s", w ? "write" : "read", backtrace_str().c_str());
    if (m.proc != cur_thr->proc || m.inc != cur_thr->inc) violation_fatal("memory", "access to another process' mapping; by%s", backtrace_str().c_str());
    if (off + n > m.len) violation_fatal("memory", "%s of %zu bytes at offset %zu past the end of a %zu byte shared mapping; by%s", w ? "write" : "read", n, off, m.len, backtrace_str().c_str());
    if (off + n > ((g_objsize[m.obj] + 4095) & ~4095ull)) violation_fatal("memory", "SIGBUS: %s at offset %zu of a shared object of %zu bytes; by%s", w ? "write" : "read", off, g_objsize[m.obj], backtrace_str().c_str());
}
static inline void access_(uptr a, size_t n, bool w, bool at, uptr pc) {
    if (pc) cur_thr->apc = pc;
    if (a - HEAP < HEAP_SZ) heap_check(a, n, w);
    else if (a - SHMA < SHMA_SLOT * SHMA_N) shm_check(a, n, w);
    else if (a - g_lo >= g_hi - g_lo) { if (a < 4096) { Enter e; violation_fatal("memory", "null pointer %s (address 0x%lx); by%s", w ? "write" : "read", (long)a, backtrace_str().c_str()); } return; }
    Thr* t = cur_thr;
    if (++t->mstep >= t->next_mem) {
        mem_event(t);
        // the world may have changed while others ran
        if (a - HEAP < HEAP_SZ) heap_check(a, n, w);
        else if (a - SHMA < SHMA_SLOT * SHMA_N) shm_check(a, n, w);
    }
    if (G.cfg.race) {
        if ((a & 7) + n <= 8) {
            const char* where = "";
            Cell* c = cell_of(a & ~7ull, &where);
            if (c) race_cell(c, (u8)(((1u << n) - 1) << (a & 7)), w, at, a, where, false);
        } else race_range(a, n, w, at, pc, false);
    }
}
void mem_range(const void* p, size_t n, bool write, void* pc) {
    if (!n) return;
    uptr a = (uptr)p;
    if (a - HEAP < HEAP_SZ || a - SHMA < SHMA_SLOT * SHMA_N) {
        // one step per range, full checking
        access_(a, 1, write, false, (uptr)pc);
        if (n > 1) {
            if (a - HEAP < HEAP_SZ) heap_check(a, n, write); else shm_check(a, n, write);
            if (G.cfg.race) race_range(a, n, write, false, (uptr)pc, false);
        }
    } else if (a - g_lo < g_hi - g_lo) { if (G.cfg.race) race_range(a, n, write, false, (uptr)pc, false); }
    else if (a < 4096) access_(a, n, write, false, (uptr)pc);
}
}  // namespace sim
using namespace sim;

// ------------------------------------------------------------------ tsan ABI
#define PC ((uptr)__builtin_return_address(0))
#define RW(n)                                                                                                          \
    extern "C" void __tsan_read##n(void* a) { if (on()) access_((uptr)a, n, false, false, PC); }                         \
    extern "C" void __tsan_write##n(void* a) { if (on()) access_((uptr)a, n, true, false, PC); }                         \
    extern "C" void __tsan_unaligned_read##n(void* a) { if (on()) access_((uptr)a, n, false, false, PC); }               \
    extern "C" void __tsan_unaligned_write##n(void* a) { if (on()) access_((uptr)a, n, true, false, PC); }               \
    extern "C" void __tsan_volatile_read##n(void* a) { if (on()) access_((uptr)a, n, false, false, PC); }                \
    extern "C" void __tsan_volatile_write##n(void* a) { if (on()) access_((uptr)a, n, true, false, PC); }                \
    extern "C" void __tsan_unaligned_volatile_read##n(void* a) { if (on()) access_((uptr)a, n, false, false, PC); }      \
    extern "C" void __tsan_unaligned_volatile_write##n(void* a) { if (on()) access_((uptr)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
extern "C" void __tsan_init() {}
extern "C" void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) access_((uptr)p, 8, true, false, PC); }
extern "C" void __tsan_vptr_read(void** p) { if (on()) access_((uptr)p, 8, false, false, PC); }
extern "C" void __tsan_read_range(void* a, size_t n) { if (on()) mem_range(a, n, false, (void*)PC); }
extern "C" void __tsan_write_range(void* a, size_t n) { if (on()) mem_range(a, n, true, (void*)PC); }
extern "C" void __tsan_func_entry(void* pc) {
    if (!g_active || !cur_thr || in_sim) return;
    cur_thr->stack.push_back((uptr)pc);
}
extern "C" void __tsan_func_exit() {
    if (!g_active || !cur_thr || in_sim) return;
    if (!cur_thr->stack.empty()) cur_thr->stack.pop_back();
}
extern "C" void __tsan_ignore_thread_begin() {}
extern "C" void __tsan_ignore_thread_end() {}

// the same shared memory may be mapped at several addresses
static inline void* atkey(void* a) {
    uptr d = (uptr)a - SHMA;
    if (d < SHMA_SLOT * SHMA_N) { size_t slot = d / SHMA_SLOT; if (slot < g_maps.size()) return (void*)(((uptr)1 << 63) | ((uptr)g_maps[slot].obj << 40) | d % SHMA_SLOT); }
    return skey(a, cur_thr->proc);
}
static void at_sync(void* a, int mo, bool load, bool store) {
    Enter e;
    // code that works on atomics without a lock leaves its window between two of them
    if (G.cfg.p_atom && !G.replay && G.sched_dev && cur_thr->next_mem_kind != D_CRASHM && rnd_p(G.cfg.p_atom, 100)) {
        cur_thr->next_mem = cur_thr->mstep + 1;
        cur_thr->next_mem_kind = D_MEM;
    }
    a = atkey(a);
    if (load && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) { auto it = G.syncvc.find(a); if (it != G.syncvc.end()) acquire(*it->second); }
    if (store && (mo == 3 || mo == 4 || mo == 5)) release_to(syncvc(a));
}
#define AT(bits, T)                                                                                                                \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                                                         \
        if (on()) { access_((uptr)a, bits / 8, false, true, PC); at_sync((void*)a, mo, true, false); }                             \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                                                                             \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                                                      \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, false, true); }                              \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                                                                                \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                                                      \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                                                                      \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                                                     \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                                                                       \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                                                     \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                                                                       \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                                                     \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                                                                       \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                                                      \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                                                                        \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                                                     \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                                                                       \
    extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                                                    \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); at_sync((void*)a, mo, true, true); }                               \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                                                                      \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {                     \
        if (on()) { access_((uptr)a, bits / 8, true, true, PC); }                                                                  \
        bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                 \
        if (on()) at_sync((void*)a, ok ? mo : fmo, true, ok);                                                                      \
        return ok; }                                                                                                               \
    extern "C" bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {                       \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); }                                                  \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                            \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
static VC* g_fence_vc;
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    Enter e;
    if (!g_fence_vc) { g_fence_vc = new VC; g_fence_vc->clear(); }
    acquire(*g_fence_vc);
    release_to(*g_fence_vc);
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ mem* wrappers (calls made by instrumented objects)
static inline bool tracked(const void* p) { return heap_owns(p) || (uptr)p - SHMA < SHMA_SLOT * SHMA_N; }
static inline bool in_shm(const void* p) { return (uptr)p - SHMA < SHMA_SLOT * SHMA_N; }
extern "C" size_t __real__ZSt11_Hash_bytesPKvmm(const void*, size_t, size_t);
extern "C" size_t __wrap__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) {
    if (on() && n) mem_range(p, n, false, (void*)PC);
    return __real__ZSt11_Hash_bytesPKvmm(p, n, seed);
}
extern "C" void* __wrap_memcpy(void* d, const void* s, size_t n) {
    if (!on() || !n || (!in_shm(d) && !in_shm(s))) {
        if (on() && n) { mem_range(s, n, false, (void*)PC); mem_range(d, n, true, (void*)PC); }
        return __real_memmove(d, s, n);
    }
    // Shared memory: chunk by chunk, so that a preemption or crash can fall inside; memcpy may copy in any direction.
    if ((uptr)d < (uptr)s + n && (uptr)s < (uptr)d + n && d != s) G.res->st.shm_moves++;
    size_t chunk = n <= 64 ? 8 : n <= 1024 ? 64 : 512;
    size_t nch = (n + chunk - 1) / chunk;
    for (size_t i = 0; i < nch; i++) {
        size_t k = G.cfg.memcpy_dir ? nch - 1 - i : i;
        size_t o = k * chunk, l = o + chunk > n ? n - o : chunk;
        mem_range((const u8*)s + o, l, false, (void*)PC);
        mem_range((u8*)d + o, l, true, (void*)PC);
        u8 tmp[512];
        __real_memcpy(tmp, (const u8*)s + o, l);
        __real_memcpy((u8*)d + o, tmp, l);
    }
    return d;
}
extern "C" void* __wrap_memmove(void* d, const void* s, size_t n) {
    if (!on() || !n || (!in_shm(d) && !in_shm(s))) {
        if (on() && n) { mem_range(s, n, false, (void*)PC); mem_range(d, n, true, (void*)PC); }
        return __real_memmove(d, s, n);
    }
    if ((uptr)d < (uptr)s + n && (uptr)s < (uptr)d + n && d != s) G.res->st.shm_moves++;
    size_t chunk = n <= 64 ? 8 : n <= 1024 ? 64 : 512;
    size_t nch = (n + chunk - 1) / chunk;
    bool back = (uptr)d > (uptr)s;
    for (size_t i = 0; i < nch; i++) {
        size_t k = back ? nch - 1 - i : i;
        size_t o = k * chunk, l = o + chunk > n ? n - o : chunk;
        mem_range((const u8*)s + o, l, false, (void*)PC);
        mem_range((u8*)d + o, l, true, (void*)PC);
        u8 tmp[512];
        __real_memcpy(tmp, (const u8*)s + o, l);
        __real_memcpy((u8*)d + o, tmp, l);
    }
    return d;
}
namespace sim { void shm_punch(u64 a, u64 n); }
extern "C" void* __wrap_memset(void* d, int c, size_t n) {
    if (on() && n) {
        if (in_shm(d)) {
            if (n > (16u << 20) && !c) {   // giant objects stay sparse
                const u64 head = 4096 - (((uptr)d - SHMA) & 4095);
                __wrap_memset(d, 0, head);
                const u64 mid = (n - head) & ~4095ull;
                mem_range((u8*)d + head, 1, true, (void*)PC);
                mem_range((u8*)d + head + mid - 1, 1, true, (void*)PC);
                { Enter e; shm_punch((uptr)d + head, mid); }
                if (n > head + mid) __wrap_memset((u8*)d + head + mid, 0, n - head - mid);
                return d;
            }
            size_t chunk = n <= 64 ? 8 : n <= 1024 ? 64 : 1024;
            for (size_t o = 0; o < n; o += chunk) {
                size_t l = o + chunk > n ? n - o : chunk;
                mem_range((u8*)d + o, l, true, (void*)PC);
                __real_memset((u8*)d + o, c, l);
            }
            return d;
        }
        mem_range(d, n, true, (void*)PC);
    }
    return __real_memset(d, c, n);
}
extern "C" int __wrap_memcmp(const void* a, const void* b, size_t n) {
    if (on() && n) { mem_range(a, n, false, (void*)PC); mem_range(b, n, false, (void*)PC); }
    return __real_memcmp(a, b, n);
}

// ------------------------------------------------------------------ allocation
extern "C" void* __wrap_malloc(size_t n) {
    if (!on()) return __real_malloc(n);
    if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    Enter e;
    void* p = heap_alloc(n, 0);
    if (!p) errno = ENOMEM;
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (!p) return;
    if (heap_owns(p)) { Enter e; heap_free(p, 0); return; }
    __real_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b) {
    if (!on()) return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = __wrap_malloc(n);
    if (p) { Enter e; __real_memset(p, 0, n); }
    return p;
}
extern "C" void* __wrap_realloc(void* p, size_t n) {
    if (p && !heap_owns(p)) return __real_realloc(p, n);
    if (!p && !on()) return __real_realloc(p, n);
    if (!on()) { Enter e; void* q = __real_malloc(n); size_t o = heap_size(p); __real_memcpy(q, p, o < n ? o : n); heap_free(p, 0); return q; }
    void* q = __wrap_malloc(n);
    if (!q) return nullptr;
    Enter e;
    if (p) {
        size_t o = heap_size(p);
        __real_memcpy(q, p, o < n ? o : n);
        heap_free(p, 0);
    }
    return q;
}
static void* new_(size_t n, int kind, bool nothrow, size_t align = 16) {
    if (!on()) {
        void* p = align > 16 ? nullptr : __real_malloc(n ? n : 1);
        if (align > 16 && posix_memalign(&p, align, n)) p = nullptr;
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        return p;
    }
    if (alloc_fails()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p;
    { Enter e; p = heap_alloc(n, kind, align); }
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void del_(void* p, int kind) {
    if (!p) return;
    if (heap_owns(p)) { Enter e; heap_free(p, kind); return; }
    __real_free(p);
}
void* operator new(size_t n) { return new_(n, 1, false); }
void* operator new[](size_t n) { return new_(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_(n, 2, true); }
void* operator new(size_t n, std::align_val_t a) { return new_(n, 1, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_(n, 2, false, (size_t)a); }
void operator delete(void* p) noexcept { del_(p, 1); }
void operator delete[](void* p) noexcept { del_(p, 2); }
void operator delete(void* p, size_t) noexcept { del_(p, 1); }
void operator delete[](void* p, size_t) noexcept { del_(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { del_(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { del_(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_(p, 1); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_(p, 2); }

// ------------------------------------------------------------------ images of the library's writable globals
extern "C" { extern char vg_data_lo[], vg_data_hi[], vg_bss_lo[], vg_bss_hi[]; }
namespace sim {
void mem_child_init() {}
static int img_cur = 15;
static std::vector<char> img_pristine, img_of[MAXP];
static size_t img_dn, img_bn;
bool img_in(const void* p) { return ((char*)p >= vg_data_lo && (char*)p < vg_data_hi) || ((char*)p >= vg_bss_lo && (char*)p < vg_bss_hi); }
static void img_save(std::vector<char>& v) {
    v.resize(img_dn + img_bn);
    if (img_dn) __real_memcpy(v.data(), vg_data_lo, img_dn);
    if (img_bn) __real_memcpy(v.data() + img_dn, vg_bss_lo, img_bn);
}
static void img_load(const std::vector<char>& v) {
    if (img_dn) __real_memcpy(vg_data_lo, v.data(), img_dn);
    if (img_bn) __real_memcpy(vg_bss_lo, v.data() + img_dn, img_bn);
}
void img_setup() {
    img_dn = &vg_data_hi[0] > &vg_data_lo[0] ? (uptr)vg_data_hi - (uptr)vg_data_lo : 0;
    img_bn = &vg_bss_hi[0] > &vg_bss_lo[0] ? (uptr)vg_bss_hi - (uptr)vg_bss_lo : 0;
    img_save(img_pristine);
    for (int i = 0; i < MAXP; i++) img_of[i] = img_pristine;
}
void img_switch(int p) {
    if (p == img_cur) return;
    img_save(img_of[img_cur]);
    img_load(img_of[p]);
    img_cur = p;
}
void proc_globals_reset(int p) {
    if (p == img_cur) img_load(img_pristine);
    img_of[p] = img_pristine;
}
}
