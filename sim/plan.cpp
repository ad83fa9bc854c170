// Workload and fault generators (one per property) and the text form of a plan.
#include "world.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <sstream>

namespace world {
namespace {
struct R {
    u64 s;
    u64 next() { s = mix(s, 0x51ed); return s; }
    int below(int n) { return n <= 0 ? 0 : (int)(next() % (u64)n); }
    int in(int a, int b) { return a + below(b - a + 1); }
    bool p(int percent) { return below(100) < percent; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below((int)l.size())); }
};
WOp mk(int op, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0, i64 e = 0, i64 f = 0) { WOp w; w.op = op; w.a = a; w.b = b; w.c = c; w.d = d; w.e = e; w.f = f; return w; }
const i64 LONG = 1000000;   // a timeout that must never be needed

void base(Plan& p, R& r) {
    for (int i = 0; i < 3; i++) p.knob[i] = r.pick({1, 1, 2, 2, 3});
    Cfg& c = p.cfg;
    int k = r.below(10);
    if (k == 0) c.strategy = 0;
    else if (k < 7) {
        c.strategy = 1;
        c.p_switch = r.pick({30, 300, 1000, 2500});
        c.p_pick = r.pick({1000, 5000, 10000});
        c.mem_gap = r.pick({0, 0, 20000, 3000, 400});
    } else {
        c.strategy = 2;
        c.pct_d = r.in(1, 6);
        c.pct_len = r.pick({2000, 8000, 30000});
        c.mem_gap = r.pick({0, 0, 5000});
    }
    c.op_cost = r.pick({200, 1000, 1000, 20000});
    c.p_wake = r.pick({0, 0, 3000});
    c.memcpy_dir = r.below(2);
    c.stall_total = 0;
    c.p_atom = c.strategy ? r.pick({0, 0, 0, 1, 4, 20}) : 0;
}
void stalls(Plan& p, R& r, int level = 1) {
    Cfg& c = p.cfg;
    p.flags |= FL_FAULTS;
    if (r.p(20)) return;
    c.p_stall = r.pick({200, 1000, 4000}) * level;
    c.stall_ms = r.pick({5, 45, 60, 200});
    c.stall_total = r.pick({150, 600, 1500});
    c.stall_lock_boost = r.pick({1, 20, 50});
}
void spurs(Plan& p, R& r) { p.flags |= FL_FAULTS; if (r.p(60)) p.cfg.p_spur = r.pick({100, 1000, 4000}); }
void jumps(Plan& p, R& r) {
    p.flags |= FL_FAULTS;
    if (r.p(50)) p.cfg.p_jump = r.pick({50, 400, 2000});
    if (r.p(30)) { p.ctl.push_back(mk(W_SLEEP, r.in(0, 80000))); p.ctl.push_back(mk(W_JUMP, r.pick({-3600000, -5000, -900, 700, 5000, 86400000}))); }
}
// What the clocks show when the run begins: any date and any time since the machine was started, now and then just before a counter of 31 or 32 bits overflows.
void clocks(Plan& p, u64 seed) {
    R r{mix(seed, 0x636c6f636b)};
    const i64 before = (i64)r.pick({r.in(0, 20), r.in(0, 300), r.in(0, 20000)});
    p.cfg.up_ms = r.p(50) ? (i64)r.in(0, 1000000) * 37777 : std::max<i64>(0, r.pick({(i64)2147483, (i64)4294967, (i64)2147483648, (i64)4294967296, (i64)2147483, (i64)2147483648}) - 1000 - before);
    p.cfg.date_ms = r.p(85) ? 1580000000000 + (i64)r.in(0, 1000000) * 1000003 : r.pick({(i64)2147483648, (i64)4294967296}) * 1000 - 1000 - r.in(0, 20000);
}
WInst inst(int proc, int chan, int cap, int msg, int autoinit = 1, int rw = 0) { WInst w; w.proc = proc; w.chan = chan; w.cap = cap; w.msg = msg; w.autoinit = autoinit; w.rw = rw; return w; }

// a geometry whose sizes do not fit 31 or 32 bits: 2^31, 2^32 and just above a multiple of 2^32, where a truncated size looks sane
void giant(Plan& p, R& r, int i) {
    static const int g[][2] = {{65536, 32768}, {65537, 32768}, {65536, 65536}, {65537, 65536}, {90000, 50000}, {70000, 40000}, {131073, 32768}, {66001, 65537}};
    int k = r.below(8);
    p.insts[i].cap = g[k][0];
    p.insts[i].msg = g[k][1];
}
// a standard topology: several processes, channels 0..n-1
void topo(Plan& p, R& r, int maxproc, int maxinst, int cap = 0, int msg = 0) {
    p.nproc = r.in(1, maxproc);
    int ni = std::max(p.nproc, r.in(1, maxinst));
    for (int i = 0; i < ni; i++)
        p.insts.push_back(inst(i < p.nproc ? i : r.below(p.nproc), i, cap ? cap : r.pick({6, 12, 24}), msg ? msg : r.pick({200, 300, 512})));
}
int some_inst(Plan& p, R& r, int proc) {
    std::vector<int> v;
    for (size_t i = 0; i < p.insts.size(); i++) if (p.insts[i].proc == proc) v.push_back((int)i);
    return v.empty() ? -1 : v[r.below((int)v.size())];
}
int any_func(R& r) {
    return r.pick({F_F, F_F, F_F1, F_F10, F_F1X, F_LONG, F_SUM, F_VEC, F_MAP, F_VOID, F_THROW, F_THROWI, F_BIG, F_ZERO, F_VZERO, F_NOFN, F_BADARG, F_STRUCT, F_MIX, F_DYN});
}
int plain_func(R& r) { return r.pick({F_F, F_F1, F_F10, F_F1X, F_LONG, F_SUM, F_VEC, F_VOID, F_STRUCT, F_MIX, F_ZERO}); }
i64 size_for(Plan& p, R& r, int func, int chan) {
    int cap = 6, msg = 200;
    for (auto& w : p.insts) if (w.chan == chan) { cap = w.cap; msg = w.msg; }
    int m = r.below(20);
    if (func == F_SLOW) return r.in(0, 30);
    if (m < 12) return r.in(0, 40);
    if (m < 16) return r.in(0, 200);
    if (m < 18) return r.in(msg - 150 > 0 ? msg - 150 : 0, msg + 80);
    if (m < 19) return r.in(0, cap * msg / 2);
    return r.in(0, std::max(1, cap * msg - 420));
}
WOp call(Plan& p, R& r, int inst, int chan, int func, i64 timeout, int kind = -1) {
    return mk(W_CALL, inst, chan, kind < 0 ? r.pick({0, 0, 1, 1, 2}) : kind, func, size_for(p, r, func, chan), timeout);
}
int some_chan(Plan& p, R& r) { return p.insts[r.below((int)p.insts.size())].chan; }
// promises given up while they may still be pending
void releases(Plan& p, R& r) {
    for (auto& t : p.threads)
        for (size_t i = 0; i < t.ops.size(); i++)
            if (t.ops[i].op == W_CALL && t.ops[i].c == 1 && r.p(25)) t.ops.insert(t.ops.begin() + ++i, mk(W_RELEASE, r.in(1, 2)));
}
// read signals without a message
void signals(Plan& p, R& r, int n) {
    WThread th; th.proc = r.below(p.nproc);
    while (n-- > 0) { th.ops.push_back(mk(W_SIGNAL, some_chan(p, r), r.below(2), r.pick({1, 1, 2, 5}))); th.ops.push_back(mk(W_SLEEP, r.pick({r.in(1, 300), r.in(1, 30000)}))); }
    p.threads.push_back(th);
}
}  // namespace

// ---------------------------------------------------------------- generators
static void g_mixed(Plan& p, R& r, int maxproc, int maxinst, int threads, int ops, bool strange) {
    topo(p, r, maxproc, maxinst);
    int nt = r.in(2, threads);
    for (int t = 0; t < nt; t++) {
        WThread th;
        th.proc = t < p.nproc ? t : r.below(p.nproc);
        int n = r.in(2, ops);
        for (int i = 0; i < n; i++) {
            int in = some_inst(p, r, th.proc);
            int ch = strange && r.p(4) ? 90 : some_chan(p, r);
            int fn = any_func(r);
            th.ops.push_back(call(p, r, in, ch, fn, r.p(12) && strange ? r.pick({0, 1, 20, 60, 300}) : r.pick({(i64)5000, (i64)20000, LONG})));
            if (r.p(12)) th.ops.push_back(mk(W_SLEEP, r.in(1, 20000)));
            if (r.p(15)) th.ops.push_back(mk(W_COLLECT, 8000, 0));
        }
        th.ops.push_back(mk(W_COLLECT, 8000, 0));
        p.threads.push_back(th);
    }
}
// many outstanding calls: the target's workers are occupied by gate(), then the backlog runs
static void g_backlog(Plan& p, R& r, int nproc) {
    p.nproc = nproc;
    int cap = r.pick({24, 40, 64});
    for (int i = 0; i < std::max(nproc, r.in(1, 3)); i++) p.insts.push_back(inst(i % nproc, i, cap, 400));
    int target = r.below((int)p.insts.size());
    int nt = r.in(1, 3);
    for (int t = 0; t < nt; t++) {
        WThread th;
        th.proc = r.below(nproc);
        int in = some_inst(p, r, th.proc);
        if (t == 0) for (int g = 0; g < p.knob[0]; g++) th.ops.push_back(mk(W_CALL, in, p.insts[target].chan, r.in(1, 2), F_GATE, g, 20000));
        int n = r.in(6, cap / nt > 30 ? 30 : cap / nt);
        for (int i = 0; i < n; i++) th.ops.push_back(mk(W_CALL, in, r.p(90) ? p.insts[target].chan : some_chan(p, r), r.in(1, 2), r.pick({F_F, F_F1, F_F10, F_F1X, F_LONG, F_SUM, F_VEC, F_THROW}), r.in(0, 30), 20000));
        th.ops.push_back(mk(W_SLEEP, r.in(100, 40000)));
        if (t == 0 || r.p(50)) th.ops.push_back(mk(W_GATE));
        th.ops.push_back(mk(W_COLLECT, 15000, 0));
        p.threads.push_back(th);
    }
    p.ctl.push_back(mk(W_SLEEP, r.in(20000, 90000)));
    p.ctl.push_back(mk(W_GATE));
}
// hundreds of calls of one instance that are outstanding at the same time
static void g_flood(Plan& p, R& r) {
    p.nproc = r.in(1, 2);
    int n = r.p(6) ? 1100 : r.pick({70, 140, 270, 300});
    int cap = r.pick({n + 10, n + 10, 40, 200});
    p.insts.push_back(inst(0, 0, cap, 256));
    p.insts.push_back(inst(p.nproc - 1, 1, cap, 256));
    WThread th;
    for (int g = 0; g < p.knob[0]; g++) th.ops.push_back(mk(W_CALL, 0, 1, r.in(1, 2), F_GATE, g, LONG));
    int kind = r.in(1, 2);
    for (int i = 0; i < n; i++) th.ops.push_back(mk(W_CALL, 0, 1, r.p(90) ? kind : 3 - kind, r.pick({F_F, F_F1, F_SUM, F_F1X, F_LONG}), r.in(0, 10), LONG));
    th.ops.push_back(mk(W_GATE));
    th.ops.push_back(mk(W_COLLECT, 60000, 0));
    p.threads.push_back(th);
    p.cfg.mem_gap = p.cfg.p_atom = 0;
    p.cfg.p_switch = r.pick({30, 300});
    p.cfg.op_cost = std::min<i64>(p.cfg.op_cost, 1000);   // (or the senders that retry take all the time there is)
}
// calls that are still outstanding when their instance has made very many more
static void g_age(Plan& p, R& r) {
    p.nproc = r.in(1, 2);
    p.insts.push_back(inst(0, 0, 8, 64));
    p.insts.push_back(inst(p.nproc - 1, 1, 40, 256));
    const int n = r.pick({4096, 65536, 65536, 65536, 65536});   // a number that an id may wrap at
    WThread th;
    const int g = p.knob[0] + r.below(3);
    for (int k = 0; k < g; k++) th.ops.push_back(mk(W_CALL, 0, 1, r.in(1, 2), F_GATE, k, LONG));
    th.ops.push_back(mk(W_AGE, 0, n - g - r.below(4)));
    for (int k = 0; k < g + 6; k++) th.ops.push_back(mk(W_CALL, 0, 1, r.in(1, 2), r.p(80) ? F_GATE : F_F, r.in(0, 10), LONG));
    th.ops.push_back(mk(W_GATE));
    th.ops.push_back(mk(W_COLLECT, 60000, 0));
    p.threads.push_back(th);
    p.cfg.mem_gap = p.cfg.p_atom = 0;
    p.cfg.p_switch = 3;
    p.cfg.op_cost = std::min<i64>(p.cfg.op_cost, 1000);
}
static void g_c01(Plan& p, R& r) {
    if (r.p(2) && r.p(4)) { g_age(p, r); return; }
    if (r.p(2)) { g_flood(p, r); return; }
    int k = r.below(10);
    if (k < 5) g_mixed(p, r, 3, 4, 5, 9, r.p(50));
    else if (k < 8) g_backlog(p, r, r.in(1, 3));
    else {  // restarts of either peer between and during calls
        g_mixed(p, r, 3, 3, 4, 8, true);
        int i = r.below((int)p.insts.size());
        for (int n = r.in(1, 2); n-- > 0;) {
            p.ctl.push_back(mk(W_SLEEP, r.in(100, 30000)));
            p.ctl.push_back(mk(W_UNINIT, i));
            if (r.p(30)) p.ctl.push_back(mk(W_SLEEP, r.in(1, 20000)));
            p.ctl.push_back(mk(W_INIT, i, p.insts[i].chan));
        }
    }
    if (r.p(40)) { stalls(p, r); spurs(p, r); }
    if (r.p(15)) p.flags |= FL_CHAIN;
    if (r.p(10)) releases(p, r);
}
static void g_c02(Plan& p, R& r) {
    if (r.p(1)) { g_flood(p, r); return; }
    int k = r.below(12);
    if (k < 4) { g_mixed(p, r, 3, 4, 5, 8, true); if (r.p(50)) p.flags |= FL_FAULTS; }
    else if (k < 6) g_backlog(p, r, r.in(1, 2));
    else if (k < 9) {  // the caller shuts down with calls queued, in flight, being answered, and unanswerable
        topo(p, r, 3, 3);
        int caller = r.below((int)p.insts.size());
        int nt = r.in(1, 3);
        for (int t = 0; t < nt; t++) {
            WThread th;
            th.proc = p.insts[caller].proc;
            int n = r.in(2, 10);
            for (int i = 0; i < n; i++) {
                int fn = r.pick({F_F, F_SUM, F_SLOW, F_GATE, F_F1, F_THROW});
                th.ops.push_back(mk(W_CALL, caller, r.p(25) ? 90 : some_chan(p, r), r.pick({0, 1, 1, 2, 2}), fn, r.in(0, 30), r.pick({(i64)100, (i64)400, (i64)5000, LONG})));
                if (th.ops.back().c == 0) th.ops.back().f = std::min<i64>(th.ops.back().f, 5000);
                if (r.p(20)) th.ops.push_back(mk(W_SLEEP, r.in(1, 5000)));
            }
            if (r.p(50)) th.ops.push_back(mk(W_COLLECT, 3000, 0));
            p.threads.push_back(th);
        }
        p.ctl.push_back(mk(W_SLEEP, r.in(50, 60000)));
        if (r.p(40)) p.ctl.push_back(mk(W_GATE));
        p.ctl.push_back(mk(W_UNINIT, caller));
        if (r.p(40)) { p.ctl.push_back(mk(W_SLEEP, r.in(1, 20000))); p.ctl.push_back(mk(W_INIT, caller, p.insts[caller].chan)); }
        // a gate that stays shut blocks only its own instance
        bool self = p.nproc == 1;
        if (self) for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_CALL && o.d == F_GATE) o.d = F_SLOW;
        for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_CALL && o.d == F_GATE && o.b == p.insts[caller].chan) o.d = F_SLOW;
    } else if (k < 11) {  // silent targets: a function that never returns in time, dead targets, full queues
        topo(p, r, 2, 2, r.pick({2, 6}), 300);
        int nt = r.in(1, 4);
        for (int t = 0; t < nt; t++) {
            WThread th;
            th.proc = r.below(p.nproc);
            for (int i = 0, n = r.in(1, 6); i < n; i++)
                th.ops.push_back(mk(W_CALL, some_inst(p, r, th.proc), r.p(30) ? 90 : some_chan(p, r), r.pick({0, 0, 1, 2}), r.pick({F_GATE, F_SLOW, F_F}), r.in(0, 30), r.pick({0, 5, 50, 300, 1500})));
            p.threads.push_back(th);
        }
        p.ctl.push_back(mk(W_SLEEP, r.in(1000, 4000000)));
        p.ctl.push_back(mk(W_GATE));
    } else {  // targets that die
        g_mixed(p, r, 3, 4, 5, 8, true);
        if (p.nproc > 1) {
            p.ctl.push_back(mk(W_SLEEP, r.in(10, 30000)));
            p.ctl.push_back(mk(W_CRASH, r.below(p.nproc)));
        }
    }
    if (r.p(60)) stalls(p, r);
    if (r.p(40)) spurs(p, r);
    if (r.p(25)) p.flags |= FL_CHAIN;
    if (r.p(20)) releases(p, r);
    if (r.p(10)) signals(p, r, r.in(1, 5));
    if (r.p(25)) {  // a lock that nobody gives back in time
        WThread th; th.proc = r.below(p.nproc);
        for (int i = 0, n = r.in(1, 4); i < n; i++) { th.ops.push_back(mk(W_LOCKHOLD, some_chan(p, r), r.below(2), r.pick({5, 40, 120}))); th.ops.push_back(mk(W_SLEEP, r.in(1, 20000))); }
        p.threads.push_back(th);
    }
}
static void holder(Plan& p, R& r, int n, int maxms) {
    WThread th; th.proc = r.below(p.nproc);
    for (int i = 0; i < n; i++) { th.ops.push_back(mk(W_LOCKHOLD, some_chan(p, r), r.below(2), r.in(1, maxms))); th.ops.push_back(mk(W_SLEEP, r.in(1, 30000))); }
    p.threads.push_back(th);
}
static void g_c03(Plan& p, R& r) {
    if (r.p(1)) { g_flood(p, r); return; }
    int k = r.below(10);
    if (k < 5) {
        topo(p, r, 3, 3, r.pick({1, 2, 4, 8}), r.pick({200, 300}));
        int nt = r.in(2, 5);
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            for (int i = 0, n = r.in(2, 10); i < n; i++) {
                th.ops.push_back(mk(W_CALL, some_inst(p, r, th.proc), r.p(5) ? 90 : some_chan(p, r), r.pick({0, 1, 1, 2, 2}), r.pick({F_F, F_SUM, F_VOID, F_SLOW, F_ZERO, F_VZERO, F_THROW}), r.in(0, 30), r.pick({1, 10, 35, 60, 200, 3000, 8000})));
                if (r.p(20)) th.ops.push_back(mk(W_SLEEP, r.in(1, 20000)));
            }
            th.ops.push_back(mk(W_COLLECT, 4000, 0));
            p.threads.push_back(th);
        }
        if (r.p(50)) holder(p, r, r.in(1, 5), r.pick({20, 60, 150}));
    } else if (k < 7) g_backlog(p, r, r.in(1, 2));
    else {
        g_mixed(p, r, 3, 3, 4, 8, true);
        int i = r.below((int)p.insts.size());
        p.ctl.push_back(mk(W_SLEEP, r.in(100, 30000)));
        if (p.nproc > 1 && r.p(40)) { p.ctl.push_back(mk(W_CRASH, p.insts[i].proc)); p.ctl.push_back(mk(W_RESTART, p.insts[i].proc, 100, r.in(0, 50))); }
        else { p.ctl.push_back(mk(W_UNINIT, i)); p.ctl.push_back(mk(W_INIT, i, p.insts[i].chan)); }
    }
    if (r.p(70)) stalls(p, r);
    if (r.p(40)) spurs(p, r);
    if (r.p(15)) p.flags |= FL_CHAIN;
    if (r.p(15)) releases(p, r);
    if (r.p(10)) signals(p, r, r.in(1, 5));
}
static void g_c04(Plan& p, R& r) {
    if (r.p(25)) {   // the queues in use by the dispatchers and senders
        if (r.p(50)) g_backlog(p, r, r.in(1, 3));
        else {
            topo(p, r, 3, 3, r.pick({1, 2, 5}), r.pick({200, 300}));
            for (int t = 0, nt = r.in(2, 5); t < nt; t++) {
                WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
                for (int i = 0, n = r.in(3, 10); i < n; i++) {
                    th.ops.push_back(call(p, r, some_inst(p, r, th.proc), some_chan(p, r), plain_func(r), 20000));
                    if (th.ops.back().e > 40) th.ops.back().e %= 150;
                }
                th.ops.push_back(mk(W_COLLECT, 15000, 0));
                p.threads.push_back(th);
            }
            if (r.p(40)) holder(p, r, r.in(1, 4), 40);
        }
        if (r.p(50)) stalls(p, r);
        if (r.p(40)) spurs(p, r);
        if (r.p(30)) signals(p, r, r.in(1, 6));
        return;
    }
    p.mode = 1;
    p.nproc = r.in(1, 3);
    i64 cap = r.pick({1, 2, 3, 5, 8, 16}), msg = r.pick({1, 8, 32, 64, 200});
    p.misc[0] = cap; p.misc[1] = msg; p.misc[2] = r.p(25) ? r.in(1, 3) : 0;
    p.insts.push_back(inst(0, 0, (int)cap, (int)msg));
    int nt = r.in(1, 4);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        int bias = r.pick({30, 50, 70});
        for (int i = 0, n = r.in(4, 26); i < n; i++) {
            int q = r.below(100);
            i64 lt = r.p(70) ? 5000 : r.pick({0, 1, 30, 200});
            i64 hold = r.p(6) ? r.in(1, 60) : 0;
            if (q < 4) th.ops.push_back(mk(W_SLEEP, r.in(1, 30000)));
            else if (q < 8) th.ops.push_back(mk(W_QREOPEN));
            else if (q < 14) th.ops.push_back(mk(W_QNUM, 0, 0, 0, hold, 0, lt));
            else if (q < 24) th.ops.push_back(mk(W_QSPACE, r.in(1, (int)(cap * msg + 4)), 0, 0, hold, 0, lt));
            else if (r.p(bias)) {
                i64 sz = r.p(70) ? r.in(1, (int)msg) : r.p(70) ? r.in(1, (int)(cap * msg)) : r.pick({(i64)0, cap * msg, cap * msg + 1, msg + 1});
                th.ops.push_back(mk(W_QPUSH, sz, r.below(2), r.p(30) ? r.in(1, (int)cap) : 0, hold, 0, lt));
            } else th.ops.push_back(mk(W_QPOP, r.p(80) ? cap * msg : r.in(0, (int)msg), 0, r.p(30) ? r.in(1, (int)cap) : 0, hold, 0, lt));
        }
        p.threads.push_back(th);
    }
    if (r.p(60)) stalls(p, r);
    if (r.p(40)) spurs(p, r);
    if (r.p(30)) jumps(p, r);
    if (r.p(15)) p.cfg.clk_ms = r.pick({10, 50, 100});
}
static void g_c05(Plan& p, R& r) {
    topo(p, r, 3, 3);
    int nt = r.in(1, 3);
    bool strict = true;
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(1, 5); i < n; i++) {
            th.ops.push_back(call(p, r, some_inst(p, r, th.proc), some_chan(p, r), plain_func(r), r.pick({(i64)15000, (i64)30000, LONG})));
            th.ops.back().e = th.ops.back().e % 60;
            if (r.p(40)) th.ops.push_back(mk(W_SLEEP, r.pick({10, 1000, 40000, 300000, 950000})));
        }
        th.ops.push_back(mk(W_COLLECT, 20000, 0));
        p.threads.push_back(th);
    }
    if (r.p(60)) holder(p, r, r.in(1, 6), r.pick({20, 60, 150}));
    if (r.p(75)) stalls(p, r, 2);
    if (r.p(60)) spurs(p, r);
    if (r.p(30)) jumps(p, r);
    if (r.p(30)) signals(p, r, r.in(1, 8));
    if (strict) p.flags |= FL_STRICT;
}
static void g_c06(Plan& p, R& r) {
    if (r.p(2)) { g_flood(p, r); return; }
    if (r.p(20)) p.flags |= FL_CHAIN;
    p.nproc = r.in(1, 3);
    int ni = std::max(p.nproc, r.in(1, 3));
    for (int i = 0; i < ni; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({1, 2, 3, 5, 8}), r.pick({180, 260, 400})));
    int target = r.below(ni);
    int k = r.below(10);
    if (k < 4) {        // a burst while the target keeps draining: nothing is lost
        int nt = r.in(1, 4);
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            int in = some_inst(p, r, th.proc);
            for (int i = 0, n = r.in(4, 16); i < n; i++) {
                int fn = r.pick({F_F, F_F, F_SUM, F_SLOW, F_F1, F_BIG});
                i64 lim = (i64)p.insts[target].cap * p.insts[target].msg - 200, lim2 = (i64)p.insts[in].cap * p.insts[in].msg - 260;
                i64 sz = fn == F_SLOW ? r.in(0, 8) : r.p(80) ? r.in(0, 40) : r.in(0, (int)std::max<i64>(0, std::min(lim, lim2)));
                th.ops.push_back(mk(W_CALL, in, p.insts[r.p(85) ? target : r.below(ni)].chan, r.pick({0, 1, 1, 2, 2}), fn, std::max<i64>(sz, 0), r.pick({20000, 60000})));
            }
            th.ops.push_back(mk(W_COLLECT, 40000, 0));
            p.threads.push_back(th);
        }
        if (r.p(50)) p.flags |= FL_STRICT;
    } else if (k < 7) {   // full for a while (gate), with short and long timeouts; another channel keeps working
        int nt = r.in(2, 4);
        bool longer = r.p(35);   // so long that a call which is held up by the others shows
        p.flags |= FL_INDEP;
        p.misc[6] = p.insts[target].chan + 1;
        if (p.cfg.op_cost > 1000) p.cfg.op_cost = 1000;
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            int in = some_inst(p, r, th.proc);
            if (t == 0) for (int g = 0; g < p.knob[0]; g++) th.ops.push_back(mk(W_CALL, in, p.insts[target].chan, r.in(1, 2), F_GATE, g, 20000));
            for (int i = 0, n = longer ? r.in(8, 24) : r.in(3, 9); i < n; i++)
                th.ops.push_back(mk(W_CALL, in, p.insts[r.p(70) ? target : r.below(ni)].chan, longer ? r.pick({1, 1, 2, 2, 2}) : r.pick({0, 1, 1, 2, 2}), r.pick({F_F, F_SUM, F_VOID}), r.in(0, 40),
                                    longer ? r.pick({600, 1500, 20000, 20000}) : r.pick({0, 5, 40, 150, 600, 3000, 20000})));
            th.ops.push_back(mk(W_COLLECT, 9000, 0));
            p.threads.push_back(th);
        }
        p.ctl.push_back(mk(W_SLEEP, longer ? r.in(5000000, 8000000) : r.in(20000, 1500000)));
        p.ctl.push_back(mk(W_GATE));
    } else {   // sizes around every limit, of requests and of responses
        int nt = r.in(1, 3);
        if (r.p(25)) { WInst& w = p.insts[r.below(ni)]; w.cap = r.pick({1, 1, 2}); w.msg = r.pick({r.in(1, 60), r.in(30, 180), r.in(100, 300)}); }   // hardly anything fits
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            int in = some_inst(p, r, th.proc);
            for (int i = 0, n = r.in(2, 8); i < n; i++) {
                int w = r.below(ni);
                i64 lim = (i64)p.insts[w].cap * p.insts[w].msg, lim2 = (i64)p.insts[in].cap * p.insts[in].msg;
                bool resp = r.p(50);
                i64 L = resp ? lim2 : lim;
                i64 sz = r.pick<i64>({(i64)p.insts[w].msg, L / 2, L - 250, L - 190 + r.in(0, 180), L, L + 1, L + 300, 4 * L});
                th.ops.push_back(mk(W_CALL, in, p.insts[w].chan, r.below(3), r.p(15) ? F_NOFN : resp ? F_BIG : r.pick({F_F, F_VOID, F_THROW}), std::max<i64>(0, sz), r.pick({300, 2000, 8000})));
                if (r.p(50)) th.ops.push_back(mk(W_CALL, in, p.insts[w].chan, r.below(3), F_SUM, 1, 20000));
            }
            th.ops.push_back(mk(W_COLLECT, 9000, 0));
            p.threads.push_back(th);
        }
    }
    if (r.p(50)) stalls(p, r);
    if (r.p(30)) spurs(p, r);
}
static void churn(Plan& p, R& r, int in, int n) {   // an instance comes and goes
    for (int i = 0; i < n; i++) {
        p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1, 300), r.in(50, 5000), r.in(1000, 60000)})));
        p.ctl.push_back(mk(W_UNINIT, in));
        if (r.p(60)) p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1, 300), r.in(50, 30000)})));
        p.ctl.push_back(mk(W_INIT, in, p.insts[in].chan));
    }
}
// functions that wait for calls of their own to a busy channel while their instance stops
static void g_c07_nested(Plan& p, R& r) {
    p.nproc = r.in(1, 3);
    for (int i = 0; i < 3; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({2, 8, 24}), 300));
    p.cfg.op_cost = std::min(p.cfg.op_cost, 1000);
    const i64 timeout = r.pick({9000, 30000, 60000});
    WThread th; th.proc = p.insts[0].proc;
    for (int k = 0; k < p.knob[0] + r.below(3); k++) th.ops.push_back(mk(W_CALL, 0, 2, r.in(1, 2), F_GATE, k, 60000));
    th.ops.push_back(mk(W_SLEEP, r.in(1, 5000)));
    for (int k = 0, n = r.in(1, 6); k < n; k++) th.ops.push_back(mk(W_CALL, 0, 1, r.in(1, 2), r.pick({F_NEST, F_NEST, F_F}), 2, timeout));
    for (auto& o : th.ops) if (o.op == W_CALL && o.d == F_F) o.b = r.in(1, 2);
    th.ops.push_back(mk(W_COLLECT, 4000, 0));
    p.threads.push_back(th);
    if (r.p(50)) {
        WThread t2; t2.proc = p.insts[1].proc;
        for (int k = 0, n = r.in(1, 6); k < n; k++) t2.ops.push_back(mk(W_CALL, 1, r.in(1, 2), r.below(3), r.pick({F_F, F_SUM, F_NEST}), 2, r.pick({300, 3000})));
        t2.ops.push_back(mk(W_COLLECT, 1000, 0));
        p.threads.push_back(t2);
    }
    p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1000, 20000), r.in(5000, 300000)})));
    p.ctl.push_back(mk(W_UNINIT, 1));
    if (r.p(50)) { p.ctl.push_back(mk(W_SLEEP, r.in(1, 20000))); p.ctl.push_back(mk(W_INIT, 1, 1)); }
    if (r.p(30)) p.ctl.push_back(mk(W_GATE));
    if (r.p(20)) stalls(p, r);
}
static void g_c07(Plan& p, R& r) {
    if (r.p(8)) { g_c07_nested(p, r); return; }
    topo(p, r, 3, 3);
    int victim = r.below((int)p.insts.size());
    int nt = r.in(2, 5);
    bool gate = r.p(25);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t == 0 ? p.insts[victim].proc : r.below(p.nproc);
        for (int i = 0, n = r.in(3, 12); i < n; i++) {
            int in = th.proc == p.insts[victim].proc && r.p(70) ? victim : some_inst(p, r, th.proc);
            int x = r.below(100);
            if (x < 78) {
                int fn = r.pick({F_F, F_F, F_SUM, F_VOID, F_SLOW, F_SLOW, F_NEST, F_THROW, F_BIG});
                int ch = r.p(60) ? p.insts[victim].chan : r.p(8) ? 90 : some_chan(p, r);
                i64 sz = fn == F_NEST ? some_chan(p, r) : r.in(0, 40);
                th.ops.push_back(mk(W_CALL, in, ch, r.pick({0, 1, 1, 2, 2}), fn, sz, r.pick({30, 300, 1000, 4000})));
            } else if (x < 84) th.ops.push_back(mk(W_SLEEP, r.in(1, 8000)));
            else if (x < 88) th.ops.push_back(mk(W_COLLECT, 500, 0));
            else if (x < 91) th.ops.push_back(mk(W_ISINIT, in));
            else if (x < 94) th.ops.push_back(mk(W_RELBOGUS, in));
            else if (x < 96) th.ops.push_back(mk(W_SETRW, in, r.p(20) ? 0 : r.in(20, 100)));
            else if (x < 98 && r.p(50)) th.ops.push_back(mk(W_UNINIT, victim == in ? in : victim));
            else th.ops.push_back(mk(W_SLEEP, r.in(1, 2000)));
        }
        if (th.proc != p.insts[victim].proc) for (auto& o : th.ops) if (o.op == W_UNINIT) o.op = W_NONE;
        if (gate && t == 0) th.ops.insert(th.ops.begin(), mk(W_CALL, some_inst(p, r, th.proc), p.insts[victim].chan, r.in(1, 2), F_SLOW, r.in(50, 400), 3000));
        th.ops.push_back(mk(W_COLLECT, 1500, 0));
        p.threads.push_back(th);
    }
    if (r.p(80)) churn(p, r, victim, r.in(1, 3));
    else { p.ctl.push_back(mk(W_SLEEP, r.in(10, 30000))); p.ctl.push_back(mk(W_UNINIT, victim)); }
    if (r.p(40)) stalls(p, r);
    if (r.p(25)) spurs(p, r);
    if (r.p(25)) p.flags |= FL_CHAIN;
    if (r.p(15)) releases(p, r);
    if (r.p(10)) signals(p, r, r.in(1, 5));
}
// an instance ends with calls at a slow server, its heir on the same channel makes calls of its own while the answers still come
static void g_c08_heir(Plan& p, R& r) {
    p.nproc = r.in(1, 2);
    const int home = r.below(p.nproc);
    p.insts.push_back(inst(home, 0, 16, 300));
    p.insts.push_back(inst(r.below(p.nproc), 1, 24, 300));
    p.insts.push_back(inst(r.p(70) ? home : r.below(p.nproc), 0, r.pick({8, 16}), r.pick({220, 300}), 0));
    const int fn = r.pick({F_SLOW, F_SLOW, F_SLOW, F_NEST});
    const int cut = r.in(2000, 60000);
    for (int in : {0, 2}) {
        WThread th; th.proc = p.insts[in].proc;
        if (in == 2) th.ops.push_back(mk(W_SLEEP, cut + r.in(0, 20000)));
        for (int i = 0, n = r.in(2, 9); i < n; i++) {
            th.ops.push_back(mk(W_CALL, in, 1, r.pick({1, 1, 1, 2, 0}), fn == F_NEST ? r.pick({F_F, F_SLOW, F_F1}) : fn, r.in(5, 30), in == 0 ? r.pick({20, 60, 3000}) : 8000));
            if (r.p(15)) th.ops.push_back(mk(W_SLEEP, r.in(1, 5000)));
        }
        th.ops.push_back(mk(W_COLLECT, 3000, 0));
        p.threads.push_back(th);
    }
    p.ctl.push_back(mk(W_SLEEP, cut));
    p.ctl.push_back(mk(W_UNINIT, 0));
    if (r.p(20)) p.ctl.push_back(mk(W_SLEEP, r.in(1, 20000)));
    p.ctl.push_back(mk(W_INIT, 2, 0));
    if (r.p(20)) stalls(p, r);
}
static void g_c08(Plan& p, R& r) {
    if (r.p(22)) { g_c08_heir(p, r); return; }
    p.nproc = r.in(1, 3);
    int ni = std::max(2, r.in(p.nproc, 3));
    for (int i = 0; i < ni; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({4, 8, 16}), r.pick({220, 300, 500})));
    int target = r.below(ni);
    bool takeover = r.p(35);
    int heir = target;
    if (takeover) {   // another instance (another process, other sizes) takes the channel over
        p.insts.push_back(inst(r.p(50) ? p.insts[target].proc : r.below(p.nproc), p.insts[target].chan, r.pick({4, 8, 16}), r.pick({220, 300, 500}), 0));
        heir = (int)p.insts.size() - 1;
    }
    int nt = r.in(2, 4);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(3, 9); i < n; i++) {
            int in = some_inst(p, r, th.proc);
            int fn = r.pick({F_F, F_F1, F_SUM, F_VEC, F_SLOW, F_SLOW, F_VOID});
            th.ops.push_back(mk(W_CALL, in, r.p(75) ? p.insts[target].chan : some_chan(p, r), r.pick({0, 1, 1, 2, 2}), fn, r.in(0, 30), r.pick({60, 400, 2000, 8000})));
            if (r.p(45)) th.ops.push_back(mk(W_SLEEP, r.pick({r.in(10, 2000), r.in(1000, 40000)})));
        }
        th.ops.push_back(mk(W_COLLECT, 3000, 0));
        p.threads.push_back(th);
    }
    int cur = target;
    for (int i = 0, n = r.in(1, 4); i < n; i++) {
        p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(10, 2000), r.in(1000, 60000)})));
        p.ctl.push_back(mk(W_UNINIT, cur));
        if (r.p(60)) p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(10, 2000), r.in(1000, 300000), r.in(400000, 2500000)})));
        if (takeover) cur = cur == target ? heir : target;
        p.ctl.push_back(mk(W_INIT, cur, p.insts[target].chan));
    }
    if (r.p(35)) stalls(p, r);
    if (r.p(20)) spurs(p, r);
}
static void g_c09(Plan& p, R& r, int kf) {
    p.nproc = r.in(2, 3);
    int ni = r.in(p.nproc, 4);
    for (int i = 0; i < ni; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({4, 8, 16}), r.pick({220, 300, 500})));
    int victim = r.below(p.nproc);
    int nt = r.in(3, 5);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(4, 10); i < n; i++) {
            int in = some_inst(p, r, th.proc);
            th.ops.push_back(mk(W_CALL, in, r.p(4) ? 90 : some_chan(p, r), r.pick({0, 1, 1, 2, 2}), r.pick({F_F, F_F1, F_SUM, F_VEC, F_SLOW, F_VOID, F_BIG, F_THROW}), r.in(0, 40), r.pick({60, 400, 2000, 8000})));
            if (r.p(35)) th.ops.push_back(mk(W_SLEEP, r.pick({r.in(10, 2000), r.in(1000, 40000)})));
        }
        th.ops.push_back(mk(W_COLLECT, 3000, 0));
        p.threads.push_back(th);
    }
    p.flags |= FL_FAULTS;
    p.cfg.crash_proc = victim;
    p.cfg.crash_after = r.pick({r.in(1, 300), r.in(50, 2500), r.in(500, 8000)});
    p.cfg.crash_mem = r.p(60) ? r.pick({50, 1000, 20000}) : 0;
    if (r.p(50)) {
        // what the restarted process does itself; often just what the one before it was doing, whose answers are still to come
        const bool echo = r.p(60);
        const int in = some_inst(p, r, victim), ch = r.p(70) ? p.insts[r.below(ni)].chan : some_chan(p, r), n = r.in(1, 5);
        WThread th; th.proc = victim; th.late = 1;
        for (int i = 0; i < n; i++) {
            WOp c = mk(W_CALL, in, ch, r.in(1, 2), r.p(70) ? F_SLOW : F_F, r.in(10, 90), 8000);
            th.ops.push_back(c);
            if (echo) for (auto& t : p.threads) if (t.proc == victim) { c.e = r.in(5, 60); t.ops.insert(t.ops.begin() + i, c); break; }
        }
        th.ops.push_back(mk(W_COLLECT, 3000, 0));
        p.threads.push_back(th);
        if (echo) { p.ctl.push_back(mk(W_SLEEP, r.in(1000, 30000))); p.ctl.push_back(mk(W_CRASH, victim)); }
        p.ctl.push_back(mk(W_RESTART, victim, r.in(20, 400), r.pick({0, 0, 1, 20})));
    } else p.ctl.push_back(mk(W_RESTART, victim, r.in(20, 400), r.pick({0, 1, 40, 300})));
    if (r.p(30)) { p.ctl.push_back(mk(W_SLEEP, r.in(1000, 60000))); p.ctl.push_back(mk(W_CRASH, victim)); if (r.p(80)) p.ctl.push_back(mk(W_RESTART, victim, 50, r.in(0, 60))); }
    if (r.p(35)) stalls(p, r);
    if (r.p(20)) spurs(p, r);
    if (kf) p.flags |= FL_KF1;
}
static void g_c10(Plan& p, R& r) {
    topo(p, r, 2, 3, r.pick({12, 24}), r.pick({300, 512}));
    int nt = r.in(1, 3);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(2, 8); i < n; i++) {
            int fn = any_func(r);
            if (r.p(25)) fn = F_SLOW;
            th.ops.push_back(call(p, r, some_inst(p, r, th.proc), some_chan(p, r), fn, r.pick({8000, 20000})));
            if (fn == F_SLOW) th.ops.back().e = r.in(0, 20);
            if (r.p(25)) th.ops.push_back(mk(W_SLEEP, r.in(1, 5000)));
            if (r.p(20)) th.ops.push_back(mk(W_COLLECT, 9000, 0));
        }
        th.ops.push_back(mk(W_COLLECT, 9000, 0));
        p.threads.push_back(th);
    }
    for (int t = 0, n = r.in(1, 2); t < n; t++) {
        WThread th; th.proc = r.below(p.nproc);
        for (int i = 0, m = r.in(2, 14); i < m; i++) {
            int kind = r.below(17);
            if (r.p(12)) kind = 10;
            if (r.p(15)) kind = 17;
            if (r.p(10)) kind = 18;
            th.ops.push_back(mk(W_INJECT, some_chan(p, r), kind == 10 ? 1 : r.below(2), kind, r.below(1 << 30), r.below(64)));
            if (r.p(60)) th.ops.push_back(mk(W_SLEEP, r.pick({r.in(1, 200), r.in(1, 4000), r.in(1000, 20000)})));
        }
        p.threads.push_back(th);
    }
    if (r.p(25)) stalls(p, r);
    if (r.p(20)) signals(p, r, r.in(1, 8));
    if (r.p(15)) releases(p, r);
}
static void g_c11(Plan& p, R& r) {
    topo(p, r, 2, 3, r.pick({3, 8, 24}), r.pick({220, 400}));
    int nt = r.in(1, 4);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(2, 10); i < n; i++) {
            int fn = any_func(r), x = r.below(20);
            int in = some_inst(p, r, th.proc);
            if (x < 16) th.ops.push_back(call(p, r, in, r.p(4) ? 90 : some_chan(p, r), fn, r.pick({60, 1000, 4000})));
            else if (x < 17) th.ops.push_back(mk(W_BIND, in, r.below(6) - 2, r.in(1, 999)));
            else if (x < 18) th.ops.push_back(mk(W_UNBIND, in, r.below(4)));
            else if (x < 19) th.ops.push_back(mk(W_RELBOGUS, in));
            else th.ops.push_back(mk(W_COLLECT, 1000, 0));
        }
        th.ops.push_back(mk(W_COLLECT, 2500, 0));
        p.threads.push_back(th);
    }
    p.flags |= FL_FAULTS | FL_CALLFAULTS;
    int k = r.below(12);
    if (k >= 10) {   // no memory at all for a while
        p.cfg.oom_at = r.pick({0, 0, r.in(0, 10), r.in(0, 300)});
        p.cfg.oom_ms = r.pick({r.in(1, 60), r.in(50, 900), r.in(1050, 1200), r.in(1000, 3000)});
        int rest = p.cfg.oom_at + p.cfg.oom_ms;
        if (r.p(35)) {   // an instance stops meanwhile
            const int at = r.in(0, rest);
            p.ctl.push_back(mk(W_SLEEP, at * 1000 + r.below(1000)));
            p.ctl.push_back(mk(W_UNINIT, r.below((int)p.insts.size())));
            rest -= at;
        }
        p.ctl.push_back(mk(W_SLEEP, rest * 1000));
    } else if (k < 5) { p.cfg.fail_at = r.pick({r.in(1, 40), r.in(1, 300), r.in(1, 1500)}); p.cfg.fail_n = r.pick({1, 1, 1, 2, 5, 30}); }
    else { p.cfg.p_alloc = r.pick({500, 3000, 20000, 100000}); p.cfg.p_fail = r.pick({0, 300, 2000}); p.cfg.max_fail = r.pick({1, 3, 40}); }
    p.ctl.push_back(mk(W_SLEEP, r.in(1000, 200000)));
    if (r.p(70)) p.ctl.push_back(mk(W_QUIET));
    if (r.p(20)) { p.cfg.p_stall = 500; p.cfg.stall_ms = 40; p.cfg.stall_total = 200; }
    if (r.p(15)) p.flags |= FL_CHAIN;
    if (r.p(15)) releases(p, r);
}
static void g_c12(Plan& p, R& r) {
    topo(p, r, 2, 2);
    int nt = r.in(2, 5);
    int names = r.in(1, 3), tag = 1;
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(3, 9); i < n; i++) {
            int in = some_inst(p, r, th.proc), x = r.below(100);
            if (x < 30) th.ops.push_back(mk(W_BIND, in, r.p(10) ? -1 - r.below(2) : r.below(names), 1000 * (t + 1) + tag++));
            else if (x < 50) th.ops.push_back(mk(W_UNBIND, in, r.below(names)));
            else if (x < 58) th.ops.push_back(mk(W_NAMES, in));
            else th.ops.push_back(mk(W_CALL, in, some_chan(p, r), r.pick({0, 0, 1, 2}), r.p(80) ? F_DYN : F_F, r.below(names), 10000));
            if (r.p(15)) th.ops.push_back(mk(W_SLEEP, r.in(1, 3000)));
            if (r.p(15)) th.ops.push_back(mk(W_COLLECT, 8000, 0));
        }
        th.ops.push_back(mk(W_COLLECT, 8000, 0));
        p.threads.push_back(th);
    }
    if (r.p(35)) {   // an instance whose functions are bound before its init(), in every life again
        const int in = (int)p.insts.size();
        p.insts.push_back(inst(r.below(p.nproc), in, 8, 300, 0));
        for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_CALL && r.p(40)) o.b = in;
        for (int life = r.in(1, 2); life-- > 0;) {
            auto ops = [&](int n) { while (n-- > 0) p.ctl.push_back(r.p(60) ? mk(W_BIND, in, r.below(names), 50000 + tag++) : mk(W_UNBIND, in, r.below(names))); };
            ops(r.in(0, 5));
            p.ctl.push_back(mk(W_INIT, in, in));
            if (r.p(50)) p.ctl.push_back(mk(W_SLEEP, r.in(1, 20000)));
            ops(r.in(0, 3));
            p.ctl.push_back(mk(W_SLEEP, r.in(1, 30000)));
            if (life > 0) p.ctl.push_back(mk(W_UNINIT, in));
        }
    }
    if (r.p(40)) p.misc[3] = r.pick({1, 5, 40});   // functions that run for a while
    if (p.cfg.mem_gap == 0 && r.p(50)) p.cfg.mem_gap = 300;
    if (r.p(25)) stalls(p, r);
    if (r.p(20)) p.flags |= FL_CHAIN;
}
// setTimeoutOfRWLock() bounds, from both sides, how long a call waits for the lock of a queue that somebody holds
static void g_rwlimit(Plan& p, R& r) {
    p.nproc = r.in(2, 3);
    const int W = r.pick({30, 100, 400, 1000, 1500, 2500, 2500, 70000});
    p.insts.push_back(inst(0, 0, 8, 260, 1, W));
    p.insts.push_back(inst(1, 1, 8, 260));
    p.misc[5] = 1;
    const int H = r.p(50) && W < 10000 ? 2 * W + 2500 : std::max(W / 2 - 20, 5);
    WThread h, c;
    h.proc = p.nproc - 1;
    h.ops.push_back(mk(W_LOCKHOLD, 1, 0, H));
    c.ops.push_back(mk(W_SLEEP, r.in(2, 10) * 1000));
    c.ops.push_back(mk(W_CALL, 0, 1, W > 2500 ? 0 : r.below(3), F_F, r.in(0, 30), W > 2500 ? 200000 : r.pick({20000, 60000})));
    c.ops.push_back(mk(W_COLLECT, 8000, 0));
    p.threads.push_back(h);
    p.threads.push_back(c);
    p.cfg.op_cost = std::min<i64>(p.cfg.op_cost, 1000);
    if (r.p(70)) jumps(p, r);
    if (r.p(60)) spurs(p, r);
    if (r.p(40)) p.cfg.clk_ms = r.pick({10, 50, 100});
}
static void g_c13(Plan& p, R& r) {
    if (r.p(8)) { g_rwlimit(p, r); return; }
    if (r.p(50)) {
        p.mode = 2;
        p.nproc = r.in(1, 2);
        p.insts.push_back(inst(0, 0, 4, 200));
        int nt = r.in(1, 4);
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t % p.nproc;
            for (int i = 0, n = r.in(2, 10); i < n; i++) {
                int x = r.below(10);
                if (x < 6) th.ops.push_back(mk(W_SEMWAIT, r.below(2), r.pick<i64>({0, 1, 7, 30, 100, 500, 999, 1000, 1500, 2500, 30000, r.in(1, 3000), r.in(1, 3000), (i64)-1, (i64)1 << 40, INT64_MAX, INT64_MAX / 1000000, 4294967295ll})));
                else if (x < 8) th.ops.push_back(mk(W_SEMPOST, r.below(2)));
                else th.ops.push_back(mk(W_SLEEP, r.in(1, 1500000)));
            }
            // at most one wait without an end per semaphore and thread
            int ends = 0;
            for (auto& o : th.ops) if (o.op == W_SEMWAIT && (o.b < 0 || o.b > 1000000)) if (ends++ >= 2) o.b = 50;
            p.threads.push_back(th);
        }
    } else {
        p.nproc = r.in(1, 2);
        int ni = std::max(p.nproc, r.in(1, 2));
        for (int i = 0; i < ni; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({1, 3, 8}), 260));
        int target = r.below(ni);
        int nt = r.in(1, 4);
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            int in = some_inst(p, r, th.proc);
            if (t == 0 && r.p(60)) for (int g = 0; g < p.knob[0]; g++) th.ops.push_back(mk(W_CALL, in, p.insts[target].chan, r.in(1, 2), F_GATE, g, 20000));
            for (int i = 0, n = r.in(1, 6); i < n; i++) {
                th.ops.push_back(mk(W_CALL, in, r.p(80) ? p.insts[target].chan : 90, r.pick({0, 0, 0, 1, 2}), r.pick({F_GATE, F_F, F_SUM, F_SLOW}), r.in(0, 30), r.pick<i64>({0, 1, 20, 50, 400, 900, 1500, 2500, 2500})));
                if (r.p(30)) th.ops.push_back(mk(W_SLEEP, r.in(1, 900000)));
            }
            if (r.p(15)) th.ops.insert(th.ops.begin(), mk(W_SETRW, in, 0));   // is ignored
            // very large timeouts: the function returns at once, the call must not give up
            if (r.p(40)) th.ops.push_back(mk(W_CALL, in, p.insts[target].chan, r.below(3), r.pick({F_F, F_SLOW}), 9, r.pick<i64>({4294967ll, 4294968ll, 2147483648ll, 4294967295ll})));
            th.ops.push_back(mk(W_COLLECT, 6000, 0));
            p.threads.push_back(th);
        }
        p.ctl.push_back(mk(W_SLEEP, r.in(1000, 3500000)));
        p.ctl.push_back(mk(W_GATE));
    }
    if (r.p(70)) jumps(p, r);
    if (r.p(60)) spurs(p, r);
    if (r.p(25)) stalls(p, r);
    if (r.p(40)) p.cfg.clk_ms = r.pick({10, 50, 100});
}
// the senders of one instance keep trying to write to a full queue whose lock is often taken while the instance stops
static void jam(Plan& p, R& r) {
    p.nproc = r.in(1, 2);
    const int n = r.in(2, 3);
    for (int i = 0; i < n; i++) p.insts.push_back(inst(i % p.nproc, i, i == 0 ? r.in(1, 2) : 8, 300));
    for (int t = 0, nt = r.in(1, 3); t < nt; t++) {
        WThread th;
        const int in = 1 + t % (n - 1);
        th.proc = p.insts[in].proc;
        for (int k = 0, m = r.in(3, 9); k < m; k++) {
            th.ops.push_back(mk(W_CALL, in, r.p(85) ? 0 : some_chan(p, r), r.in(1, 2), r.pick({F_GATE, F_GATE, F_SLOW, F_F}), r.in(0, 60), r.pick({30, 1000, 3000})));
            if (th.ops.back().d == F_SLOW) th.ops.back().e = r.in(5, 60);
            if (r.p(10)) th.ops.push_back(mk(W_SLEEP, r.in(1, 20000)));
        }
        th.ops.push_back(mk(W_COLLECT, 1500, r.below(2)));
        p.threads.push_back(th);
    }
    if (r.p(75)) {
        WThread th; th.proc = r.below(p.nproc);
        th.ops.push_back(mk(W_SLEEP, r.in(100, 20000)));
        for (int k = 0, m = r.in(2, 6); k < m; k++) {
            th.ops.push_back(mk(W_LOCKHOLD, r.p(85) ? 0 : some_chan(p, r), r.p(20) ? 1 : 0, r.in(1, 60)));
            th.ops.push_back(mk(W_SLEEP, r.in(1, 8000)));
        }
        p.threads.push_back(th);
    }
    for (int k = 0, m = r.in(1, 2); k < m; k++) {
        p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1000, 30000), r.in(5000, 250000)})));
        p.ctl.push_back(mk(W_UNINIT, r.p(80) ? r.in(1, n - 1) : 0));
    }
    if (r.p(60)) { p.ctl.push_back(mk(W_SLEEP, r.in(1, 300000))); p.ctl.push_back(mk(W_GATE)); }
    p.cfg.op_cost = std::min(p.cfg.op_cost, 1000);
}
static void g_c14(Plan& p, R& r) {
    p.flags |= FL_WARM;
    if (r.p(20)) {
        jam(p, r);
    } else if (r.p(35)) {
        topo(p, r, 2, 2, 16, 400);
        p.flags |= FL_LEAK;
        p.misc[0] = r.below(256);
        if (r.p(30)) p.misc[1] = 1;
        WThread th; th.proc = 0;
        th.ops.push_back(mk(W_SLEEP, 1000));
        p.threads.push_back(th);
    } else {
        topo(p, r, 3, 3, r.pick({2, 8, 16}), 300);
        p.insts.push_back(inst(r.below(p.nproc), (int)p.insts.size(), 8, 300, 2));
        int extra = (int)p.insts.size() - 1;
        int nt = r.in(1, 4);
        for (int t = 0; t < nt; t++) {
            WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
            for (int i = 0, n = r.in(2, 9); i < n; i++) {
                int in = some_inst(p, r, th.proc);
                if (in == extra) in = some_inst(p, r, th.proc);
                if (in == extra) continue;
                th.ops.push_back(mk(W_CALL, in, r.p(10) ? 90 : some_chan(p, r), r.below(3), r.pick({F_F, F_LONG, F_SUM, F_THROW, F_NOFN, F_BADARG, F_SLOW, F_BIG, F_GATE}), r.in(0, 60), r.pick({1, 30, 200, 1000, 3000})));
                if (r.p(10)) th.ops.push_back(mk(W_COLLECT, 300, 1));
                if (r.p(15)) th.ops.push_back(mk(W_SLEEP, r.in(1, 20000)));
            }
            if (t == 0 && p.insts[extra].proc == th.proc) th.ops.insert(th.ops.begin() + r.below((int)th.ops.size() + 1), mk(W_NEWDEL, extra, some_chan(p, r), r.in(0, 4)));
            th.ops.push_back(mk(W_COLLECT, 1500, r.below(2)));
            p.threads.push_back(th);
        }
        if (r.p(50)) churn(p, r, r.below(extra), r.in(1, 2));
        if (r.p(25)) { p.ctl.push_back(mk(W_SLEEP, r.in(1, 900000))); p.ctl.push_back(mk(W_GATE)); }
        if (r.p(25) && p.nproc > 1) { p.ctl.push_back(mk(W_SLEEP, r.in(1, 30000))); p.ctl.push_back(mk(W_CRASH, p.nproc - 1)); if (r.p(60)) p.ctl.push_back(mk(W_RESTART, p.nproc - 1, 10, r.in(0, 30))); }
    }
    if (r.p(35)) stalls(p, r);
    if (r.p(20)) spurs(p, r);
    if (r.p(25)) p.flags |= FL_CHAIN;
    if (r.p(40)) releases(p, r);
}
static void g_c15(Plan& p, R& r) {
    topo(p, r, 2, 3);
    int nt = r.in(3, 6);
    const int dead = r.pick({4, 4, 4, 50});
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = t < p.nproc ? t : r.below(p.nproc);
        for (int i = 0, n = r.in(3, 9); i < n; i++) {
            int in = some_inst(p, r, th.proc), x = r.below(100);
            if (x < 45) th.ops.push_back(call(p, r, in, r.p(dead) ? 90 : some_chan(p, r), any_func(r), r.pick({30, 1000, 4000})));
            else if (x < 52) th.ops.push_back(mk(W_COLLECT, 1000, r.below(2)));
            else if (x < 58) th.ops.push_back(mk(W_BIND, in, r.below(5) - 1, t * 100 + i));
            else if (x < 63) th.ops.push_back(mk(W_UNBIND, in, r.below(4)));
            else if (x < 68) th.ops.push_back(mk(W_NAMES, in));
            else if (x < 76) th.ops.push_back(mk(W_GETTERS, in));
            else if (x < 82) th.ops.push_back(mk(W_SETRW, in, r.p(20) ? 0 : r.in(20, 100)));
            else if (x < 88) th.ops.push_back(mk(W_ISINIT, in));
            else if (x < 92) th.ops.push_back(mk(W_RELBOGUS, in));
            else if (x < 95) th.ops.push_back(mk(W_UNINIT, in));
            else th.ops.push_back(mk(W_SLEEP, r.in(1, 3000)));
        }
        // a bind after uninit is another matter: keep to one of both
        th.ops.push_back(mk(W_COLLECT, 2000, r.below(2)));
        p.threads.push_back(th);
    }
    if (r.p(50)) { int v = r.below((int)p.insts.size()); p.ctl.push_back(mk(W_SLEEP, r.in(10, 20000))); p.ctl.push_back(mk(W_UNINIT, v)); }
    if (p.cfg.mem_gap == 0 && r.p(60)) p.cfg.mem_gap = r.pick({200, 1500});
    if (r.p(25)) stalls(p, r);
    if (r.p(20)) spurs(p, r);
    if (r.p(30)) p.flags |= FL_CHAIN;
    if (r.p(30)) releases(p, r);
}
static void g_c16(Plan& p, R& r) {
    p.mode = 3;
    p.nproc = 1;
    p.misc[0] = r.in(1, 3);
    p.misc[1] = r.p(25);
    p.misc[2] = r.below(4);
    p.misc[3] = r.p(60) ? 0 : r.p(40) ? r.in(1, 2) : r.in(228, 258);
    p.insts.push_back(inst(0, 0, r.pick({2, 8}), r.pick({300, 500}), 0));
    p.insts.push_back(inst(0, 1, 8, 300, 0));
    p.flags |= FL_FAULTS | FL_CALLFAULTS;
    if (r.p(12)) {   // two threads call init() of one object at once
        p.misc[3] = 0;
        p.misc[4] = r.in(1, 2);
        if (p.cfg.mem_gap == 0) p.cfg.mem_gap = r.pick({0, 200, 3000});
        if (r.p(50)) { p.cfg.p_stall = 2000; p.cfg.stall_ms = 50; p.cfg.stall_total = 300; }
        return;
    }
    if (r.p(70)) { p.cfg.fail_at = r.pick({r.in(1, 30), r.in(1, 120), r.in(1, 220)}); p.cfg.fail_n = r.pick({1, 1, 1, 1, 2, 4}); }
    else { p.cfg.p_alloc = r.pick({0, 3000, 30000}); p.cfg.p_fail = r.pick({0, 500, 2500}); p.cfg.max_fail = r.pick({1, 2, 20}); }
    if (r.p(30)) { p.cfg.p_stall = 2000; p.cfg.stall_ms = 50; p.cfg.stall_total = 300; }
}
static void g_c17(Plan& p, R& r) {
    p.nproc = r.in(1, 3);
    int ni = std::max(2, r.in(p.nproc, 3));
    for (int i = 0; i < ni; i++) p.insts.push_back(inst(i % p.nproc, i, r.pick({1, 2, 4, 8, 16, 50}), r.pick({200, 260, 400, 900, 2000}), 1));
    int target = r.below(ni);
    if (r.p(3)) giant(p, r, r.p(70) ? target : r.below(ni));
    p.insts[target].autoinit = 0;
    bool only_sizes = r.p(25);
    if (only_sizes) p.insts[target].autoinit = 1;
    int nt = r.in(2, 4);
    for (int t = 0; t < nt; t++) {
        WThread th; th.proc = -1;
        int in = r.below(ni);
        for (int k = 0; k < 8 && in == target; k++) in = r.below(ni);
        if (only_sizes) in = r.below(ni);
        th.proc = p.insts[in].proc;
        for (int i = 0, n = r.in(3, 12); i < n; i++) {
            int fn = r.pick({F_F, F_SUM, F_VEC, F_VOID, F_F, F_BIG});
            i64 L = (i64)p.insts[target].cap * p.insts[target].msg, L2 = (i64)p.insts[in].cap * p.insts[in].msg;
            i64 sz = r.p(60) ? r.in(0, 40) : r.in(0, (int)std::max<i64>(1, std::min(std::min(L, L2) - 300, (i64)150000)));
            th.ops.push_back(mk(W_CALL, in, r.p(85) ? p.insts[target].chan : some_chan(p, r), r.pick({0, 1, 1, 2, 2}), fn, sz, r.pick({50, 400, 3000, 10000})));
            if (r.p(30)) th.ops.push_back(mk(W_SLEEP, r.pick({r.in(1, 30), r.in(10, 2000)})));
        }
        th.ops.push_back(mk(W_COLLECT, 3000, 0));
        p.threads.push_back(th);
    }
    if (!only_sizes) {
        p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1, 100), r.in(1, 3000), r.in(100, 20000)})));
        p.ctl.push_back(mk(W_INIT, target, p.insts[target].chan));
        for (int i = 0, n = r.below(3); i < n; i++) {
            p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1, 300), r.in(100, 20000)})));
            p.ctl.push_back(mk(W_UNINIT, target));
            p.ctl.push_back(mk(W_SLEEP, r.pick({r.in(1, 300), r.in(100, 20000)})));
            p.ctl.push_back(mk(W_INIT, target, p.insts[target].chan));
        }
    }
    if (r.p(35)) stalls(p, r);
    if (r.p(20)) spurs(p, r);
    if (p.cfg.mem_gap == 0 && r.p(30)) p.cfg.mem_gap = 400;
}

void gen_plan(Plan& p, const std::string& prop, u64 seed, int kf) {
    p = Plan();
    p.prop = prop;
    p.seed = seed;
    R r{mix(seed, prop[1] * 256 + prop[2])};
    p.cfg.seed = r.next();
    base(p, r);
    int n = atoi(prop.c_str() + 1);
    switch (n) {
        case 1: g_c01(p, r); break;
        case 2: g_c02(p, r); break;
        case 3: g_c03(p, r); break;
        case 4: g_c04(p, r); break;
        case 5: g_c05(p, r); break;
        case 6: g_c06(p, r); break;
        case 7: g_c07(p, r); break;
        case 8: g_c08(p, r); break;
        case 9: g_c09(p, r, kf); break;
        case 10: g_c10(p, r); break;
        case 11: g_c11(p, r); break;
        case 12: g_c12(p, r); break;
        case 13: g_c13(p, r); break;
        case 14: if (r.p(25)) g_c11(p, r); else g_c14(p, r); break;   // also after failures of the system
        case 15: g_c15(p, r); break;
        case 16: g_c16(p, r); break;
        case 17: g_c17(p, r); break;
        default: break;
    }
    clocks(p, seed);
    // C02/C07 and friends may restart with the caller gone: timeouts of synchronous calls stay below the watch limits
    for (auto& t : p.threads)
        for (auto& o : t.ops)
            if (o.op == W_CALL && o.d == F_NEST) { bool ok = false; for (auto& w : p.insts) if (w.chan == o.e) ok = true; if (!ok) o.e = p.insts[0].chan; }
    bool ends = p.cfg.crash_proc >= 0 || (p.flags & FL_CALLFAULTS);
    for (auto& o : p.ctl) if (o.op == W_CRASH || o.op == W_UNINIT) ends = true;
    for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_UNINIT) ends = true;
    if (ends) for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_CALL && o.f > 8000) o.f = 8000;
    // an uninit() that may end either of two lives says nothing: no uninit() of a thread next to an init() of the control thread
    for (auto& t : p.threads)
        for (auto& o : t.ops)
            if (o.op == W_UNINIT) for (auto& x : p.ctl) if ((x.op == W_INIT || x.op == W_RESTART) && (x.op == W_RESTART ? p.insts[o.a].proc == x.a : x.a == o.a)) { o.op = W_NONE; break; }
    // uninit waits for the functions that run: a gate which opens only after it would never open
    std::vector<int> unin;
    for (auto& o : p.ctl) { if (o.op == W_GATE) break; if (o.op == W_UNINIT) unin.push_back(p.insts[o.a].chan); }
    for (auto& t : p.threads) for (auto& o : t.ops) if (o.op == W_UNINIT) unin.push_back(p.insts[o.a].chan);
    for (auto& t : p.threads)
        for (auto& o : t.ops)
            if (o.op == W_CALL && o.d == F_GATE) for (int c : unin) if (o.b == c) o.d = F_SLOW;
}

// ---------------------------------------------------------------- text form
#define CFG_FIELDS(X) X(strategy) X(p_switch) X(p_pick) X(mem_gap) X(pct_d) X(pct_len) X(op_cost) X(p_stall) X(stall_ms) X(stall_total) X(stall_lock_boost) X(p_spur) X(p_jump) \
    X(p_alloc) X(p_fail) X(max_fail) X(crash_proc) X(crash_after) X(crash_mem) X(memcpy_dir) X(p_wake) X(race) X(fail_at) X(fail_n) X(oom_at) X(oom_ms) X(clk_ms) X(p_atom) X(up_ms) X(date_ms)
static void op_text(std::ostringstream& o, const char* pre, const WOp& w) {
    o << pre << " " << opk_name[w.op] << " " << w.a << " " << w.b << " " << w.c << " " << w.d << " " << w.e << " " << w.f << "\n";
}
std::string plan_to_text(const Plan& p) {
    std::ostringstream o;
    o << "prop " << p.prop << "\nseed " << p.seed << "\nmode " << p.mode << "\nnproc " << p.nproc << "\nknob " << p.knob[0] << " " << p.knob[1] << " " << p.knob[2] << "\nflags " << p.flags << "\nmisc";
    for (int i = 0; i < 8; i++) o << " " << p.misc[i];
    o << "\ncfg seed " << p.cfg.seed << "\n";
#define X(f) o << "cfg " #f " " << p.cfg.f << "\n";
    CFG_FIELDS(X)
#undef X
    for (auto& w : p.insts) o << "inst " << w.proc << " " << w.chan << " " << w.autoinit << " " << w.cap << " " << w.msg << " " << w.rw << "\n";
    for (auto& t : p.threads) { o << "thread " << t.proc << (t.late ? " 1" : "") << "\n"; for (auto& w : t.ops) op_text(o, "op", w); }
    for (auto& w : p.ctl) op_text(o, "ctl", w);
    return o.str();
}
bool plan_from_text(Plan& p, const std::string& text) {
    p = Plan();
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        if (!(l >> k) || k[0] == '#') continue;
        if (k == "prop") l >> p.prop;
        else if (k == "seed") l >> p.seed;
        else if (k == "mode") l >> p.mode;
        else if (k == "nproc") l >> p.nproc;
        else if (k == "knob") l >> p.knob[0] >> p.knob[1] >> p.knob[2];
        else if (k == "flags") l >> p.flags;
        else if (k == "misc") for (int i = 0; i < 8; i++) l >> p.misc[i];
        else if (k == "cfg") {
            std::string f; l >> f;
            if (f == "seed") l >> p.cfg.seed;
#define X(n) else if (f == #n) l >> p.cfg.n;
            CFG_FIELDS(X)
#undef X
        } else if (k == "inst") { WInst w; l >> w.proc >> w.chan >> w.autoinit >> w.cap >> w.msg >> w.rw; p.insts.push_back(w); }
        else if (k == "thread") { WThread t; l >> t.proc; if (!(l >> t.late)) t.late = 0; p.threads.push_back(t); }
        else if (k == "op" || k == "ctl") {
            WOp w; std::string n; l >> n >> w.a >> w.b >> w.c >> w.d >> w.e >> w.f;
            for (int i = 0; i < W_NK; i++) if (n == opk_name[i]) w.op = i;
            if (k == "op") { if (p.threads.empty()) return false; p.threads.back().ops.push_back(w); } else p.ctl.push_back(w);
        }
    }
    return true;
}
}  // namespace world
