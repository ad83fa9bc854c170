// Oracle: history of calls, lives of channels, executions and outcomes, and the checks over them. Uninstrumented.
#include "world.h"
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <unistd.h>

namespace world {
const char* opk_name[] = {"none", "call", "collect", "sleep", "bind", "unbind", "names", "init", "uninit", "inject", "lockhold",
                          "gate", "crash", "restart", "setrw", "getters", "isinit", "relbogus", "newdel", "jump", "quiet", "measure", "isolate",
                          "qpush", "qpop", "qnum", "qspace", "qreopen", "semwait", "sempost", "semopen", "release", "signal", "age"};
// a function name of 100 bytes: over several lengths encoded in one byte, not ASCII, with spaces and punctuation
#define LONG_NAME "a rather long name: namespace::inn\xc3\xa9r<T>::operator()(int, const std::string&)::{lambda#1}, revision_7"
const char* func_name[] = {"f", "f1", "f10", "f1x", "sum", "vec", "map", "void", "throw", "throwi", "slow", "nest", "big", "zero", "vzero", "nosuch", "badarg", "gate", "dyn", "struct", "mix", LONG_NAME};

Plan* P;
std::vector<CallRec*> calls;
std::vector<Life*> lives;
static u64 g_seq;
static std::map<std::string, i64> g_cnt;
static std::map<int, void*> g_objs;
static WaitQ g_gateq;
static bool g_gate;
static i64 g_gate_t;
static i64 zero_issued[2], zero_exec[2], zero_ok[2];

u64 seq() { return ++g_seq; }
i64 now() { return G.now; }
void cnt(const char* n, i64 d) { Enter e; g_cnt[n] += d; }
std::string counters_json() {
    std::string s = "{";
    for (auto& p : g_cnt) { if (s.size() > 1) s += ","; s += "\"" + p.first + "\":" + std::to_string(p.second); }
    return s + "}";
}
i64 o_stall_budget() { return P->cfg.stall_total + 60 * 30; }
i64 stall_used() { return G.stall_used; }

// ---------------------------------------------------------------- services
void* o_get(int inst) { Enter e; auto it = g_objs.find(inst); return it == g_objs.end() ? nullptr : it->second; }
void o_set(int inst, void* v) { Enter e; g_objs[inst] = v; }
static std::vector<Thr*> g_users;
int o_user_thread(int proc, void* (*fn)(void*), void* arg) {
    Enter e;
    Thr* t = G.proc[proc].alive ? thread_create(fn, arg, proc, false, false) : nullptr;   // crashed before it could start
    g_users.push_back(t);
    return (int)g_users.size() - 1;
}
int o_user_slot() { Enter e; g_users.push_back(nullptr); return (int)g_users.size() - 1; }
void o_user_start(int idx, int proc, void* (*fn)(void*), void* arg) {
    Enter e;
    if (!g_users[idx] && G.proc[proc].alive) g_users[idx] = thread_create(fn, arg, proc, false, false);
}
void o_join(int idx) {
    Enter e;
    Thr* t = g_users[idx];
    if (!t) return;
    while (t->st != FINISHED && t->st != DEAD) block(&t->joinq, G.now + 100 * MS, false, "join of a user thread");
    if (t->st == FINISHED) { acquire(t->vc); g_objs[1000 + idx] = t->ret; }
}
void o_sleep(i64 us) {
    if (us <= 0) return;
    point(OP_USER);
    Enter e;
    sleep_until(G.now + us * 1000);
}
void o_as(int proc) {
    Enter e;
    Thr* t = cur_thr;
    if (!t->control) return;
    t->proc = proc < 0 ? 15 : proc;
    t->inc = G.proc[t->proc].inc;
    img_switch(t->proc);
}
int o_proc() { return cur_thr->proc; }
void o_faults(bool f, bool c) {
    Enter e;
    G.faults = f;
    G.callfaults = c;
    trace("faults %d call faults %d", f, c);
    if (f) { G.fault_t0 = G.now; return; }
    i64 end = G.now;
    for (Thr* t : G.thr) if (t->st != FINISHED && t->st != DEAD) end = std::max(end, t->stall_until);
    if (end > G.now) sleep_until(end + MS);   // stalls that are under way end
    G.last_fault = G.now;
}
void o_nofault(int d) { if (cur_thr) cur_thr->nofault += d; }
static const char* g_op[256];
static i64 g_opa[256], g_opt[256];
void o_op(int slot, const char* what, i64 a, i64) {
    g_op[slot & 255] = what && *what ? what : nullptr;
    g_opa[slot & 255] = a;
    g_opt[slot & 255] = G.now;
}
std::string o_stuck(std::string* cls) {
    std::string s;
    *cls = "hang";
    for (int i = 0; i < 256; i++) {
        if (!g_op[i]) continue;
        if (i < (int)P->threads.size() && i < (int)g_users.size() && (!g_users[i] || g_users[i]->st == DEAD)) continue;
        if (!strcmp(g_op[i], "uninit")) *cls = "uninit-hang";
        else if (!strcmp(g_op[i], "a synchronous call") && *cls == "hang") *cls = "sync-hang";
        char b[160];
        snprintf(b, sizeof b, "%s thread %d in %s%s since %ld ms (now %ld ms)", s.empty() ? "" : ";", i, g_op[i],
                 g_opa[i] ? (" (" + std::to_string(g_opa[i]) + " ms)").c_str() : "", (long)(g_opt[i] / MS), (long)(G.now / MS));
        s += b;
    }
    return "bounded time has passed and these have not returned:" + (s.empty() ? std::string(" (control)") : s);
}
void o_watch(i64 ms) {
    Enter e;
    G.watch_deadline = G.now + ms * MS;
    G.watch_cls = "hang";
    G.watch_fn = [](std::string& c, std::string& m) { m = o_stuck(&c); };
}
void o_unwatch() {
    Enter e;
    G.watch_deadline = INF;
    G.watch_cls.clear();
    G.watch_fn = nullptr;
}
bool o_alive(int proc) { return G.proc[proc].alive; }
void o_crash_now(int p) {
    Enter e;
    if (!G.proc[p].alive) return;
    if (G.crash_ok) for (int k = 0; k < 4000 && !G.crash_ok(p); k++) sleep_until(G.now + 100000);
    if (G.crash_ok && !G.crash_ok(p)) return;
    trace("CRASH of process %d (by the plan)", p);
    G.res->st.fired[D_CRASH]++;
    crash_proc(p);
}
bool o_wait_dead(int p, i64 ms) {
    Enter e;
    i64 end = G.now + ms * MS;
    while (G.proc[p].alive && G.now < end) sleep_until(G.now + 500000);
    return !G.proc[p].alive;
}
void o_revive(int p) {
    Enter e;
    G.proc[p].inc++;
    G.proc[p].alive = true;
    G.proc[p].rand_state = 1;
    proc_globals_reset(p);
    for (auto it = g_objs.begin(); it != g_objs.end();) {
        if (it->first < (int)P->insts.size() && P->insts[it->first].proc == p) it = g_objs.erase(it); else ++it;
    }
    trace("process %d starts again", p);
    cnt("restarts");
}
void o_jump(i64 ms) { Enter e; clock_jump(ms * MS); trace("CLOCK STEP %ld ms (by the plan)", (long)ms); }
void o_violation(const char* cls, const char* m) { Enter e; violation(cls, "%s", m); }
void o_trace(const char* m) { trace("%s", m); }
i64 o_rnd(u64 salt) { return (i64)(mix(P->seed ^ 0xabcdef, salt) >> 1); }
void o_gate_wait() {
    point(OP_USER);
    Enter e;
    while (!g_gate) block(&g_gateq, INF, false, "the gate");
}
void o_gate_open() { Enter e; if (!g_gate) g_gate_t = G.now; g_gate = true; wake_all(&g_gateq); trace("gate opens"); }
// Channel names that are easily confused: prefixes of each other, queue suffixes, format characters, long, not ASCII.
std::string chan_name(int c) {
    Enter e;
    switch (mix(P->seed, 0x6e616d65) % 12) {
        case 0: case 1: return "ch" + std::string(c, '1');
        case 2: return "%s%n" + std::to_string(c) + "%d";
        case 3: { static const char* n[] = {"x", "x_call", "x_resp", "x_call_call", "x_call_shm"}; return c < 5 ? n[c] : "x_" + std::to_string(c); }
        case 4: return "\xe9\xa2\x91\xe9\x81\x93 " + std::to_string(c);
        case 5: { static const char* n[] = {"ch", "Ch", "cH", "CH", "ch "}; return c < 5 ? n[c] : " ch" + std::to_string(c); }
        case 6: return std::string(c, '0') + "1";
        case 7:
            for (auto& w : P->insts) if ((i64)w.cap * w.msg < 900) return "ch" + std::to_string(c);
            return std::string(120, 'L') + std::to_string(c);
        default: return "ch" + std::to_string(c);
    }
}
static i64 slack() { i64 n = 0; for (auto& w : P->insts) n = std::max(n, (i64)chan_name(w.chan).size()); return 200 + n; }
// the channel a shared name belongs to: the longest one that matches
static int chan_of(const std::string& n) {
    int best = -1; size_t len = 0;
    for (Life* l : lives) {
        std::string cn = chan_name(l->chan);
        for (const char* suf : {"_call", "_resp"}) {
            std::string c = cn + suf;
            if (c.size() > len && n.compare(0, c.size(), c) == 0) { best = l->chan; len = c.size(); }
        }
    }
    return best;
}

// ---------------------------------------------------------------- data
std::string payload(int id, i64 size) {
    Enter e;
    std::string s = std::to_string(id) + ":";
    u64 x = mix(77, id);
    while ((i64)s.size() < size) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)(x >> 56); }
    s.resize(size);
    return s;
}
std::string expect_str(const char* f, int uid, int id, const std::string& pl) {
    Enter e;
    return std::string(f) + "#" + std::to_string(uid) + "#" + std::to_string(id) + "#" + pl;
}
static std::string vec_str(int id, i64 sz, int uid) {
    std::string s; std::vector<int> x;
    for (int k = 0; k < sz % 60; k++) x.push_back(id * 7 + k * k - 300);
    if (uid >= 0) { std::reverse(x.begin(), x.end()); x.push_back(uid); }
    for (int v : x) s += std::to_string(v) + ",";
    return s;
}
static std::string map_str(int id, i64 sz, int uid) {
    std::map<std::string, int> x;
    for (int k = 0; k < sz % 12; k++) x["k" + std::to_string(k * 13 + id)] = id - k;
    if (uid >= 0) x["uid"] = uid;
    std::string s;
    for (auto& p : x) s += p.first + "=" + std::to_string(p.second) + ",";
    return s;
}
std::string throw_tail(int id, i64 size) {   // exception texts: format characters, long ones
    Enter e;
    std::string s = id % 3 == 0 ? "%s%n%d%5$s" : "";
    if (size > 60) s += std::string(size, 'a' + id % 26);
    return s;
}
void mix_args(int id, i64 size, int64_t& a, uint64_t& u, double& d, bool& b, std::vector<std::string>& v) {
    Enter e;
    static const int64_t A[] = {INT64_MIN, INT64_MAX, 0, -1, 127, 128, -32, -33, -129, 255, 256, 32767, 32768, 65535, 65536, -2147483648LL, -2147483649LL, 2147483648LL, 4294967295LL, 4294967296LL};
    static const double D[] = {0.0, 2.5, 1e308, 5e-324, 0.1, -1.0 / 3, 4294967296.5, 1e18};
    u64 x = mix(id, size);
    a = A[x % 20]; u = x % 3 ? (u64)A[x / 20 % 20] : ~0ull; d = D[x / 400 % 8]; b = x >> 40 & 1;
    static const int L[] = {0, 1, 31, 32};
    for (i64 k = 0; k < size % 6; k++) { u64 y = mix(x, k); v.push_back(k == 5 ? std::string(size % 300, (char)y) : std::string(L[y % 4], (char)(y >> 8))); }
}
std::string mix_text(int64_t a, uint64_t u, double d, bool b, const std::vector<std::string>& v) {
    Enter e;
    char t[120]; snprintf(t, sizeof t, "%ld/%lu/%a/%d/%zu", (long)a, (unsigned long)u, d, b, v.size());
    std::string s = t;
    for (auto& x : v) { s += '/'; s += x; }
    return s;
}
static std::string mix_str(int id, i64 size) { int64_t a; uint64_t u; double d; bool b; std::vector<std::string> v; mix_args(id, size, a, u, d, b, v); return mix_text(a, u, d, b, v); }
static std::string show(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < 48; i++) { char b[8]; if (s[i] >= 32 && s[i] < 127) r += s[i]; else { snprintf(b, sizeof b, "\\x%02x", (u8)s[i]); r += b; } }
    if (s.size() > 48) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}
static std::string call_desc(const CallRec* c) {
    static const char* k[] = {"synchronous", "promise", "callback"};
    char b[300];
    snprintf(b, sizeof b, "%s call %d of '%s' from process %d to channel ch%d (size %ld, timeout %ld ms, issued at %ld us)", k[c->kind], c->id, func_name[c->func], c->proc, c->chan,
             (long)c->size, (long)c->timeout, (long)(c->t_issue / 1000));
    return b;
}

// ---------------------------------------------------------------- lives
static Life* last_life(int inst) { for (size_t i = lives.size(); i-- > 0;) if (lives[i]->inst == inst) return lives[i]; return nullptr; }
Life* life_of(int inst) {
    Enter e;
    Life* l = last_life(inst);
    return l && l->s_up && !l->s_down_begin && !l->crashed ? l : nullptr;
}
Life* life_at(int chan) {
    Enter e;
    for (size_t i = lives.size(); i-- > 0;) if (lives[i]->chan == chan && lives[i]->s_up && !lives[i]->s_down_begin && !lives[i]->crashed) return lives[i];
    return nullptr;
}
struct RegOp { int uid, name, kind, tag, result; u64 b, e; bool opt = false; };
static std::vector<RegOp> g_reg;
static std::vector<std::pair<int, RegOp>> g_reg_pre;   // instance, what was bound before its init()
int o_up_begin(int inst, int chan, int cap, int msg) {
    Enter e;
    Life* old = last_life(inst);
    if (old && old->s_up && !old->s_down_begin && !old->crashed) return -1;   // init on an initialised instance
    Life* l = new Life();
    memset(l, 0, sizeof *l);
    l->uid = (int)lives.size() + 1; l->chan = chan; l->inst = inst; l->proc = cur_thr->proc; l->inc = cur_thr->inc; l->cap = cap; l->msg = msg;
    l->s_begin = seq(); l->t_up = -1;
    lives.push_back(l);
    for (auto& x : g_reg_pre)
        if (x.first == inst) {
            x.second.uid = l->uid;
            x.second.b = seq();
            x.second.e = seq();
            g_reg.push_back(x.second);
            x.first = -1;
        }
    return l->uid;
}
static i64 hold_budget() {
    i64 n = 0;
    for (auto& t : P->threads) for (auto& o : t.ops) if (o.op == W_LOCKHOLD) n += o.c;
    return n;
}
static i64 tight_budget() {   // what stalls, clock jumps and held locks can add to any wait
    bool jump = P->cfg.p_jump;
    for (auto& o : P->ctl) if (o.op == W_JUMP) jump = true;
    return hold_budget() + P->cfg.stall_total + (jump ? 1800 : 0);
}
void o_up(int uid, bool ok) {
    Enter e;
    if (uid < 0) return;
    Life* l = lives[uid - 1];
    if (ok) { l->s_up = seq(); l->t_up = G.now; cnt("inits"); trace("channel ch%d is up (life %d)", l->chan, uid); }
    else {
        l->s_down_begin = l->s_down_end = seq();
        bool other = false;
        for (Life* x : lives) if (x != l && x->chan == l->chan && !x->crashed && !x->s_down_end) other = true;
        if (!G.callfaults && !other && P->mode == 0) violation("init-failed", "init() of channel ch%d returns false although nothing failed and no other instance uses the channel", l->chan);
        cnt("init_false");
    }
}
int o_down_begin(int inst) {
    Enter e;
    Life* l = last_life(inst);
    if (!l || !l->s_up || l->s_down_begin || l->crashed) return -1;
    l->s_down_begin = seq();
    l->t_down_begin = G.now;
    trace("uninit of ch%d (life %d) begins", l->chan, l->uid);
    return l->uid;
}
void o_down_end(int uid) {
    Enter e;
    if (uid < 0) return;
    Life* l = lives[uid - 1];
    l->s_down_end = seq();
    l->t_down = G.now;
    trace("uninit of ch%d (life %d) has returned", l->chan, l->uid);
    {   // bounded once the functions that run have returned; what they wait for themselves ends with uninit()
        i64 from = l->t_down_begin, longest = 0;
        bool gate = false;
        for (CallRec* c : calls) {
            if (c->chan != l->chan) continue;
            if (c->func == F_SLOW) longest = std::max(longest, c->size);
            if (c->func == F_GATE) gate = true;
        }
        if (gate) from = g_gate ? std::max(from, g_gate_t) : G.now;
        const i64 el = (G.now - from) / MS;
        if (!G.callfaults && !G.res->st.crash_in_lock && P->cfg.op_cost <= 1000 && el > 2000 + longest + tight_budget())
            violation("uninit-hang", "uninit() of channel ch%d has taken %ld ms although no function of its had to run longer than %ld ms", l->chan, (long)el, (long)longest);
    }
    if (l->running) violation("exec-after-uninit", "uninit() of channel ch%d returned while %d of its functions were still running", l->chan, l->running);
    for (CallRec* c : calls)
        if ((c->caller == l || (!c->caller && c->inst == l->inst && c->s_issue > l->s_down_begin)) && c->kind == 2 && c->api_done && !c->outcomes)
            violation("no-outcome", "%s: the callback has not run although its instance's uninit() has returned", call_desc(c).c_str());
}
void o_after_uninit(int) {}
void o_crash(int proc) {
    Enter e;
    if (sem_held_foreign(proc, nullptr)) { G.res->st.crash_in_lock++; trace("process %d crashes while it holds the lock of a living peer's queue", proc); }
    for (Life* l : lives) if (l->proc == proc && l->inc == G.proc[proc].inc && !l->s_down_end) { l->crashed = true; if (!l->s_down_begin) l->t_down_begin = G.now; }
    for (CallRec* c : calls) if (c->proc == proc && c->inc == G.proc[proc].inc && !c->outcomes) c->abandoned = true;
}
static bool ended(const Life* l) { return l->s_down_begin || l->crashed; }
// did the calling instance begin to end since the call was made? (an API call may span several lives of its instance)
static bool caller_ended(const CallRec* c) {
    if (c->caller && ended(c->caller)) return true;
    for (Life* l : lives) if (l->inst == c->inst && ended(l) && (!l->s_down_end || l->s_down_end > c->s_issue)) return true;
    return false;
}

// ---------------------------------------------------------------- calls
int o_issue(int inst, int chan, int kind, int func, i64 size, i64 timeout, bool nested) {
    Enter e;
    CallRec* c = new CallRec;
    c->id = (int)calls.size();
    c->proc = cur_thr->proc; c->inc = cur_thr->inc; c->inst = inst; c->chan = chan; c->kind = kind; c->func = func; c->size = size; c->timeout = timeout; c->nested = nested;
    c->tid = cur_thr->tid;
    c->caller = life_of(inst);
    if (c->caller) c->caller->calls++;
    c->target = life_at(chan);
    for (Life* l : lives) if (l->chan == chan && !l->crashed && l != c->target && (!l->s_down_end) ) c->target_shaky = true;
    c->t_issue = G.now; c->s_issue = seq();
    c->lock_to = G.res->st.lock_timeouts;
    c->fails = G.res->st.fails + G.res->st.allocfails;
    c->cf_at_issue = G.callfaults;
    static const char* kn[] = {"calls_sync", "calls_promise", "calls_callback"};
    cnt(kn[kind]);
    if (func == F_ZERO) zero_issued[0]++;
    if (func == F_VZERO) zero_issued[1]++;
    calls.push_back(c);
    if (func == F_DYN && c->target && !c->target_shaky) { c->dyn = (int)(size % 4); c->reg = (int)reg_begin(chan, c->target->uid, c->dyn, 3, 0); }
    trace("issue call %d kind %d %s to ch%d size %ld timeout %ld", c->id, kind, func_name[func], chan, (long)size, (long)timeout);
    return c->id;
}
void o_api_done(int id) {
    Enter e;
    CallRec* c = calls[id];
    c->api_done = true;
    c->s_api = seq();
    if (c->kind == 2 && !c->outcomes && (c->caller == nullptr || c->caller->s_down_end) && !(c->caller && c->caller->crashed)) {
        Life* l = last_life(c->inst);
        if (!l || l->s_down_end) violation("no-outcome", "%s: the instance is not initialised, the API call has returned and the callback has not run", call_desc(c).c_str());
    }
    if (c->kind == 0 && !c->outcomes) violation("no-outcome", "%s returned without an outcome", call_desc(c).c_str());
}
// Names of functions nobody has bound: ordinary, empty, beginnings and continuations of bound names, conversions, long ones.
static size_t nofn_long(const CallRec* c) { return c->id % 7 == 5 ? (size_t)c->size : 0; }
std::string nofn_name(const CallRec* c) {
    switch (c->id % 7) {
        case 1: return "";
        case 2: return std::string(LONG_NAME, sizeof LONG_NAME - 2);
        case 3: return std::string(LONG_NAME) + "0";
        case 4: return "%s%n%d%%100$s";
        case 5: return "nosuch" + std::string(nofn_long(c), 'q') + "!";
        default: return "nosuch";
    }
}
static bool response_oversize(const CallRec* c, bool surely) {
    if (!c->caller) return false;
    i64 lim = (i64)c->caller->cap * c->caller->msg;
    i64 n = c->func == F_NOFN ? (i64)nofn_long(c) * 2 + (surely ? 0 : 200) : c->func == F_LONG ? c->size + 200 : c->func == F_BIG ? c->size : c->func == F_F || c->func == F_F1 || c->func == F_F10 || c->func == F_F1X || c->func == F_STRUCT || c->func == F_THROW ? c->size : c->func == F_VEC || c->func == F_MAP ? (surely ? 0 : c->size % 64 * 6) : c->func == F_MIX ? (surely ? 0 : 330 + c->size % 300) : 0;
    return surely ? n > lim && c->func != F_THROW : n + slack() > lim;
}
static bool request_oversize(const CallRec* c, bool surely) {
    Life* t = c->target;
    if (!t) return false;
    i64 lim = (i64)t->cap * t->msg;
    i64 n = c->func == F_NOFN ? (i64)nofn_long(c) * 2 + (surely ? 0 : 200) : c->func == F_LONG ? c->size + 200 : c->func == F_F || c->func == F_F1 || c->func == F_F10 || c->func == F_F1X || c->func == F_VOID || c->func == F_THROW || c->func == F_THROWI || c->func == F_STRUCT ? c->size : c->func == F_VEC || c->func == F_MAP ? (surely ? 0 : c->size % 64 * 6) : c->func == F_MIX ? (surely ? 0 : 330 + c->size % 300) : 0;
    return surely ? n > lim : n + slack() > lim;
}
static bool normal_func(int f) { return f != F_THROW && f != F_THROWI && f != F_NOFN && f != F_BADARG && f != F_DYN; }
static bool faulted(const CallRec* c) { return c->cf_at_issue || G.callfaults || G.res->st.fails + G.res->st.allocfails != c->fails; }

static void check_value(CallRec* c, int vk, i64 vi, const std::string& vs) {
    const int uid = c->exec_life ? c->exec_life->uid : -1;
    int k = V_NIL; i64 ei = 0; std::string es;
    switch (c->func) {
        case F_F: case F_F1: case F_F10: case F_F1X: case F_LONG: k = V_STR; es = expect_str(func_name[c->func], uid, c->id, payload(c->id, c->size)); break;
        case F_SUM: k = V_INT; ei = ((i64)c->id * 3 + c->size) + (-(i64)c->id * 5 - 1); break;
        case F_VEC: k = V_VEC; es = vec_str(c->id, c->size, uid); break;
        case F_MAP: k = V_MAP; es = map_str(c->id, c->size, uid); break;
        case F_VOID: case F_VZERO: k = V_NIL; break;
        case F_SLOW: k = V_INT; ei = c->size * 1000 + 7; break;
        case F_GATE: k = V_INT; ei = c->size + 5; break;
        case F_BIG: k = V_STR; es = payload(c->id + 100000 * uid, c->size); break;
        case F_ZERO: k = V_INT; ei = 4711; break;
        case F_STRUCT: k = V_STR; es = "struct:" + std::to_string(uid) + ":" + payload(c->id, c->size) + ":" + std::to_string(c->size % 9); break;
        case F_DYN: k = V_INT; ei = c->dyn_tag; break;
        case F_MIX: k = V_MAP; es = "echo=" + mix_str(c->id, c->size) + ",uid=" + std::to_string(uid) + ","; break;
        case F_NEST: {
            k = V_STR;
            es = "n#" + std::to_string(uid) + "#" + std::to_string(c->id) + "#";
            if (vk == V_STR && vs.compare(0, es.size(), es) == 0 && (vs.substr(es.size()) == "ok" || vs.substr(es.size()) == "fail")) return;
            break;
        }
        default: break;
    }
    if (k == V_INT && vi == ei && vk == k) return;
    if (k == V_NIL && vk == k) return;
    if (k != V_INT && k != V_NIL && vk == k && vs == es) return;
    violation("wrong-value", "%s succeeded with a wrong value: kind %d int %ld '%s', expected kind %d int %ld '%s'", call_desc(c).c_str(), vk, (long)vi, show(vs).c_str(), k, (long)ei, show(es).c_str());
}

// C13, misc[5]: the only thing that a call waits for is the lock of the target's call queue, which another process holds for long
struct LockWin { int chan; i64 t0, t1; };
static std::vector<LockWin> g_lockwin;
void o_lock_window(int chan, bool begin) {
    Enter e;
    if (begin) g_lockwin.push_back({chan, G.now, INF});
    else for (auto& w : g_lockwin) if (w.chan == chan && w.t1 == INF) w.t1 = G.now;
}
static void check_lock_wait(CallRec* c, bool success, int err, i64 elapsed) {
    const i64 W = P->insts[c->inst].rw;
    if (!P->misc[5] || !W || c->chan != P->insts[1].chan || c->inst != 0) return;
    if (!success && err != 0 && elapsed < W && elapsed < c->timeout)
        violation("early-timeout", "%s gave up after %ld ms although the lock of the queue may take %ld ms", call_desc(c).c_str(), (long)elapsed, (long)W);
    for (auto& w : g_lockwin)
        if (w.chan == c->chan && w.t0 <= c->t_issue && w.t1 == INF && elapsed > W + 1000)
            violation("late", "%s ended after %ld ms although the lock of the queue may take only %ld ms", call_desc(c).c_str(), (long)elapsed, (long)W);
}
void o_outcome(int id, int err, const std::string& msg, bool success, int vk, i64 vi, const char* vs, size_t vn) {
    Enter e;
    CallRec* c = calls[id];
    c->outcomes++;
    const std::string val(vs ? vs : "", vn);
    trace("outcome of call %d: %s code %d '%s'", id, success ? "success" : "failure", err, show(msg).c_str());
    if (c->outcomes > 1) { violation("dup-outcome", "%s has a second outcome (code %d '%s'; the first was code %d '%s')", call_desc(c).c_str(), err, show(msg).c_str(), c->err, show(c->msg).c_str()); return; }
    const bool own_api = !c->api_done;
    c->t_done = G.now; c->s_done = seq(); c->err = err; c->success = success; c->msg = msg.substr(0, 300);
    const i64 elapsed = (c->t_done - c->t_issue) / MS;
    cnt(success ? "ok" : err == 1 ? "fail_timeout" : err == 0 ? "fail_target" : "fail_failed");
    // (an API call that was still running when uninit() returned may belong to the next life)
    if (c->caller && c->caller->s_down_end && c->kind == 2 && !own_api && (c->s_api < c->caller->s_down_end || last_life(c->inst) == c->caller))
        violation("cb-after-uninit", "%s: the callback runs after uninit() of its instance has returned", call_desc(c).c_str());
    if (c->kind == 0) {
        i64 slack = 1000 + o_stall_budget() + (c->nested ? 2000 : 0);
        if (c->timeout < 3000000 && elapsed > c->timeout + slack)
            violation("late", "%s returned only after %ld ms", call_desc(c).c_str(), (long)elapsed);
    }
    // a callback is no worse off than a synchronous call; a request that can never fit is refused at once; the calls that wait for room hold up nobody else
    if (!faulted(c) && c->caller && !caller_ended(c) && c->kind != 1 && P->cfg.op_cost <= 1000) {   // (with dear operations the senders' attempts alone can take all of the time)
        const i64 budget = 1500 + tight_budget() + (c->nested ? 2000 : 0);
        if (c->kind == 2 && !success && err != 0 && elapsed > c->timeout + budget)
            violation("late", "%s completed with error code %d only after %ld ms", call_desc(c).c_str(), err, (long)elapsed);
        else if (!success && err != 0 && elapsed > budget && request_oversize(c, true) && c->target && !ended(c->target))
            violation("late", "%s, a request that can never fit, fails only after %ld ms", call_desc(c).c_str(), (long)elapsed);
        else if ((P->flags & FL_INDEP) && c->chan != P->misc[6] - 1 && c->func != F_GATE && c->target && !ended(c->target) && elapsed > budget + 1000)
            violation("late", "%s completed only after %ld ms; only calls to channel ch%d have reason to wait", call_desc(c).c_str(), (long)elapsed, (int)P->misc[6] - 1);
    }
    check_lock_wait(c, success, err, elapsed);
    if (c->reg >= 0) {
        if (success) reg_end(c->reg, (int)vi);
        else if (err == 0 && !faulted(c) && msg.find("d" + std::to_string(c->dyn)) != std::string::npos && c->execs == 0) reg_end(c->reg, -1);
        else reg_end(c->reg, -1000);
    }
    if (success) {
        if (err != 0 || !msg.empty()) violation("wrong-error", "%s: isSuccess() is true with code %d and message '%s'", call_desc(c).c_str(), err, show(msg).c_str());
        Life* ll = last_life(c->inst);
        if (!c->caller && (!ll || (ll->s_down_end && ll->s_down_end < c->s_issue))) violation("call-ok-after-uninit", "%s succeeds on an instance that is not initialised", call_desc(c).c_str());
        if (!normal_func(c->func) && c->func != F_DYN) { violation("wrong-value", "%s succeeded although the function %s", call_desc(c).c_str(), c->func == F_NOFN ? "does not exist" : c->func == F_BADARG ? "cannot take the arguments" : "throws"); return; }
        if (c->func == F_ZERO) { zero_ok[0]++; if (zero_ok[0] > zero_exec[0]) violation("success-not-executed", "more calls of 'zero' succeeded than were executed"); }
        else if (c->func == F_VZERO) { zero_ok[1]++; if (zero_ok[1] > zero_exec[1]) violation("success-not-executed", "more calls of 'vzero' succeeded than were executed"); }
        else if (c->execs == 0) { violation("success-not-executed", "%s succeeded and its function was never executed (value '%s')", call_desc(c).c_str(), show(val).c_str()); check_value(c, vk, vi, val); return; }
        if (request_oversize(c, true)) violation("wrong-value", "%s succeeded although the request can never have fitted the queue", call_desc(c).c_str());
        if (response_oversize(c, true)) violation("wrong-value", "%s succeeded although the response can never have fitted the queue", call_desc(c).c_str());
        check_value(c, vk, vi, val);
        return;
    }
    // ---- failed
    if (err == 0 && msg.empty()) violation("wrong-error", "%s: code SUCCESS, no message, and isSuccess() is false", call_desc(c).c_str());
    if (c->kind != 0 && err != 0 && !c->released && c->execs > 0 && c->func != F_ZERO && c->func != F_VZERO && !caller_ended(c) && !(faulted(c)))
        violation("exec-after-failure", "%s completed with error code %d ('%s') although its function has been executed", call_desc(c).c_str(), err, show(msg).c_str());
    if (c->released && err != 0) { cnt("fail_released"); return; }
    if (faulted(c)) { cnt("fail_excused_fault"); return; }
    if (!c->caller || caller_ended(c)) { cnt("fail_excused_caller"); return; }
    if (!c->target || ended(c->target) || c->target_shaky) { cnt("fail_excused_target"); return; }
    if (err == 0) {
        const std::string nm = func_name[c->func];
        if (response_oversize(c, false) && msg.find("boom") == std::string::npos) cnt("oversize_response");
        else if (c->func == F_THROW) { std::string w = "boom#" + std::to_string(c->exec_life ? c->exec_life->uid : -1) + "#" + std::to_string(c->id) + "#" + throw_tail(c->id, c->size); if (msg.find(w) == std::string::npos) violation("wrong-error", "%s failed with '%s', which is not the exception its function threw", call_desc(c).c_str(), show(msg).c_str()); }
        else if (c->func == F_THROWI || c->func == F_BADARG) {}
        else if (c->func == F_NOFN) { if (msg.find("'" + nofn_name(c) + "'") == std::string::npos) violation("wrong-error", "%s failed with '%s', which does not name the missing function", call_desc(c).c_str(), show(msg).c_str()); }
        else if (c->func == F_DYN) { if (c->execs || msg.find("d" + std::to_string(c->dyn < 0 ? c->size % 4 : c->dyn)) == std::string::npos) violation("wrong-error", "%s failed with '%s'", call_desc(c).c_str(), show(msg).c_str()); }
        else if (!response_oversize(c, false) && !request_oversize(c, false)) violation("wrong-error", "%s failed with '%s' although its function exists, takes the arguments and returns", call_desc(c).c_str(), show(msg).c_str());
        else cnt("oversize_response");
        return;
    }
    if (request_oversize(c, false)) { cnt("oversize_request"); return; }
    if (response_oversize(c, false)) { cnt("oversize_response"); return; }
    if (err == 1) {
        if (elapsed >= c->timeout) {
            if ((P->flags & FL_STRICT) && c->timeout >= 4000) violation("not-served", "%s failed by timeout after %ld ms although its target was serving all the time", call_desc(c).c_str(), (long)elapsed);
            return;
        }
        if (G.res->st.lock_timeouts != c->lock_to) { cnt("fail_excused_lock"); return; }
        violation("early-timeout", "%s failed with TIMEOUT ('%s') after %ld ms", call_desc(c).c_str(), show(msg).c_str(), (long)elapsed);
        return;
    }
    if (G.res->st.lock_timeouts != c->lock_to && elapsed < c->timeout && false) return;
    violation("spurious-failure", "%s failed with code %d ('%s') after %ld ms although its target was serving all the time and nothing failed", call_desc(c).c_str(), err, show(msg).c_str(), (long)elapsed);
}
void o_threw(int id, const char* where, const char* what) {
    Enter e;
    if (id >= 0) { CallRec* c = calls[id]; violation("api-threw", "%s: the API call threw an exception: %s", call_desc(c).c_str(), what); c->abandoned = true; c->outcomes++; }
    else violation("api-threw", "%s threw an exception: %s", where, what);
}
void o_nofuture(int id, bool null) {
    Enter e;
    CallRec* c = calls[id];
    c->outcomes++;
    c->err = 2; c->t_done = G.now; c->s_done = seq();
    cnt("no_future");
    if (!faulted(c)) violation("broken-promise", "%s gave %s", call_desc(c).c_str(), null ? "no result object" : "a future without a state");
}
void o_broken(int id, const char* what) {
    Enter e;
    CallRec* c = calls[id];
    c->outcomes++; c->err = 2; c->t_done = G.now; c->s_done = seq();
    violation("broken-promise", "%s: its promise holds an exception: %s", call_desc(c).c_str(), what);
}
void o_released(int id) { Enter e; calls[id]->released = true; cnt("released"); trace("call %d is released", id); }
bool o_chain(int id) { Enter e; return (P->flags & FL_CHAIN) && !calls[id]->nested && mix(P->seed, 5000 + id) % 3 == 0; }
int o_cb_throws(int id) {   // (in the caller's own thread the exception would be the caller's)
    Enter e;
    const u64 h = mix(P->seed, 6000 + id);
    if (!(P->flags & FL_CHAIN) || h % 5 || (calls[id]->tid == cur_thr->tid && !calls[id]->api_done)) return 0;
    cnt("callback_throws");
    return 1 + (int)(h / 5 % 3);
}
static std::map<int, int> chain_waits;
bool o_chain_wait(int inst, int d) {
    Enter e;
    Life* l = last_life(inst);
    if (d > 0 && (!l || l->s_down_begin || chain_waits[l->uid] + 1 >= P->knob[0])) return false;
    if (l) chain_waits[l->uid] += d;
    if (d > 0) cnt("sync_in_callback");
    return true;
}
void o_abandon(int id) { Enter e; calls[id]->abandoned = true; cnt("abandoned"); }

static std::vector<std::pair<int, std::string>> g_ids;
void o_note_callid(int call, const char* id) { Enter e; g_ids.push_back({call, id}); }
int o_get_callid(int pending, int k, char* b, int n) {   // identifiers of calls that are over, or of pending ones
    Enter e;
    std::vector<const std::string*> v;
    for (auto& p : g_ids) if (!calls[p.first]->outcomes == (pending > 0)) v.push_back(&p.second);
    if (v.empty()) return 0;
    snprintf(b, n, "%s", v[(size_t)k % v.size()]->c_str());
    return 1;
}

int o_exec(int inst, int id, int func, i64 a, i64 b, const char* p, size_t n) {
    Enter e;
    Life* l = last_life(inst);
    if (!l) { violation("wrong-args", "a function of an instance that was never initialised runs"); return 0; }
    cnt("execs");
    l->running++;
    trace("function %s runs in life %d for call %d", func_name[func], l->uid, id);
    if (l->s_down_end) violation("exec-after-uninit", "function '%s' of channel ch%d starts after uninit() has returned", func_name[func], l->chan);
    if (func == F_ZERO) zero_exec[0]++;
    if (func == F_VZERO) zero_exec[1]++;
    if (func == F_ZERO && zero_exec[0] > zero_issued[0]) violation("dup-exec", "'zero' was executed more often than it was called");
    if (func == F_VZERO && zero_exec[1] > zero_issued[1]) violation("dup-exec", "'vzero' was executed more often than it was called");
    if (id == -1) return l->uid;
    if (id < -1 || id >= (int)calls.size()) { violation("wrong-args", "function '%s' runs with call number %d, which no call has", func_name[func], id); return l->uid; }
    CallRec* c = calls[id];
    c->execs++;
    if (c->execs > 1) violation("dup-exec", "%s was executed a second time", call_desc(c).c_str());
    if (func != c->func) violation("wrong-args", "%s was executed as '%s'", call_desc(c).c_str(), func_name[func]);
    if (l->chan != c->chan) violation("wrong-args", "%s was executed at channel ch%d", call_desc(c).c_str(), l->chan);
    c->exec_life = l; c->t_exec = G.now; c->s_exec = seq();
    // (a sender that was stalled between looking at the call and sending it is no leftover of an earlier life)
    if (c->outcomes && c->s_done < l->s_begin && (l->t_up >= 0 ? l->t_up : G.now) - c->t_done > (P->cfg.stall_total + 200) * MS) violation("stale-exec", "%s completed (code %d '%s') before life %d of the channel began, and is executed by that life", call_desc(c).c_str(), c->err, show(c->msg).c_str(), l->uid);
    if (c->outcomes && c->kind != 0 && c->err != 0 && !c->released && !caller_ended(c) && !faulted(c))
        violation("exec-after-failure", "%s completed with error code %d ('%s') and its function is executed afterwards", call_desc(c).c_str(), c->err, show(c->msg).c_str());
    const std::string s(p ? p : "", n);
    bool ok = true;
    switch (func) {
        case F_F: case F_F1: case F_F10: case F_F1X: case F_LONG: case F_VOID: case F_THROW: case F_THROWI: ok = s == payload(id, c->size); break;
        case F_SUM: ok = a == (i64)id * 3 + c->size && b == -(i64)id * 5 - 1; break;
        case F_VEC: ok = s == vec_str(id, c->size, -1); break;
        case F_MAP: ok = s == map_str(id, c->size, -1); break;
        case F_SLOW: case F_GATE: case F_BIG: case F_NEST: ok = a == c->size; break;
        case F_STRUCT: ok = s == std::to_string(id) + ":" + payload(id, c->size) + ":" + std::to_string(c->size % 9); break;
        case F_DYN: c->dyn_tag = (int)a; break;
        case F_MIX: ok = s == mix_str(id, c->size); break;
        default: break;
    }
    if (!ok) violation("wrong-args", "%s: the function was given other arguments than the call's ('%s')", call_desc(c).c_str(), show(s).c_str());
    return l->uid;
}
void o_exec_end(int uid, int id) {
    Enter e;
    if (uid <= 0) return;
    Life* l = lives[uid - 1];
    l->running--;
    if (id >= 0 && id < (int)calls.size()) calls[id]->s_exec_end = seq();
    if (l->s_down_end) violation("exec-after-uninit", "a function of channel ch%d finishes after uninit() has returned", l->chan);
}

bool o_pending_settled(std::string* why) {
    Enter e;
    for (CallRec* c : calls) {
        if (c->outcomes || c->abandoned || !c->api_done || !c->caller) continue;
        if (ended(c->caller)) continue;   // checked at its uninit()
        // a life of the channel that existed after the call was issued and has ended may have taken the message with it
        bool gone = false;
        for (Life* l : lives) if (l->chan == c->chan && ended(l) && (!l->s_down_end || l->s_down_end > c->s_issue)) gone = true;
        if (gone) continue;
        // a response is dropped when it cannot be written for VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT (1500 ms)
        if (G.cfg.oom_ms > 1200 && c->t_issue < G.fault_t0 + (G.cfg.oom_at + G.cfg.oom_ms + 300) * MS) continue;
        if (why) *why = call_desc(c) + " has no outcome although " + (c->target ? "its target has been serving all the time" : "its target never existed") + " and all disturbances ended " +
                        std::to_string((G.now - G.last_fault) / MS) + " ms ago (executed " + std::to_string(c->execs) + " times)";
        return false;
    }
    return true;
}
void final_checks() {
    Enter e;
    for (CallRec* c : calls) {
        if (c->success && c->execs != 1 && c->func != F_ZERO && c->func != F_VZERO)
            violation("dup-exec", "%s succeeded and was executed %d times", call_desc(c).c_str(), c->execs);
    }
    cnt("calls", (i64)calls.size());
    cnt("lives", (i64)lives.size());
    int inflight = 0, dup = 0;
    for (CallRec* c : calls) { if (c->target && ended(c->target)) inflight++; (void)dup; }
    cnt("calls_target_ended", inflight);
}

// ---------------------------------------------------------------- registry (C12)
i64 reg_begin(int, int uid, int name, int kind, int tag) { Enter e; g_reg.push_back(RegOp{uid, name, kind, tag, -2000, seq(), 0}); return (i64)g_reg.size() - 1; }
void reg_end(i64 h, int r) { Enter e; if (r == 0 && g_reg[h].kind == 0 && (G.callfaults || G.res->st.allocfails)) r = -1000; g_reg[h].e = seq(); g_reg[h].result = r; }
void reg_before_init(int inst, int name, int kind, int tag, int result) { Enter e; g_reg_pre.push_back({inst, RegOp{0, name, kind, tag, result, 0, 0}}); cnt("registry_ops_before_init"); }
static bool wgl(const std::vector<RegOp*>& ops, u64 done, int state, std::set<std::pair<u64, int>>& memo) {
    bool rest = false;
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && !ops[i]->opt) rest = true;
    if (!rest) return true;
    if (!memo.insert({done, state}).second) return false;
    u64 minend = ~0ull;
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && !ops[i]->opt) minend = std::min(minend, ops[i]->e);
    for (size_t i = 0; i < ops.size(); i++) {
        if (done >> i & 1) continue;
        RegOp* o = ops[i];
        if (o->b > minend) continue;
        int ns = state;
        bool ok = false;
        switch (o->kind) {
            case 0: if (o->opt) { ok = state < 0; ns = o->tag; break; } ok = o->result == (state < 0); if (o->result) ns = o->tag; break;
            case 1: ok = true; ns = -1; break;
            case 2: ok = o->result == (state >= 0 ? 1 : 0); break;
            case 3: ok = o->result == state; break;
        }
        if (ok && wgl(ops, done | 1ull << i, ns, memo)) return true;
    }
    return false;
}
void registry_check() {
    Enter e;
    std::map<std::pair<int, int>, std::vector<RegOp*>> by;
    for (RegOp& o : g_reg) {
        if (o.name < 0) { if (o.kind == 0 && o.result == 1) violation("registry", "bind() of an empty name returned true"); continue; }
        if (o.result == -1000) continue;
        Life* l = lives[o.uid - 1];
        if (l->crashed) continue;
        if (o.e && !(l->s_down_begin && l->s_down_begin < o.e)) { by[{o.uid, o.name}].push_back(&o); continue; }
        // the operation overlaps the end of its life: it may have had its effect, in this life or in a later one
        if (o.kind > 1) continue;
        o.opt = true;
        for (Life* x : lives) if (x->inst == l->inst && x->uid >= l->uid) by[{x->uid, o.name}].push_back(&o);
    }
    for (auto& p : by) {
        auto& v = p.second;
        if (v.size() > 60) continue;   // none of the plans gets there
        cnt("registry_ops", (i64)v.size());
        cnt("registry_histories");
        std::set<std::pair<u64, int>> memo;
        if (!wgl(v, 0, -1, memo)) {
            std::string s;
            static const char* k[] = {"bind", "unbind", "names", "call"};
            for (RegOp* o : v) s += std::string(" ") + k[o->kind] + (o->kind == 0 ? "(" + std::to_string(o->tag) + ")" : "") + "=" + std::to_string(o->result) + "[" + std::to_string(o->b) + "," + std::to_string(o->e) + "]";
            violation("registry", "the history of name 'd%d' in life %d has no sequential order:%s", p.first.second, p.first.first, s.c_str());
        }
    }
}

// ---------------------------------------------------------------- leaks
static i64 g_base[MAXP]; static u32 g_mark[MAXP]; static int g_thr[MAXP]; static i64 g_meas[MAXP][4];
void o_leak_baseline(int p) { Enter e; g_base[p] = heap_live(p); g_mark[p] = heap_mark(); }
static u32 g_rewind;
void o_rewind(bool mark) {   // the memory of work that is finished is used again
    Enter e;
    if (mark || !heap_rewind(g_rewind)) g_rewind = heap_mark();
}
void o_tls_end() { control_tls_end(); }
void o_leak_check(int p, const char* what) {
    Enter e;
    if (G.proc[p].inc == 0 || true) {
        i64 base = G.proc[p].inc == 0 ? g_base[p] : 0;
        i64 n = heap_live(p);
        if (n > base) {
            std::string s;
            heap_report_leaks(p, s, 8, G.proc[p].inc == 0 ? g_mark[p] : 0);
            violation("leak", "%ld blocks of memory of process %d are still allocated %s:%s", (long)(n - base), p, what, s.c_str());
        }
    }
    SysCount c = sys_count(p);
    if (c.fds || c.maps || c.semh) violation("leak", "process %d still has %d descriptors, %d mappings, %d semaphore handles %s", p, c.fds, c.maps, c.semh, what);
    int th = 0;
    for (Thr* t : G.thr) if (t->proc == p && t->is_lib && t->inc == G.proc[p].inc && t->st != FINISHED && t->st != DEAD) th++;
    if (th) violation("leak", "%d threads of the library still run in process %d %s", th, p, what);
    int dj = 0;
    for (Thr* t : G.thr) if (t->proc == p && t->is_lib && t->inc == G.proc[p].inc && t->st == FINISHED && !t->joined && !t->detached) dj++;
    if (dj) violation("leak", "%d threads of process %d were neither joined nor detached %s", dj, p, what);
}
void o_names_check(const char* what) {
    Enter e;
    std::vector<std::string> v;
    names_list(v);
    // names of channels whose process died and was not restarted stay by design
    std::string s;
    for (auto& n : v) {
        bool dead = false;
        for (Life* l : lives) {
            if (chan_of(n) != l->chan) continue;
            if (l->crashed) dead = true;
            else if (l->s_up) dead = false;
        }
        if (!dead) s += " " + n;
    }
    if (!s.empty()) violation("leak", "shared names still exist %s:%s", what, s.c_str());
}
void o_thread_check(int p, const char* what) {
    Enter e;
    int th = 0;
    for (Thr* t : G.thr) if (t->proc == p && t->is_lib && t->st != FINISHED && t->st != DEAD) th++;
    if (!strcmp(what, "before")) { g_thr[p] = th; return; }
    int expect = g_thr[p];
    if (P->mode == 3 && P->misc[1]) expect = -1;
    if (expect >= 0 && th > expect) violation("leak", "%d threads of the library are running %s", th - expect, what);
}
// Connections to channels are kept by each sender thread, so a few batches may add blocks; a leak adds them with every batch.
static const int MEASURE_MAX = 17;
bool o_measure(int k, int p) {
    Enter e;
    static u32 marks[MAXP]; static i64 first[MAXP]; static bool grows[MAXP];
    const i64 n = heap_live(p), d = n - g_meas[p][0];
    trace("measure %d: process %d has %ld blocks", k, p, (long)n);
    g_meas[p][0] = n;
    if (k == 0) { first[p] = n; grows[p] = true; return true; }
    if (k == 1) cnt("measured");
    if (k > 1 && d <= 0) grows[p] = false;
    if (k == MEASURE_MAX && grows[p]) {
        std::string s;
        heap_report_leaks(p, s, 8, marks[p]);
        violation("leak", "every batch of 16 finished calls leaves memory behind in process %d: %ld blocks in %d batches, the last ones%s", p, (long)(n - first[p]), k, s.c_str());
    }
    marks[p] = heap_mark();
    return grows[p] && k < MEASURE_MAX;
}

// ---------------------------------------------------------------- messages injected into queues
static void mp_str(std::string& o, const std::string& s) {
    if (s.size() < 32) o += (char)(0xa0 | s.size());
    else { o += (char)0xda; o += (char)(s.size() >> 8); o += (char)s.size(); }
    o += s;
}
static std::string mp_call(const std::string& id, const std::string& ch, const std::string& fn, const std::string& args) {
    std::string o; o += (char)0x95; o += (char)0; mp_str(o, id); mp_str(o, ch); mp_str(o, fn); return o + args;
}
static std::string mp_resp(const std::string& id, const std::string& err, const std::string& val) {
    std::string o; o += (char)0x94; o += (char)1; mp_str(o, id); return o + err + val;
}
std::string inject_bytes(int kind, u64 seed, int queue, const std::string& id, int chan) {
    Enter e;
    u64 x = mix(seed, 99);
    auto r = [&](u64 n) { x = mix(x, 1); return x % n; };
    std::string ch = chan_name((int)(seed % 3)), nil("\xc0", 1), str, arg0("\x90", 1);
    mp_str(str, "injected");
    std::string arr2("\x92", 1); arr2 += (char)7; mp_str(arr2, "x");
    std::string argm("\x92\xff", 2); mp_str(argm, "x");
    std::string unk = "unknown-" + std::to_string(seed);
    std::string good = queue ? mp_resp(unk, nil, str) : mp_call(unk, ch, "nosuch-injected", arg0);
    std::string o;
    switch (kind) {
        case 0: { size_t n = 1 + r(90); for (size_t i = 0; i < n; i++) o += (char)r(256); break; }
        case 1: o = good.substr(0, 1 + r(good.size() - 1)); break;
        case 2: o = good + (queue ? mp_resp(unk + "b", str, nil) : mp_call(unk + "b", ch, "nosuch-injected", arr2)); break;
        case 3: {
            static const char* v[] = {"\x05", "\x04", "\xa5hello", "\xa4heyo", "\x85\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a", "\xc4\x05""12345", "\xc4\x04""1234", "\xc3", "\xcb@\x14\x00\x00\x00\x00\x00\x00", "\x90", "\xcd\x00\x05"};
            static const size_t l[] = {1, 1, 6, 5, 11, 7, 6, 1, 9, 1, 3};
            size_t i = r(11);
            o.assign(v[i], l[i]);
            break;
        }
        case 4: {
            o += (char)(queue ? 0x94 : 0x95);
            for (int i = 0; i < (queue ? 4 : 5); i++) { switch (r(5)) { case 0: o += (char)r(128); break; case 1: mp_str(o, "zz"); break; case 2: o += nil; break; case 3: o += arr2; break; default: o += "\xc3"; } }
            break;
        }
        case 5: o = good; o[0] = (char)(0x90 | r(4)); break;
        case 6: o = queue ? mp_resp(id, nil, str) : mp_call(unk, r(3) == 0 ? "" : r(2) ? "nochannel" : ch, "nosuch-injected", arr2); break;
        case 7: o = good; o[1] = (char)(2 + r(100)); break;
        case 8: o = queue ? mp_resp(unk, nil, arr2) : mp_call("", ch, "f", argm); break;
        case 9: o = queue ? mp_resp(unk, nil, nil) : mp_call(id, ch, "nosuch-injected", nil); break;
        case 11: o = queue ? mp_resp("", arr2, nil) : mp_call(unk, ch, "", arg0); break;
        case 12: {
            static const char* v[] = {"\xdd\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xc6\xff\xff\xff\xf0", "\xdd\x00\xff\xff\xff", "\xc9\xff\xff\xff\xff\x01", "\xc1"};
            static const size_t l[] = {5, 5, 5, 5, 5, 6, 1};
            size_t i = r(7);
            o.assign(v[i], l[i]);
            if (r(2)) o = good.substr(0, 2) + o;
            break;
        }
        case 13: {
            static const char* a[] = {"\x07", "\xc0", "\x80", "\xa1x", "\x91\xc0", "\x93\xc0\xc0\xc0", "\xc3"};
            static const size_t l[] = {1, 1, 1, 2, 2, 4, 1};
            size_t i = r(7);
            static const char* fn[] = {"sum", "f", "zero", "vec", "map", "struct", "void", "vzero", "zero"};
            o = queue ? mp_resp(unk, std::string(a[i], l[i]), nil) : mp_call(unk, ch, fn[r(9)], std::string(a[i], l[i]));
            break;
        }
        case 14: { size_t n = 200 + r(600); for (size_t i = 0; i < n; i++) o += (char)r(256); break; }
        case 15: if (r(2)) { o = good; for (size_t i = 0, n = 1 + r(9); i < n; i++) o += (char)r(256); } else { o = std::string("\xc1", 1) + good; } break;
        case 16: for (int i = 0; i < 60; i++) o += "\x91"; o += "\xc0"; if (r(2)) o = queue ? mp_resp(unk, nil, o) : mp_call(unk, ch, "vec", o); break;
        case 18: {   // almost a response to a call that is pending, almost a request: neither may have any effect
            o = queue ? mp_resp(id, r(2) ? nil : str, r(2) ? str : nil) : mp_call(unk, ch, r(2) ? "zero" : "vzero", arg0);
            switch (r(5)) {
                case 0: o[1] = (char)(queue ? r(2) * (2 + r(100)) : 1 + r(100)); break;
                case 1: o[0] = (char)(queue ? 0x95 : 0x96); o += nil; break;
                case 2: if (queue) { o = std::string("\x93\x01", 2); mp_str(o, id); o += nil; } else o = "\x94" + o.substr(2); break;
                case 3: o[1] = (char)0xc0; break;
                default: o[1] = (char)0x90; break;
            }
            break;
        }
        default: o = good;
    }
    (void)chan;
    return o;
}

// ---------------------------------------------------------------- queue model
struct QM { i64 cap, msg, bytes; std::deque<std::pair<u64, i64>> q; Thr* holder; i64 free_since, t_held; };
static QM g_q[4];
std::string q_bytes(u64 tag, i64 size) {
    Enter e;
    std::string s;
    u64 x = mix(tag, 4242);
    for (i64 i = 0; i < size; i++) { if (i % 8 == 0) x = mix(x, i); s += (char)(x >> (i % 8 * 8)); }
    return s;
}
void q_model_reset(int q, i64 cap, i64 msg) { Enter e; g_q[q].cap = cap; g_q[q].msg = msg; g_q[q].bytes = 0; g_q[q].q.clear(); g_q[q].holder = nullptr; }
void q_lock(int q, bool ok, i64 t0, i64 ms) {
    Enter e;
    QM& m = g_q[q];
    i64 el = (G.now - t0);
    if (ok) {
        if (m.holder) violation("fifo", "two threads hold the queue's lock at once");
        m.holder = cur_thr;
        cnt("q_locks");
    } else {
        cnt("q_lock_failed");
        if (el < ms * MS) violation("early-timeout", "a lock attempt with a timeout of %ld ms failed after %ld us", (long)ms, (long)(el / 1000));
    }
}
void q_unlock(int q) { Enter e; if (g_q[q].holder != cur_thr) violation("fifo", "another thread took the lock that this thread holds"); g_q[q].holder = nullptr; }
void q_push(int q, i64 size, u64 tag, bool ok) {
    Enter e;
    QM& m = g_q[q];
    bool fits = size > 0 && (i64)m.q.size() < m.cap && m.bytes + size <= m.cap * m.msg;
    cnt(ok ? "q_push" : "q_push_refused");
    if (ok != fits) violation("fifo", "a push of %ld bytes into a queue with %zu messages and %ld bytes (capacity %ld messages, %ld bytes) is %s", (long)size, m.q.size(), (long)m.bytes, (long)m.cap, (long)(m.cap * m.msg), ok ? "accepted" : "refused");
    if (ok) { m.q.push_back({tag, size}); m.bytes += size; }
}
void q_pop(int q, i64 bufsize, bool ok, i64 written, const char* p, size_t n) {
    Enter e;
    QM& m = g_q[q];
    if (m.q.empty()) { if (ok || written != 0) violation("fifo", "a pop from an empty queue returned %d and reported %ld bytes", ok, (long)written); cnt("q_pop_empty"); return; }
    auto f = m.q.front();
    if (f.second > bufsize) {
        cnt("q_pop_small");
        if (ok || written != f.second) violation("fifo", "a pop of a message of %ld bytes into a buffer of %ld returned %d and reported %ld", (long)f.second, (long)bufsize, ok, (long)written);
        return;
    }
    if (!ok) { violation("fifo", "a pop of a message of %ld bytes into a buffer of %ld failed (reported %ld)", (long)f.second, (long)bufsize, (long)written); return; }
    cnt("q_pop");
    if ((i64)n != f.second || std::string(p, n) != q_bytes(f.first, f.second)) {
        std::string which = "bytes that were never pushed";
        for (auto& x : m.q) if (x.second == (i64)n && q_bytes(x.first, x.second) == std::string(p, n)) which = "a later message";
        violation("fifo", "a pop returned %zu bytes, expected the oldest message of %ld bytes; it is %s", n, (long)f.second, which.c_str());
    }
    m.bytes -= f.second;
    m.q.pop_front();
}
void q_num(int q, i64 n) { Enter e; if (n != (i64)g_q[q].q.size()) violation("fifo", "the message count is %ld, the queue holds %zu", (long)n, g_q[q].q.size()); }
void q_space(int q, i64 size, bool ok, bool waitable) {
    Enter e;
    QM& m = g_q[q];
    bool fits = (i64)m.q.size() < m.cap && m.bytes + size <= m.cap * m.msg, ever = size <= m.cap * m.msg;
    if (ok != fits) violation("fifo", "the free-space answer for %ld bytes is %d with %zu messages and %ld bytes in a queue of %ld messages and %ld bytes", (long)size, ok, m.q.size(), (long)m.bytes, (long)m.cap, (long)(m.cap * m.msg));
    if (!ok && waitable != ever) violation("fifo", "the queue says that waiting for %ld bytes %s", (long)size, waitable ? "can help although it never can" : "cannot help although it can");
}
i64 q_count(int q) { return (i64)g_q[q].q.size(); }

// timed waits: semaphores with a model of tokens
static i64 g_posts[4], g_taken[4]; static std::vector<i64> g_post_t[4];
void t_post(int s) { Enter e; g_posts[s]++; g_post_t[s].push_back(G.now); }
void t_wait(int s, i64 ms, bool ok, i64 t0, i64 st0) {
    Enter e;
    i64 el = G.now - t0, st = G.stall_used - st0;
    if (ok) {
        g_taken[s]++;
        cnt("wait_ok");
        if (g_taken[s] > g_posts[s]) violation("early-timeout", "a wait of %ld ms returned true without a post", (long)ms);
    } else {
        cnt("wait_timeout");
        if (ms < 0) violation("early-timeout", "a wait without a bound gave up after %ld us", (long)(el / 1000));
        else if (ms > (i64)9e12 || el < ms * MS) violation("early-timeout", "a wait of %ld ms gave up after %ld us", (long)ms, (long)(el / 1000));
    }
    if (ms >= 0 && ms < (i64)9e12 && el > ms * MS + 400 * MS + st + G.cfg.stall_total * MS) violation("late", "a wait of %ld ms returned after %ld ms", (long)ms, (long)(el / MS));
}
}  // namespace world
