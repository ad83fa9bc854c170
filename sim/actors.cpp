// Actors: the code of the simulated programs that use the library (compiled with the same instrumentation as the library).
// Everything that is shared between actors lives in the oracle (uninstrumented); actors only hold thread-local state.
#include "world.h"
#include "veigar/veigar.h"
#include "message_queue.h"
#include "semaphore.h"
#include <stdexcept>
#include <memory>
#include <map>

namespace world {
using veigar::Veigar;
using veigar::CallResult;
using veigar::AsyncCallResult;

struct VStruct {
    int x = 0;
    std::string y;
    std::vector<int> z;
    MSGPACK_DEFINE(x, y, z);
};
static Veigar* V(int inst) { return (Veigar*)o_get(inst); }

// ---------------------------------------------------------------- results
static void outcome(int id, const CallResult& r) {
    const std::string msg = r.errorMessage;
    const bool ok = r.isSuccess();
    int k = V_NIL;
    i64 vi = 0;
    std::string s;
    auto& o = r.obj.get();
    try {
        switch (o.type) {
            case veigar_msgpack::type::NIL: k = V_NIL; break;
            case veigar_msgpack::type::STR: k = V_STR; s = o.as<std::string>(); break;
            case veigar_msgpack::type::POSITIVE_INTEGER:
            case veigar_msgpack::type::NEGATIVE_INTEGER: k = V_INT; vi = o.as<int64_t>(); break;
            case veigar_msgpack::type::ARRAY: {
                k = V_VEC;
                if (calls[id]->func == F_STRUCT) {
                    VStruct v = o.as<VStruct>();
                    s = "struct:" + std::to_string(v.x) + ":" + v.y + ":" + std::to_string(v.z.size());
                    k = V_STR;
                } else {
                    std::vector<int> v = o.as<std::vector<int>>();
                    for (size_t i = 0; i < v.size(); i++) { s += std::to_string(v[i]); s += ','; }
                }
                break;
            }
            case veigar_msgpack::type::MAP: {
                k = V_MAP;
                if (calls[id]->func == F_MIX) {
                    std::map<std::string, std::string> m = o.as<std::map<std::string, std::string>>();
                    for (auto& p : m) { s += p.first; s += '='; s += p.second; s += ','; }
                    break;
                }
                std::map<std::string, int> m = o.as<std::map<std::string, int>>();
                for (auto& p : m) { s += p.first; s += '='; s += std::to_string(p.second); s += ','; }
                break;
            }
            default: k = V_BAD;
        }
    } catch (std::exception&) { k = V_BAD; }
    o_outcome(id, (int)r.errCode, msg, ok, k, vi, s.data(), s.size());
}
struct NoFault { NoFault() { o_nofault(1); } ~NoFault() { o_nofault(-1); } };

static void chain(int id, bool ok);
static void cb_outcome(int id, const CallResult& r) {
    { NoFault n; outcome(id, r); }
    if (o_chain(id)) chain(id, r.isSuccess());
    switch (o_cb_throws(id)) {
        case 1: throw std::runtime_error("the callback throws");
        case 2: throw std::bad_alloc();
        case 3: throw 4711;
        default: break;
    }
}

// ---------------------------------------------------------------- bound functions
// what a function does with the API of its own instance
static void body_uses_api(int inst, int id) {
    if (!(P->flags & FL_CHAIN) || id % 3) return;
    Veigar* v = V(inst);
    (void)v->isInit();
    (void)v->channelName();
    (void)v->bindNames();
    const std::string nm = "own" + std::to_string(id);
    v->bind(nm, [](int x) { return x; });
    v->unbind(nm);
    cnt("api_in_function");
}
static void bind_all(Veigar* v, int inst) {
    auto echo = [](const char* nm, int fn, int inst) {
        return [nm, fn, inst](int id, const std::string& s) -> std::string {
            NoFault n;
            int uid = o_exec(inst, id, fn, 0, 0, s.data(), s.size());
            body_uses_api(inst, id);
            std::string r = expect_str(nm, uid, id, s);
            o_exec_end(uid, id);
            return r;
        };
    };
    v->bind("f", echo("f", F_F, inst));
    v->bind("f1", echo("f1", F_F1, inst));
    v->bind("f10", echo("f10", F_F10, inst));
    v->bind("f1x", echo("f1x", F_F1X, inst));
    v->bind(func_name[F_LONG], echo(func_name[F_LONG], F_LONG, inst));
    v->bind("sum", [inst](int id, int a, int b) -> int {
        int uid = o_exec(inst, id, F_SUM, a, b, nullptr, 0);
        o_exec_end(uid, id);
        return a + b;
    });
    v->bind("vec", [inst](int id, const std::vector<int>& x) -> std::vector<int> {
        NoFault n;
        std::string s;
        for (size_t i = 0; i < x.size(); i++) { s += std::to_string(x[i]); s += ','; }
        int uid = o_exec(inst, id, F_VEC, 0, 0, s.data(), s.size());
        std::vector<int> r(x.rbegin(), x.rend());
        r.push_back(uid);
        o_exec_end(uid, id);
        return r;
    });
    v->bind("map", [inst](int id, const std::map<std::string, int>& x) -> std::map<std::string, int> {
        NoFault n;
        std::string s;
        for (auto& p : x) { s += p.first; s += '='; s += std::to_string(p.second); s += ','; }
        int uid = o_exec(inst, id, F_MAP, 0, 0, s.data(), s.size());
        std::map<std::string, int> r = x;
        r["uid"] = uid;
        o_exec_end(uid, id);
        return r;
    });
    v->bind("void", [inst](int id, const std::string& s) -> void {
        int uid = o_exec(inst, id, F_VOID, 0, 0, s.data(), s.size());
        o_exec_end(uid, id);
    });
    v->bind("throw", [inst](int id, const std::string& s) -> std::string {
        NoFault n;
        int uid = o_exec(inst, id, F_THROW, 0, 0, s.data(), s.size());
        std::string m = "boom#" + std::to_string(uid) + "#" + std::to_string(id) + "#" + throw_tail(id, (i64)s.size());
        o_exec_end(uid, id);
        if (id % 2) throw std::runtime_error(m);
        struct Own : std::exception { std::string m; Own(const std::string& s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } };
        throw Own(m);
    });
    v->bind("throwi", [inst](int id, const std::string& s) -> std::string {
        NoFault n;
        int uid = o_exec(inst, id, F_THROWI, 0, 0, s.data(), s.size());
        o_exec_end(uid, id);
        struct Odd { int a; std::string b; };
        switch (s.size() % 5) {
            case 0: throw 42;
            case 1: throw std::bad_alloc();
            case 2: throw Odd{1, "x"};
            case 3: throw std::logic_error("");
            default: throw "text";
        }
    });
    v->bind("slow", [inst](int id, int ms) -> int {
        int uid = o_exec(inst, id, F_SLOW, ms, 0, nullptr, 0);
        body_uses_api(inst, id);
        o_sleep((i64)ms * 1000);
        o_exec_end(uid, id);
        return ms * 1000 + 7;
    });
    v->bind("gate", [inst](int id, int x) -> int {
        int uid = o_exec(inst, id, F_GATE, x, 0, nullptr, 0);
        o_gate_wait();
        o_exec_end(uid, id);
        return x + 5;
    });
    v->bind("big", [inst](int id, int size) -> std::string {
        NoFault n;
        int uid = o_exec(inst, id, F_BIG, size, 0, nullptr, 0);
        std::string r = payload(id + 100000 * uid, size);
        o_exec_end(uid, id);
        return r;
    });
    v->bind("zero", [inst]() -> int {
        int uid = o_exec(inst, -1, F_ZERO, 0, 0, nullptr, 0);
        o_exec_end(uid, -1);
        return 4711;
    });
    v->bind("vzero", [inst]() -> void {
        int uid = o_exec(inst, -1, F_VZERO, 0, 0, nullptr, 0);
        o_exec_end(uid, -1);
    });
    v->bind("nest", [inst](int id, int chan, int timeout) -> std::string {
        int uid = o_exec(inst, id, F_NEST, chan, timeout, nullptr, 0);
        std::string r;
        int nid = o_issue(inst, chan, 0, F_F, 12, timeout, true);
        std::string pl = payload(nid, 12), cn = chan_name(chan);
        Veigar* v = V(inst);
        bool ok = false;
        try {
            CallResult cr = v->syncCall(cn, (uint32_t)timeout, "f", nid, std::move(pl));
            NoFault n;
            outcome(nid, cr);
            ok = cr.isSuccess();
        } catch (std::exception& e) { o_threw(nid, "nested syncCall", e.what()); }
        o_api_done(nid);
        {
            NoFault n;
            r = "n#" + std::to_string(uid) + "#" + std::to_string(id) + (ok ? "#ok" : "#fail");
        }
        o_exec_end(uid, id);
        return r;
    });
    v->bind("mix", [inst](int id, int64_t a, uint64_t u, double d, bool b, const std::vector<std::string>& x) -> std::map<std::string, std::string> {
        NoFault n;
        std::map<std::string, std::string> r;
        const std::string s = mix_text(a, u, d, b, x);
        int uid = o_exec(inst, id, F_MIX, 0, 0, s.data(), s.size());
        r["uid"] = std::to_string(uid);
        r["echo"] = s;
        o_exec_end(uid, id);
        return r;
    });
    v->bind("struct", [inst](int id, const VStruct& a) -> VStruct {
        NoFault n;
        std::string s = std::to_string(a.x) + ":" + a.y + ":" + std::to_string(a.z.size());
        int uid = o_exec(inst, id, F_STRUCT, 0, 0, s.data(), s.size());
        VStruct r = a;
        r.x = uid;
        o_exec_end(uid, id);
        return r;
    });
}
static bool bind_dyn(Veigar* v, int inst, int name, int tag) {
    std::string nm;
    { NoFault n; nm = name < 0 ? std::string() : "d" + std::to_string(name); }
    const int slow = P->prop == "C12" && tag % 2 == 0 ? (int)P->misc[3] : 0;
    return v->bind(nm, [inst, tag, slow](int id) -> int {
        int uid = o_exec(inst, id, F_DYN, tag, 0, nullptr, 0);
        if (slow) o_sleep((i64)slow * 1000);   // it may be unbound, and its name bound again, meanwhile
        o_exec_end(uid, id);
        return tag;
    });
}

// Binding an empty name, or one that is bound from the beginning, is refused for functions of every shape.
static void bind_refused(Veigar* v, int name, int tag) {
    static const char* const taken[] = {"f", "sum", "slow", "struct"};
    std::string nm;
    bool ok = false;
    { NoFault n; if (name < -1) nm = taken[tag / 4 % 4]; }
    auto run = [] { o_violation("registry", "a function that bind() has refused is called"); };
    try {
        switch (tag & 3) {
            case 0: ok = v->bind(nm, [run]() { run(); }); break;
            case 1: ok = v->bind(nm, [run](int, const std::string&) { run(); }); break;
            case 2: ok = v->bind(nm, [run]() -> int { run(); return 1; }); break;
            default: ok = v->bind(nm, [run](int, const std::string&) -> std::string { run(); return "refused"; }); break;
        }
    } catch (std::exception& e) { o_threw(-1, "bind", e.what()); }
    cnt("bind_refused");
    if (ok) o_violation("registry", name < -1 ? "bind() of a name that is bound returns true" : "bind() of an empty name returns true");
    if (name == -1) {
        std::vector<std::string> names = v->bindNames();
        NoFault n;
        for (auto& x : names) if (x.empty()) o_violation("registry", "bindNames() has an empty name");
    }
}

// A bind or unbind of an instance that is not initialised (the control thread only) takes effect in its next life.
static void registry_op(const WOp& op) {
    Veigar* v = V((int)op.a);
    const int kind = op.op == W_BIND ? 0 : 1;
    if (kind == 0 && op.b < 0) {
        for (const WOp& o : P->ctl) if (o.op == W_UNINIT && o.a == op.a && op.b < -1) return;   // (uninit() releases the names)
        bind_refused(v, (int)op.b, (int)op.c);
        return;
    }
    Life* l = life_of((int)op.a);
    i64 h = l ? reg_begin(l->chan, l->uid, (int)op.b, kind, kind ? 0 : (int)op.c) : -1;
    int result = 1;
    if (kind == 0) {
        result = 0;
        try { result = bind_dyn(v, (int)op.a, (int)op.b, (int)op.c); } catch (std::exception& e) { o_threw(-1, "bind", e.what()); }
    } else {
        std::string nm;
        { NoFault n; nm = "d" + std::to_string(op.b); }
        try { v->unbind(nm); } catch (std::exception& e) { o_threw(-1, "unbind", e.what()); }
    }
    if (h >= 0) reg_end(h, result);
    else if (P->prop == "C12") reg_before_init((int)op.a, (int)op.b, kind, kind ? 0 : (int)op.c, result);
}

// ---------------------------------------------------------------- instances
static void make_instance(int inst) {
    NoFault n;
    Veigar* v = new Veigar();
    o_set(inst, v);
    bind_all(v, inst);
}
static bool do_init(int inst, int chan) {
    Veigar* v = V(inst);
    const WInst& w = P->insts[inst];
    std::string cn = chan_name(chan);
    int uid = o_up_begin(inst, chan, w.cap, w.msg);
    bool ok = false;
    try {
        ok = v->init(cn, w.cap, w.msg);
    } catch (std::exception& e) { o_threw(-1, "init", e.what()); }
    o_up(uid, ok);
    if (ok && w.rw) {
        v->setTimeoutOfRWLock(w.rw);
        if (P->prop == "C13" && v->timeoutOfRWLock() != (uint32_t)w.rw) o_violation("early-timeout", "the timeout set by setTimeoutOfRWLock() is not the one in force");
    }
    return ok;
}
static void do_uninit(int inst) {
    Veigar* v = V(inst);
    int uid = o_down_begin(inst);
    try {
        v->uninit();
    } catch (std::exception& e) { o_threw(-1, "uninit", e.what()); }
    o_down_end(uid);
}
static void destroy_instance(int inst) {
    Veigar* v = V(inst);
    if (!v) return;
    o_set(inst, nullptr);
    delete v;
}

// ---------------------------------------------------------------- calls
struct Pend { int id; int inst; std::shared_ptr<AsyncCallResult> acr; };
typedef std::vector<Pend> Pends;

template <class... A>
static void issue(int id, int inst, int chan, int kind, i64 timeout, const char* fname, Pends& pend, A&&... args) {
    Veigar* v = V(inst);
    std::string cn, fn;
    { NoFault n; cn = chan_name(chan); fn = fname; pend.reserve(pend.size() + 1); }
    uint32_t to = (uint32_t)timeout;
    try {
        if (kind == 0) {
            CallResult r = v->syncCall(cn, to, fn, std::move(args)...);
            NoFault n;
            outcome(id, r);
        } else if (kind == 1) {
            std::shared_ptr<AsyncCallResult> acr = v->asyncCall(cn, to, fn, std::move(args)...);
            NoFault n;
            if (!acr) o_nofuture(id, true);
            else if (!acr->second.valid()) { o_nofuture(id, false); }
            else {
                o_note_callid(id, acr->first.c_str());
                pend.push_back(Pend{id, inst, acr});
            }
        } else {
            v->asyncCall([id](const CallResult& r) { cb_outcome(id, r); }, cn, to, fn, std::move(args)...);
        }
    } catch (std::exception& e) {
        o_threw(id, "call", e.what());
    }
    o_api_done(id);
}
static void do_call(int inst, int chan, int kind, int func, i64 size, i64 timeout, Pends& pend, bool nested = false) {
    if (!V(inst)) return;
    o_nofault(1);
    int id = o_issue(inst, chan, kind, func, size, timeout, nested);
    const CallRec* c = calls[id];
    int sz = (int)c->size;
    switch (func) {
        case F_F: case F_F1: case F_F10: case F_F1X: case F_LONG: case F_VOID: case F_THROW: case F_THROWI: {
            int i = id; std::string pl = payload(id, sz);
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, func_name[func], pend, i, pl);
            break;
        }
        case F_SUM: { int i = id, a = id * 3 + sz, b = -id * 5 - 1; o_nofault(-1); issue(id, inst, chan, kind, timeout, "sum", pend, i, a, b); break; }
        case F_VEC: {
            int i = id; std::vector<int> x;
            for (int k = 0; k < sz % 60; k++) x.push_back(id * 7 + k * k - 300);
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, "vec", pend, i, x);
            break;
        }
        case F_MAP: {
            int i = id; std::map<std::string, int> x;
            for (int k = 0; k < sz % 12; k++) x["k" + std::to_string(k * 13 + id)] = id - k;
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, "map", pend, i, x);
            break;
        }
        case F_STRUCT: {
            int i = id; VStruct x;
            x.x = id; x.y = payload(id, sz); x.z.assign(sz % 9, id);
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, "struct", pend, i, x);
            break;
        }
        case F_MIX: {
            int i = id; int64_t a; uint64_t u; double d; bool b; std::vector<std::string> x;
            mix_args(id, sz, a, u, d, b, x);
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, "mix", pend, i, a, u, d, b, x);
            break;
        }
        case F_SLOW: { int i = id, a = sz; o_nofault(-1); issue(id, inst, chan, kind, timeout, "slow", pend, i, a); break; }
        case F_GATE: { int i = id, a = sz; o_nofault(-1); issue(id, inst, chan, kind, timeout, "gate", pend, i, a); break; }
        case F_BIG: { int i = id, a = sz; o_nofault(-1); issue(id, inst, chan, kind, timeout, "big", pend, i, a); break; }
        case F_NEST: { int i = id, a = sz, t = (int)(timeout > 400 ? timeout / 3 : timeout); o_nofault(-1); issue(id, inst, chan, kind, timeout, "nest", pend, i, a, t); break; }
        case F_ZERO: o_nofault(-1); issue(id, inst, chan, kind, timeout, "zero", pend); break;
        case F_VZERO: o_nofault(-1); issue(id, inst, chan, kind, timeout, "vzero", pend); break;
        case F_NOFN: {
            int i = id; std::string nm = nofn_name(c);
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, nm.c_str(), pend, i);
            break;
        }
        case F_BADARG: {
            int i = id; std::string pl = payload(id, sz % 20); char nfbuf[sizeof(NoFault)];
            o_nofault(-1);
            if (sz % 7 == 5) issue(id, inst, chan, kind, timeout, "vzero", pend, i);
            else if (sz % 7 == 6) { NoFault* nf = new (nfbuf) NoFault; std::string p2 = pl; nf->~NoFault(); issue(id, inst, chan, kind, timeout, "void", pend, i, pl, p2); }
            else if (sz % 5 == 3) issue(id, inst, chan, kind, timeout, "sum", pend, i, i, i, i);
            else if (sz % 5 == 4) issue(id, inst, chan, kind, timeout, "zero", pend, i);
            else if (sz % 3 == 0) { NoFault* nf = new (nfbuf) NoFault; std::string p2 = pl; nf->~NoFault(); issue(id, inst, chan, kind, timeout, "sum", pend, i, pl, p2); }
            else if (sz % 3 == 1) issue(id, inst, chan, kind, timeout, "sum", pend, pl, i, i);
            else issue(id, inst, chan, kind, timeout, "vec", pend, i, i);
            break;
        }
        case F_DYN: {
            char nm[16]; snprintf(nm, sizeof nm, "d%d", sz % 4);
            int i = id;
            o_nofault(-1);
            issue(id, inst, chan, kind, timeout, nm, pend, i);
            break;
        }
        default: o_nofault(-1);
    }
}
// what a callback does with the API
static void chain(int id, bool ok) {
    const int inst = calls[id]->inst;
    Veigar* v = V(inst);
    if (!v) return;
    (void)v->isInit();
    {
        NoFault n;
        std::string s = v->channelName();
        v->releaseCall("no-such-call");
    }
    (void)v->bindNames();
    Pends none;
    // (a callback may wait for another call as long as one dispatcher thread is left that can take the response)
    if (ok && o_chain_wait(inst, 1)) {
        do_call(inst, calls[id]->chan, 0, id % 2 ? F_SUM : F_F, 3, 6000, none, true);
        o_chain_wait(inst, -1);
        return;
    }
    do_call(inst, calls[id]->chan, 2, F_SUM, 3, 3000, none, true);
}
// gives up promises of this thread that may still be pending; each of them becomes ready nevertheless
static void release_some(Pends& pend, i64 count) {
    for (size_t k = pend.size(); k-- > 0 && count-- > 0;) {
        Pend& p = pend[k];
        if (!o_alive(P->insts[p.inst].proc) || !V(p.inst)) continue;
        o_released(p.id);
        V(p.inst)->releaseCall(p.acr->first);
    }
}
// waits for outstanding promises of this thread
static void collect(Pends& pend, i64 maxms, bool abandon) {
    NoFault n;
    Pends keep;
    for (Pend& p : pend) {
        if (!o_alive(P->insts[p.inst].proc) || !V(p.inst)) continue;
        std::future_status st = p.acr->second.wait_for(std::chrono::milliseconds(maxms));
        if (st == std::future_status::ready) {
            try {
                CallResult r = p.acr->second.get();
                outcome(p.id, r);
            } catch (std::exception& e) { o_broken(p.id, e.what()); }
            o_nofault(-1);
            V(p.inst)->releaseCall(p.acr->first);
            o_nofault(1);
        } else if (abandon) {
            o_nofault(-1);
            V(p.inst)->releaseCall(p.acr->first);
            o_nofault(1);
            o_abandon(p.id);
        } else keep.push_back(p);
    }
    pend.swap(keep);
}

static bool complete(const std::string& m) {
    size_t at = 0;
    try {
        while (at < m.size()) {
            veigar_msgpack::null_visitor v;
            if (!veigar_msgpack::parse(m.data(), m.size(), at, v)) return false;
        }
    } catch (...) { return false; }
    return true;
}
static void inject(int inst_proc, const WOp& op) {
    NoFault n;
    int chan = (int)op.a, queue = (int)op.b, kind = (int)op.c;
    Life* l = life_at(chan);
    if (!l) return;
    veigar::MessageQueue mq(l->cap, l->msg);
    std::string path = chan_name(chan) + (queue ? "_resp" : "_call");
    if (!mq.open(path)) return;
    if (mq.processRWLock(200)) {
        if (kind == 10) {  // repeat a response that is waiting in the queue
            std::string buf(l->cap * l->msg + 16, '\0');
            int64_t w = 0;
            if (mq.popFront(&buf[0], (int64_t)buf.size(), w)) {
                mq.pushBack(buf.data(), w);
                cnt("inject_popped");
                if (mq.pushBack(buf.data(), w)) { mq.notifyRead(); cnt("inject_dup"); }
            }
        } else if (kind == 17) {  // put invalid objects, or the next message, into one message with one that is waiting in the queue
            std::string buf(l->cap * l->msg + 16, '\0'), bad;
            int64_t w = 0, w2 = 0;
            if (mq.popFront(&buf[0], (int64_t)buf.size(), w)) {
                std::string m(buf, 0, w);
                static const int sub[] = {3, 4, 7, 9, 11, 13, 3, 4};
                for (i64 k = 0, n = 1 + op.d % 3; k < n; k++) bad += inject_bytes(sub[(op.d >> 4) % 8], (u64)op.d + k, queue, "unknown-x", chan);
                if (op.d >> 8 & 1) bad.clear();
                if (bad.empty() && mq.msgNumber() > 0 && mq.popFront(&buf[0], (int64_t)buf.size(), w2)) bad.assign(buf, 0, w2);
                bool waitable;
                if (!complete(bad)) bad.swap(m);   // nothing can be found behind something incomplete
                if (complete(bad) && mq.checkSpaceSufficient((int64_t)(bad.size() + m.size()), waitable)) { bad += m; mq.pushBack(bad.data(), (int64_t)bad.size()); cnt("inject_joined"); }
                else { mq.pushBack(m.data(), (int64_t)m.size()); if (w2) mq.pushBack(bad.data(), (int64_t)bad.size()); }
            }
        } else {
            char id[256] = "";
            if (!o_get_callid(kind == 18, (int)op.e, id, sizeof id)) snprintf(id, sizeof id, "unknown-%d", (int)op.d);
            std::string b = inject_bytes(kind, (u64)op.d, queue, id, chan);
            if (!b.empty() && mq.pushBack(b.data(), (int64_t)b.size())) { mq.notifyRead(); cnt("inject_pushed"); }
        }
        mq.processRWUnlock();
    }
    mq.close();
}
static void lockhold(const WOp& op) {
    NoFault n;
    Life* l = life_at((int)op.a);
    if (!l) return;
    veigar::MessageQueue mq(l->cap, l->msg);
    if (!mq.open(chan_name((int)op.a) + (op.b ? "_resp" : "_call"))) return;
    if (mq.processRWLock(500)) {
        cnt("lockhold");
        if (!op.b) o_lock_window((int)op.a, true);
        o_sleep(op.c * 1000);
        if (!op.b) o_lock_window((int)op.a, false);
        mq.processRWUnlock();
    }
    mq.close();
}
// read signals without a message
static void odd_signal(const WOp& op) {
    NoFault n;
    Life* l = life_at((int)op.a);
    if (!l) return;
    veigar::MessageQueue mq(l->cap, l->msg);
    if (!mq.open(chan_name((int)op.a) + (op.b ? "_resp" : "_call"))) return;
    for (i64 k = 0; k < op.c; k++) mq.notifyRead();
    cnt("odd_signals", op.c);
    mq.close();
}
static void getters(int inst) {
    Veigar* v = V(inst);
    Life* l = life_of(inst);
    try {
        const i64 cap = v->msgQueueCapacity();
        const i64 msg = v->expectedMsgMaxSize();
        std::string s = v->channelName();
        const i64 rw = v->timeoutOfRWLock();
        const bool up = v->isInit();
        if (l && life_of(inst) == l && (cap != l->cap || msg != l->msg || s != chan_name(l->chan) || rw <= 0 || !up))
        {
            NoFault n;
            o_violation("getter", ("an instance initialised as '" + chan_name(l->chan) + "' with " + std::to_string(l->cap) + " x " + std::to_string(l->msg) + " says: '" + s + "', " + std::to_string(cap) + " x " +
                std::to_string(msg) + ", lock timeout " + std::to_string(rw) + " ms, " + (up ? "initialised" : "not initialised")).c_str());
        }
    } catch (std::exception& e) { o_threw(-1, "getter", e.what()); }
}
static void names_op(int inst) {
    i64 h[4];
    Life* l = life_of(inst);
    for (int k = 0; k < 4; k++) h[k] = l ? reg_begin(l->chan, l->uid, k, 2, 0) : -1;
    std::vector<std::string> v = V(inst)->bindNames();
    NoFault n;
    for (int k = 0; k < 4; k++) {
        if (h[k] < 0) continue;
        int c = 0;
        std::string nm = "d" + std::to_string(k);
        for (auto& s : v) if (s == nm) c++;
        reg_end(h[k], c);
    }
}
// a short-lived extra instance in this process
static void newdel(const WOp& op, Pends& pend) {
    int inst = (int)op.a;
    if (V(inst)) return;
    make_instance(inst);
    bool ok = do_init(inst, P->insts[inst].chan);
    if (ok) {
        for (int i = 0; i < op.c; i++) do_call(inst, (int)op.b, i % 3, F_F, 20, 800, pend);
        collect(pend, 900, true);
        do_uninit(inst);
    }
    // promises of this instance must not outlive it in this thread
    Pends keep;
    for (Pend& p : pend) if (p.inst != inst) keep.push_back(p);
    pend.swap(keep);
    destroy_instance(inst);
}

// An instance grows old: op.b calls that are refused at once, as no response to a call of such a long name fits.
static void age(const WOp& op) {
    Veigar* v = V((int)op.a);
    if (!v) return;
    const WInst& w = P->insts[op.a];
    std::string cn, fn;
    { NoFault n; cn = chan_name(w.chan); fn.assign((size_t)w.cap * w.msg + 40, 'g'); }
    o_rewind(true);
    for (i64 i = 0, slow = 0; i < op.b && slow < 8; i++) {
        if (i % 64 == 63) o_rewind(false);
        try {
            std::shared_ptr<AsyncCallResult> acr = v->asyncCall(cn, 5000, fn);
            if (!acr || !acr->second.valid() || acr->second.wait_for(std::chrono::seconds(0)) == std::future_status::ready) continue;
            slow++;   // (not refused at once)
            acr->second.wait();
            v->releaseCall(acr->first);
        } catch (std::exception& e) { o_threw(-1, "call", e.what()); return; }
    }
}

struct UArg { int idx; };
static void exec_op(const WOp& op, Pends& pend, int slot, int proc) {
    switch (op.op) {
        case W_CALL: o_op(slot, op.c == 0 ? "a synchronous call" : "an asynchronous call", op.c == 0 ? op.f : 0);
            do_call((int)op.a, (int)op.b, (int)op.c, (int)op.d, op.e, op.f, pend); break;
        case W_COLLECT: o_op(slot, "collecting promises", op.a); collect(pend, op.a, op.b); break;
        case W_SLEEP: o_sleep(op.a); break;
        case W_BIND: case W_UNBIND:
            if (!V((int)op.a)) break;
            if (P->prop == "C12" && !life_of((int)op.a)) break;
            o_op(slot, op.op == W_BIND ? "bind" : "unbind");
            registry_op(op);
            break;
        case W_NAMES: if (V((int)op.a)) { o_op(slot, "bindNames"); names_op((int)op.a); } break;
        case W_INIT: {
            o_op(slot, "init");
            if (!V((int)op.a)) make_instance((int)op.a); else { NoFault n; bind_all(V((int)op.a), (int)op.a); }
            do_init((int)op.a, (int)op.b);
            break;
        }
        case W_UNINIT: if (V((int)op.a)) { o_op(slot, "uninit"); do_uninit((int)op.a); } break;
        case W_INJECT: o_op(slot, "injecting"); inject(proc, op); break;
        case W_LOCKHOLD: o_op(slot, "holding a lock"); lockhold(op); break;
        case W_SIGNAL: o_op(slot, "signalling"); odd_signal(op); break;
        case W_AGE: o_op(slot, "making many calls"); age(op); break;
        case W_RELEASE: o_op(slot, "releaseCall"); release_some(pend, op.a); break;
        case W_GATE: o_gate_open(); break;
        case W_SETRW: if (V((int)op.a)) {
            const uint32_t was = V((int)op.a)->timeoutOfRWLock();
            V((int)op.a)->setTimeoutOfRWLock((uint32_t)op.b);
            if (op.b == 0 && P->prop == "C13" && V((int)op.a)->timeoutOfRWLock() != was) o_violation("early-timeout", "setTimeoutOfRWLock(0) is not ignored");
            break;
        }
        case W_GETTERS: if (V((int)op.a)) { o_op(slot, "getters"); getters((int)op.a); } break;
        case W_ISINIT: if (V((int)op.a)) (void)V((int)op.a)->isInit(); break;
        case W_RELBOGUS: if (V((int)op.a)) { std::string s; { NoFault n; s = "no-such-call"; } V((int)op.a)->releaseCall(s); } break;
        case W_NEWDEL: o_op(slot, "a short-lived instance"); newdel(op, pend); break;
        default: break;
    }
}
// leftovers of user threads (promises that never became ready), by instance: owned by the control thread
static Pends* g_left;
static void* user_main(void* a) {
    int idx = (int)(intptr_t)a;
    const WThread& t = P->threads[idx];
    Pends pend;
    for (const WOp& op : t.ops) {
        exec_op(op, pend, idx, t.proc);
        o_op(idx, "");
    }
    if (!pend.empty()) {
        o_op(idx, "collecting promises", 0);
        collect(pend, 0, false);
        NoFault n;
        Pends* keep = new Pends(std::move(pend));
        o_op(idx, "");
        return keep;
    }
    return nullptr;
}

static void settle_collect(Pends& all, bool final) {
    // promises left over: ready ones give their outcome
    NoFault n;
    Pends keep;
    for (Pend& p : all) {
        if (!o_alive(P->insts[p.inst].proc)) { keep.push_back(p); continue; }
        o_as(P->insts[p.inst].proc);
        if (p.acr->second.wait_for(std::chrono::milliseconds(0)) == std::future_status::ready) {
            try {
                CallResult r = p.acr->second.get();
                outcome(p.id, r);
            } catch (std::exception& e) { o_broken(p.id, e.what()); }
            if (V(p.inst)) V(p.inst)->releaseCall(p.acr->first);
        } else keep.push_back(p);
        o_as(-1);
    }
    all.swap(keep);
}

static void probes() {
    // every living instance calls every living channel
    for (size_t i = 0; i < P->insts.size(); i++) {
        if (!o_alive(P->insts[i].proc) || !V((int)i) || !life_of((int)i)) continue;
        o_as(P->insts[i].proc);
        getters((int)i);
        Pends pend;
        for (size_t j = 0; j < P->insts.size(); j++) {
            Life* l = o_alive(P->insts[j].proc) && V((int)j) ? life_of((int)j) : nullptr;
            if (!l || l->t_up < 0) continue;
            size_t n0 = calls.size();
            o_watch(20000 + o_stall_budget());
            do_call((int)i, l->chan, (int)(o_rnd(i * 16 + j) % 2 ? 0 : 2), F_F, 24, 6000, pend);
            for (int k = 0; k < 700 && calls[n0]->outcomes == 0; k++) o_sleep(10000);
            o_unwatch();
            // (in a queue of less than 180 bytes a probe may not have room: it fails, but it does have an outcome)
            const bool tiny = P->insts[i].cap * P->insts[i].msg < 180 || P->insts[j].cap * P->insts[j].msg < 180;
            if (!calls[n0]->success && !(tiny && calls[n0]->outcomes)) {
                std::string m = "after the disturbances ended, a call from channel " + chan_name(life_of((int)i)->chan) + " to channel " + chan_name(l->chan) +
                                (calls[n0]->outcomes ? " fails: code " + std::to_string(calls[n0]->err) + " '" + calls[n0]->msg + "'" : std::string(" has no outcome"));
                o_violation("probe-failed", m.c_str());
            }
        }
        o_as(-1);
    }
}

static bool measure_batch(int round) {
    // C14: a batch of finished work must not change the number of live blocks
    for (size_t i = 0; i < P->insts.size(); i++) {
        if (!o_alive(P->insts[i].proc) || !V((int)i) || !life_of((int)i)) continue;
        o_as(P->insts[i].proc);
        {
            Pends pend;
            for (int k = 0; k < 16; k++) {
                int kind = k % 3, mix = (int)((P->misc[0] >> (k % 4 * 2)) & 3);
                int chan = mix == 3 ? 90 : (int)(o_rnd(k * 31 + i) % P->insts.size());
                if (P->misc[1] && k % 4 == 1) {   // a target that has died without a trace: nobody will ever answer
                    const bool rel = o_rnd(977 + k) % 2;
                    do_call((int)i, 85, rel ? 1 : 0, o_rnd(991 + k) % 2 ? F_F : F_LONG, 10 + k, 40 + k, pend);
                    if (rel) release_some(pend, 1);
                    continue;
                }
                if (chan != 90) { Life* l = life_of(chan); chan = l && o_alive(P->insts[chan].proc) ? l->chan : 90; }
                int fn = mix == 0 ? k % 5 == 2 ? F_LONG : k % 5 == 4 ? F_MIX : F_F : mix == 1 ? F_THROW : mix == 2 ? F_NOFN : F_F;
                do_call((int)i, chan, kind, fn, 10 + k, 3000, pend);
            }
            collect(pend, 4000, true);
        }
        o_as(-1);
    }
    o_sleep(400000);
    std::set<int> procs;
    for (auto& w : P->insts) if (o_alive(w.proc)) procs.insert(w.proc);
    bool grows = false;
    for (int p : procs) grows = o_measure(round, p) || grows;
    return grows;
}

void run_world() {
    const size_t NI = P->insts.size();
    // ---- set-up
    std::set<int> procs;
    for (auto& w : P->insts) procs.insert(w.proc);
    if (P->flags & FL_WARM) {
        for (int p : procs) {
            o_as(p);
            int inst = -1;
            for (size_t i = 0; i < NI; i++) if (P->insts[i].proc == p) { inst = (int)i; break; }
            make_instance(inst);
            if (do_init(inst, 80 + p)) {
                Pends pend;
                o_watch(30000);
                do_call(inst, 80 + p, 0, F_F, 8, 3000, pend);
                do_call(inst, 80 + p, 1, F_THROW, 8, 3000, pend);
                do_call(inst, 80 + p, 2, F_NOFN, 8, 3000, pend);
                do_call(inst, 95, 1, F_F, 8, 3000, pend);
                collect(pend, 3500, true);
                o_unwatch();
                o_watch(30000);
                do_uninit(inst);
                o_unwatch();
            }
            destroy_instance(inst);
            o_leak_baseline(p);
            o_as(-1);
        }
    } else for (int p : procs) o_leak_baseline(p);
    for (size_t i = 0; i < NI; i++) {
        const WInst& w = P->insts[i];
        if (w.autoinit == 2) continue;   // created by an operation
        o_as(w.proc);
        make_instance((int)i);
        if (w.autoinit == 1) do_init((int)i, w.chan);
        o_as(-1);
    }
    if (P->flags & FL_LEAK) {
        veigar::MessageQueue* dead = nullptr;
        if (P->misc[1]) {
            NoFault n;
            o_as(P->insts[0].proc);
            dead = new veigar::MessageQueue(400, 300);
            dead->create(chan_name(85) + "_call");
            o_as(-1);
        }
        int k = 0;
        do o_watch(120000); while (measure_batch(k) && ++k);
        o_unwatch();
        if (dead) { NoFault n; o_as(P->insts[0].proc); dead->close(); delete dead; o_as(-1); }
    }
    // ---- run
    o_faults(P->flags & FL_FAULTS, P->flags & FL_CALLFAULTS);
    std::vector<int> us;
    for (size_t t = 0; t < P->threads.size(); t++) us.push_back(P->threads[t].late ? o_user_slot() : o_user_thread(P->threads[t].proc, user_main, (void*)(intptr_t)t));
    Pends left;
    i64 total = 30000 + o_stall_budget();
    for (const WThread& t : P->threads) {
        i64 s = 0;
        for (const WOp& op : t.ops) s += op.op == W_CALL ? (op.f > 4000000 ? 30000 : op.f) + 1200 : op.op == W_COLLECT ? op.a * 12 : op.op == W_SLEEP ? op.a / 1000 : op.op == W_NEWDEL ? 12000 : op.op == W_LOCKHOLD ? op.c + 600 : op.op == W_AGE ? op.b * 2 + 60000 : 700;
        total += s;
    }
    o_watch(total);
    std::vector<std::pair<int, int>> extra;   // restart threads
    for (const WOp& op : P->ctl) {
        switch (op.op) {
            case W_SLEEP: o_sleep(op.a); break;
            case W_JUMP: o_jump(op.a); break;
            case W_GATE: o_gate_open(); break;
            case W_CRASH: o_crash_now((int)op.a); break;
            case W_QUIET: o_faults(false, false); break;
            case W_RESTART: {
                if (!o_wait_dead((int)op.a, op.b)) break;
                o_sleep(op.c * 1000);
                o_revive((int)op.a);
                o_as((int)op.a);
                for (size_t i = 0; i < NI; i++) {
                    if (P->insts[i].proc != op.a || P->insts[i].autoinit != 1) continue;
                    make_instance((int)i);
                    do_init((int)i, P->insts[i].chan);
                }
                o_as(-1);
                for (size_t t = 0; t < us.size(); t++)
                    if (P->threads[t].late && P->threads[t].proc == op.a) o_user_start(us[t], (int)op.a, user_main, (void*)(intptr_t)t);
                break;
            }
            case W_INIT:
                o_as(P->insts[op.a].proc);
                if (o_alive(P->insts[op.a].proc)) {
                    if (!V((int)op.a)) make_instance((int)op.a); else bind_all(V((int)op.a), (int)op.a);
                    do_init((int)op.a, (int)op.b);
                }
                o_as(-1);
                break;
            case W_BIND: case W_UNBIND:
                if (o_alive(P->insts[op.a].proc) && V((int)op.a)) { o_as(P->insts[op.a].proc); registry_op(op); o_as(-1); }
                break;
            case W_UNINIT:
                if (o_alive(P->insts[op.a].proc) && V((int)op.a)) { o_as(P->insts[op.a].proc); do_uninit((int)op.a); o_as(-1); }
                break;
            default: break;
        }
    }
    o_gate_open();
    for (int u : us) o_join(u);
    for (size_t t = 0; t < us.size(); t++) {
        Pends* p = (Pends*)(o_get(1000 + us[t]));
        if (p) { for (Pend& x : *p) left.push_back(x); o_as(P->threads[t].proc); if (o_alive(P->threads[t].proc)) delete p; o_as(-1); }
    }
    o_unwatch();
    // ---- disturbances end; everything addressed to a living, continuous target must finish
    o_faults(false, false);
    std::string why;
    for (int k = 0; k < 800; k++) {
        settle_collect(left, false);
        if (o_pending_settled(nullptr)) break;
        o_sleep(15000);
    }
    settle_collect(left, false);
    if (!o_pending_settled(&why)) o_violation("no-outcome", why.c_str());
    // ---- everything works again
    if (!(P->flags & FL_NOPROBE)) {
        for (size_t i = 0; i < NI; i++) if (o_alive(P->insts[i].proc) && V((int)i) && life_of((int)i)) V((int)i)->setTimeoutOfRWLock(100);
        probes();
    }
    registry_check();
    // ---- shut down in a random order
    std::vector<int> order;
    for (size_t i = 0; i < NI; i++) order.push_back((int)i);
    for (size_t i = NI; i > 1; i--) std::swap(order[i - 1], order[o_rnd(7000 + i) % i]);
    for (int i : order) {
        if (!o_alive(P->insts[i].proc) || !V(i)) continue;
        o_as(P->insts[i].proc);
        o_op(190, "uninit");
        o_watch(15000);
        Life* l = life_of(i);
        do_uninit(i);
        if (l) o_after_uninit(l->uid);
        o_sleep(3000);
        do_uninit(i);   // repeated: harmless
        if (V(i)->isInit()) o_violation("still-init", "isInit() is true after uninit()");
        o_unwatch();
        o_op(190, "");
        o_as(-1);
        settle_collect(left, true);
        Pends keep;
        for (Pend& p : left) {
            if (p.inst == i) {
                char m[200];
                snprintf(m, sizeof m, "the promise of call %d (%s to %s) is still not ready after its instance's uninit() returned", p.id, func_name[calls[p.id]->func], chan_name(calls[p.id]->chan).c_str());
                o_violation("no-outcome", m);
            }
            keep.push_back(p);
        }
        left.swap(keep);
    }
    // calls on an instance that is no longer initialised
    for (int i : order) {
        if (!o_alive(P->insts[i].proc) || !V(i)) continue;
        o_as(P->insts[i].proc);
        {
            o_watch(10000);
            Pends pend;
            size_t n0 = calls.size();
            for (int k = 0; k < 3; k++) do_call(i, P->insts[i].chan, k, F_F, 10, 500, pend);
            collect(pend, 200, false);
            for (int k = 0; k < 3; k++) if (!calls[n0 + k]->outcomes) o_violation("no-outcome", "a call on an instance that is not initialised has no outcome");
            std::string s; { NoFault n; s = "x"; }
            V(i)->releaseCall(s);
            getters(i);
            o_unwatch();
        }
        o_as(-1);
    }
    {   // leftovers of dead processes are dropped without touching them
        Pends* sink = new Pends(std::move(left));
        (void)sink;
    }
    for (int i : order) {
        if (!o_alive(P->insts[i].proc) || !V(i)) continue;
        o_as(P->insts[i].proc);
        destroy_instance(i);
        o_as(-1);
    }
    o_sleep(1000000);
    final_checks();
    o_tls_end();
    for (int p : procs) if (o_alive(p)) o_leak_check(p, "after uninit() and destruction of all instances");
    o_names_check("after uninit() and destruction of all instances");
}

// ================================================================ mode 1: message queues
static veigar::MessageQueue* mkq(int q, int idx, bool creator, i64 cap, i64 msg) {
    NoFault n;
    auto* m = new veigar::MessageQueue((int32_t)cap, (int32_t)msg);
    std::string path = "q" + std::to_string(q);
    bool ok = creator ? m->create(path) : m->open(path);
    if (!ok) { o_violation("queue-open", creator ? "create of a message queue fails" : "open of an existing message queue fails"); }
    return m;
}
static void* q_main(void* a) {
    int idx = (int)(intptr_t)a;
    const WThread& t = P->threads[idx];
    const i64 cap = P->misc[0], msg = P->misc[1];
    veigar::MessageQueue* m = mkq(0, idx, false, cap, msg);
    std::string buf;
    { NoFault n; buf.resize(cap * msg + 64); }
    u64 tag = (u64)idx * 100000;
    for (const WOp& op : t.ops) {
        o_op(idx, "a queue operation", 0);
        if (op.op == W_SLEEP) { o_sleep(op.a); continue; }
        if (op.op == W_QREOPEN) { m->close(); delete m; m = mkq(0, idx, false, cap, msg); continue; }
        i64 t0 = now();
        bool ok = m->processRWLock((uint32_t)op.f);
        q_lock(0, ok, t0, op.f);
        if (!ok) continue;
        for (int rep = 0; rep < 1 + op.c; rep++) {
            switch (op.op) {
                case W_QPUSH: {
                    std::string d = q_bytes(++tag, op.a);
                    bool r = m->pushBack(op.a ? d.data() : nullptr, op.a);
                    q_push(0, op.a, tag, r);
                    if (r && op.b) m->notifyRead();
                    break;
                }
                case W_QPOP: {
                    int64_t w = -77;
                    bool r = m->popFront(op.a ? &buf[0] : nullptr, op.a > (i64)buf.size() ? (i64)buf.size() : op.a, w);
                    q_pop(0, op.a > (i64)buf.size() ? (i64)buf.size() : op.a, r, w, buf.data(), r ? (size_t)w : 0);
                    break;
                }
                case W_QNUM: q_num(0, m->msgNumber()); break;
                case W_QSPACE: { bool w = false; bool r = m->checkSpaceSufficient(op.a, w); q_space(0, op.a, r, w); break; }
                default: break;
            }
        }
        if (op.d) o_sleep(op.d * 1000);
        q_unlock(0);
        m->processRWUnlock();
        o_op(idx, "");
    }
    m->close();
    delete m;
    return nullptr;
}
void run_mq() {
    const i64 cap = P->misc[0], msg = P->misc[1];
    o_as(0);
    o_leak_baseline(0);
    for (int round = 0; round < 1 + (int)P->misc[2]; round++) {
        veigar::MessageQueue* m = mkq(0, -1, true, cap, msg);
        q_model_reset(0, cap, msg);
        if (!m->processRWLock(100)) o_violation("fifo", "the lock of a fresh queue cannot be taken");
        else { if (m->msgNumber() != 0) o_violation("fifo", "a freshly created queue is not empty"); m->processRWUnlock(); }
        if (round < (int)P->misc[2]) {   // fill it partly, then create it anew
            if (m->processRWLock(100)) {
                q_lock(0, true, now(), 100);
                for (int i = 0; i < 1 + round; i++) { std::string d = q_bytes(5000 + i, msg / 2 + 1); q_push(0, msg / 2 + 1, 5000 + i, m->pushBack(d.data(), msg / 2 + 1)); m->notifyRead(); }
                q_unlock(0);
                if (round % 2) m->processRWUnlock();   // else: closed while locked
            }
            m->close();
            delete m;
            continue;
        }
        o_as(-1);
        o_faults(P->flags & FL_FAULTS, false);
        std::vector<int> us;
        i64 total = 60000 + o_stall_budget();
        for (size_t t = 0; t < P->threads.size(); t++) { for (auto& op : P->threads[t].ops) total += op.f + op.d + op.a / 1000; us.push_back(o_user_thread(P->threads[t].proc, q_main, (void*)(intptr_t)t)); }
        o_watch(total);
        for (const WOp& op : P->ctl) { if (op.op == W_SLEEP) o_sleep(op.a); else if (op.op == W_JUMP) o_jump(op.a); }
        for (int u : us) o_join(u);
        o_unwatch();
        o_faults(false, false);
        o_as(0);
        // what is left comes out in order
        if (!m->processRWLock(1000)) o_violation("fifo", "the queue's lock cannot be taken although nobody holds it");
        q_lock(0, true, now(), 1000);
        std::string buf(cap * msg + 64, '\0');
        i64 n = m->msgNumber();
        q_num(0, n);
        while (q_count(0) > 0) {
            int64_t w = 0;
            bool r = m->popFront(&buf[0], (int64_t)buf.size(), w);
            q_pop(0, (i64)buf.size(), r, w, buf.data(), r ? (size_t)w : 0);
            if (!r) break;
        }
        int64_t w = 0;
        bool r = m->popFront(&buf[0], (int64_t)buf.size(), w);
        q_pop(0, (i64)buf.size(), r, w, buf.data(), r ? (size_t)w : 0);
        // the full capacity is usable
        for (i64 i = 0; i < cap; i++) { std::string d = q_bytes(7000 + i, msg); q_push(0, msg, 7000 + i, m->pushBack(d.data(), msg)); }
        { std::string d = q_bytes(9000, 1); q_push(0, 1, 9000, m->pushBack(d.data(), 1)); }
        for (i64 i = 0; i < cap; i++) { r = m->popFront(&buf[0], (int64_t)buf.size(), w); q_pop(0, (i64)buf.size(), r, w, buf.data(), r ? (size_t)w : 0); }
        { std::string d = q_bytes(9100, cap * msg); q_push(0, cap * msg, 9100, m->pushBack(d.data(), cap * msg)); }
        r = m->popFront(&buf[0], (int64_t)buf.size(), w); q_pop(0, (i64)buf.size(), r, w, buf.data(), r ? (size_t)w : 0);
        { std::string d = q_bytes(9200, cap * msg + 1); q_push(0, cap * msg + 1, 9200, m->pushBack(d.data(), cap * msg + 1)); }
        q_unlock(0);
        m->processRWUnlock();
        m->close();
        delete m;
    }
    o_as(-1);
    o_as(0); o_leak_check(0, "after closing the queues"); o_as(-1);
    o_names_check("after closing the queues");
}

// ================================================================ mode 2: timed waits
static void* t_main(void* a) {
    int idx = (int)(intptr_t)a;
    const WThread& t = P->threads[idx];
    veigar::Semaphore s[2];
    { NoFault n; for (int i = 0; i < 2; i++) if (!s[i].open("ts" + std::to_string(i), 0)) o_violation("queue-open", "Semaphore::open fails"); }
    for (const WOp& op : t.ops) {
        switch (op.op) {
            case W_SLEEP: o_sleep(op.a); break;
            case W_SEMWAIT: {
                o_op(idx, "Semaphore::wait", op.b);
                i64 t0 = now(), st = stall_used();
                bool ok = s[op.a].wait((int64_t)op.b);
                t_wait((int)op.a, op.b, ok, t0, st);
                o_op(idx, "");
                break;
            }
            case W_SEMPOST: t_post((int)op.a); s[op.a].release(); break;
            default: break;
        }
    }
    for (int i = 0; i < 2; i++) s[i].close();
    return nullptr;
}
void run_timed() {
    o_faults(P->flags & FL_FAULTS, false);
    std::vector<int> us;
    i64 total = 60000 + o_stall_budget();
    for (size_t t = 0; t < P->threads.size(); t++) {
        for (auto& op : P->threads[t].ops) total += op.op == W_SEMWAIT ? (op.b < 0 || op.b > 1000000 ? 0 : op.b) : op.a / 1000;
        us.push_back(o_user_thread(P->threads[t].proc, t_main, (void*)(intptr_t)t));
    }
    o_watch(total);
    for (const WOp& op : P->ctl) { if (op.op == W_SLEEP) o_sleep(op.a); else if (op.op == W_JUMP) o_jump(op.a); }
    // waits without a bound are ended by posts at the end
    o_sleep(total / 2 * 1000);
    o_as(0);
    veigar::Semaphore s[2];
    { NoFault n; for (int i = 0; i < 2; i++) s[i].open("ts" + std::to_string(i), 0); }
    for (int k = 0; k < 24; k++) for (int i = 0; i < 2; i++) { t_post(i); s[i].release(); }
    for (int u : us) o_join(u);
    for (int i = 0; i < 2; i++) s[i].close();
    o_as(-1);
    o_unwatch();
    final_checks();
}

// ================================================================ mode 3: failures inside init()
void run_initfail() {
    const int rounds = (int)P->misc[0];
    o_as(0);
    make_instance(0);
    do_init(0, 0);
    {
        Pends pend;
        o_watch(20000);
        do_call(0, 0, 0, F_F, 8, 3000, pend);
        do_uninit(0);
        o_unwatch();
    }
    destroy_instance(0);
    o_leak_baseline(0);
    o_thread_check(0, "before");
    if (P->misc[1]) { make_instance(1); if (!do_init(1, 1)) o_violation("init-failed", "init() of an undisturbed channel fails"); }
    o_as(-1);
    for (int r = 0; r < rounds; r++) {
        o_as(0);
        make_instance(0);
        if (P->misc[3]) {   // a channel name the system does not accept (or just accepts)
            std::string bad;
            { NoFault n; bad = P->misc[3] == 1 ? "a/b" : P->misc[3] == 2 ? "dir/" : std::string((size_t)P->misc[3], 'n'); }
            o_watch(20000);
            bool got = V(0)->init(bad, 8, 256);
            cnt(got ? "odd_name_ok" : "odd_name_refused");
            if (got != V(0)->isInit()) o_violation("init-not-clean", "isInit() differs from the answer of init()");
            if (got) {
                V(0)->bind("odd", [](int x) { return x + 1; });
                veigar::CallResult cr = V(0)->syncCall(bad, 3000, "odd", 41);
                if (!cr.isSuccess() || cr.obj.get().as<int>() != 42) o_violation("probe-failed", ("a call on the instance fails after init() returned true: " + cr.errorMessage).c_str());
                V(0)->uninit();
                destroy_instance(0);   // uninit() has removed the functions
                make_instance(0);
            }
            o_unwatch();
            if (!P->misc[1]) o_names_check(got ? "after uninit()" : "after a failed init()");
            o_thread_check(0, got ? "after uninit()" : "after a failed init()");
        }
        o_as(-1);
        // init() in a thread of the process, with failures
        o_faults(P->flags & FL_FAULTS, true);
        o_watch(20000);
        int u = o_user_thread(0, [](void*) -> void* {
            bool ok = do_init(0, 0);
            return (void*)(intptr_t)ok;
        }, nullptr);
        int u2 = -1;
        if (P->misc[4]) u2 = o_user_thread(0, [](void*) -> void* {   // a second thread initialises the same object
            bool ok = false;
            try {
                ok = V(0)->init(chan_name(P->misc[4] == 1 ? 0 : 7), P->insts[0].cap, P->insts[0].msg);
            } catch (std::exception& e) { o_threw(-1, "init", e.what()); }
            return (void*)(intptr_t)ok;
        }, nullptr);
        o_op(190, "init");
        o_join(u);
        if (u2 >= 0) o_join(u2);
        o_op(190, "");
        o_faults(false, false);
        o_unwatch();
        bool ok = o_get(1000 + u) != nullptr;
        cnt(ok ? "init_ok" : "init_refused");
        o_as(0);
        if (u2 >= 0) {
            const bool ok2 = o_get(1000 + u2) != nullptr;
            cnt("init_twice");
            if (P->misc[4] == 1 ? !ok || !ok2 : ok == ok2) o_violation("init-rules", P->misc[4] == 1 ? "one of two simultaneous init() calls for one channel returns false" : ok ? "simultaneous init() calls of one object for different channels both return true" : "simultaneous init() calls of one object for different channels both return false");
            if (!ok && ok2) {
                o_watch(20000);
                if (V(0)->channelName() != chan_name(7)) o_violation("init-rules", "the instance has not the channel for which init() returned true");
                V(0)->uninit();
                o_unwatch();
                destroy_instance(0);   // uninit() has removed the functions
                make_instance(0);
            }
        }
        if (!ok) {
            o_sleep(200000);
            if (V(0)->isInit()) o_violation("init-not-clean", "isInit() is true after init() returned false");
            if (P->misc[2] & 1) { destroy_instance(0); }
            if (!P->misc[1] && (P->misc[2] & 1)) { o_leak_check(0, "after a failed init() and destruction"); }
            if (!P->misc[1]) o_names_check("after a failed init()");
            o_thread_check(0, "after a failed init()");
            if (P->misc[2] & 1) make_instance(0);
            o_watch(20000);
            if (!do_init(0, 0)) o_violation("init-failed", "init() fails although the cause of its earlier failure is gone");
            o_unwatch();
        } else o_sleep(200000);
        {
            Pends pend;
            size_t n0 = calls.size();
            o_watch(20000);
            do_call(0, 0, 0, F_F, 20, 3000, pend);
            if (!calls[n0]->success) o_violation("probe-failed", ("a call on the instance fails after init() returned true: " + calls[n0]->msg).c_str());
            if (P->misc[1]) {
                n0 = calls.size();
                do_call(1, 0, 0, F_F, 20, 3000, pend);
                do_call(0, 1, 0, F_F, 20, 3000, pend);
                if (!calls[n0]->success || !calls[n0 + 1]->success) o_violation("probe-failed", ("a call between instances fails after init() returned true: " + calls[n0]->msg + calls[n0 + 1]->msg).c_str());
            }
            // on an initialised instance
            if (!V(0)->init(chan_name(0), 8, 256)) o_violation("init-rules", "init() on an initialised instance with the same channel returns false");
            if (V(0)->init(chan_name(7), 8, 256)) o_violation("init-rules", "init() on an initialised instance with another channel returns true");
            {
                NoFault n;
                const std::string own = chan_name(0), odd[] = {own.substr(0, own.size() - 1), own + "x", own.substr(1), own + std::string(1, '\0'), std::string()};
                for (const std::string& s : odd)
                    if (V(0)->init(s, 8, 256)) o_violation("init-rules", "init() on an initialised instance with a name that resembles its channel's returns true");
            }
            if (!V(0)->isInit() || V(0)->channelName() != chan_name(0)) o_violation("init-rules", "a repeated init() disturbed the instance");
            n0 = calls.size();
            do_call(0, 0, 0, F_F, 20, 3000, pend);
            if (!calls[n0]->success) o_violation("probe-failed", "a call fails after a repeated init()");
            do_uninit(0);
            if (P->misc[2] & 2) {
                if (V(0)->init(std::string(), 8, 256)) o_violation("init-rules", "init() accepts an empty channel name");
            }
            o_unwatch();
        }
        destroy_instance(0);
        o_as(-1);
    }
    o_as(0);
    if (P->misc[1]) { o_watch(20000); do_uninit(1); o_unwatch(); destroy_instance(1); }
    o_sleep(200000);
    o_tls_end();
    o_leak_check(0, "after all instances were destroyed");
    o_names_check("after all instances were destroyed");
    o_thread_check(0, "after all instances were destroyed");
    o_as(-1);
    final_checks();
}
}  // namespace world
