// The simulated world: plan (generated or read from a replay file), operations, oracle interface.
#pragma once
#include "sim.h"

namespace world {
using namespace sim;

enum OpKind { W_NONE, W_CALL, W_COLLECT, W_SLEEP, W_BIND, W_UNBIND, W_NAMES, W_INIT, W_UNINIT, W_INJECT, W_LOCKHOLD,
              W_GATE, W_CRASH, W_RESTART, W_SETRW, W_GETTERS, W_ISINIT, W_RELBOGUS, W_NEWDEL, W_JUMP, W_QUIET, W_MEASURE, W_ISOLATE,
              // direct message-queue / semaphore operations
              W_QPUSH, W_QPOP, W_QNUM, W_QSPACE, W_QREOPEN, W_SEMWAIT, W_SEMPOST, W_SEMOPEN,
              W_RELEASE, W_SIGNAL, W_AGE, W_NK };
extern const char* opk_name[];
struct WOp { int op = 0; i64 a = 0, b = 0, c = 0, d = 0, e = 0, f = 0; };
struct WThread { int proc = 0; int late = 0; std::vector<WOp> ops; };   // late: begins when its process has been restarted
struct WInst { int proc = 0; int chan = 0; int autoinit = 1; int cap = 8; int msg = 256; int rw = 0; };

struct Plan {
    std::string prop = "C01";
    u64 seed = 1;
    int mode = 0;              // 0 RPC world, 1 message queue, 2 timed waits, 3 init failures
    int nproc = 1;
    int knob[3] = {1, 1, 1};   // dispatcher, send-call, send-response threads
    int flags = 0;
    i64 misc[8] = {0};
    std::vector<WInst> insts;
    std::vector<WThread> threads;
    std::vector<WOp> ctl;      // executed by the control thread meanwhile
    Cfg cfg;
};
enum Flag { FL_FAULTS = 1, FL_CALLFAULTS = 2, FL_LEAK = 4, FL_NOPROBE = 8, FL_STRICT = 32, FL_KF1 = 64, FL_WARM = 128, FL_INDEP = 256, FL_CHAIN = 512 };
// FL_INDEP: calls to other channels than misc[6] - 1 are not held up by the calls that wait for it
// FL_CHAIN: callbacks use the API themselves
// FL_STRICT: every function returns promptly and nothing but stalls disturbs: long timeouts never expire

enum Func { F_F, F_F1, F_F10, F_F1X, F_SUM, F_VEC, F_MAP, F_VOID, F_THROW, F_THROWI, F_SLOW, F_NEST, F_BIG, F_ZERO, F_VZERO, F_NOFN, F_BADARG, F_GATE, F_DYN, F_STRUCT, F_MIX, F_LONG, F_NK };
extern const char* func_name[];
std::string nofn_name(const struct CallRec* c);

void gen_plan(Plan& p, const std::string& prop, u64 seed, int kf);
std::string plan_to_text(const Plan& p);
bool plan_from_text(Plan& p, const std::string& text);

// ---- oracle
struct Life;
struct CallRec {
    int id = 0, proc = 0, inc = 0, inst = 0, chan = 0, kind = 0, func = 0, tid = 0;
    i64 size = 0, timeout = 0;
    Life* caller = nullptr;    // life of the calling instance at issue (null: not initialised)
    Life* target = nullptr;    // life of the target channel at issue (null: none)
    bool target_shaky = false; // target was being started or stopped at issue
    i64 t_issue = 0, t_done = -1, t_exec = -1;
    u64 s_issue = 0, s_done = 0, s_exec = 0, s_exec_end = 0, s_api = 0;
    int outcomes = 0, err = -1; bool success = false;
    int execs = 0; Life* exec_life = nullptr;
    bool api_done = false, nested = false, abandoned = false, released = false;
    u64 lock_to = 0, fails = 0; bool cf_at_issue = false;
    int dyn = -1; int dyn_tag = -1; int reg = -1; i64 needed = 0;
    std::string msg;
};
struct Life { int uid, chan, inst, proc, inc, cap, msg; u64 s_begin, s_up, s_down_begin, s_down_end; i64 t_up, t_down_begin, t_down; bool crashed; int running; int calls; };
extern Plan* P;
extern std::vector<CallRec*> calls;
extern std::vector<Life*> lives;
u64 seq();
i64 now();

int o_issue(int inst, int chan, int kind, int func, i64 size, i64 timeout, bool nested);
void o_api_done(int id);
enum VK { V_NONE, V_STR, V_INT, V_VEC, V_MAP, V_NIL, V_BAD };
struct Val { int k = V_NONE; i64 i = 0; std::string s; };
void o_outcome(int id, int err, const std::string& msg, bool success, int vk, i64 vi, const char* vs, size_t vn);
void o_threw(int id, const char* where, const char* what);
void o_nofuture(int id, bool null);
void o_broken(int id, const char* what);
void o_abandon(int id);
void o_released(int id);
bool o_chain(int id);
int o_cb_throws(int id);
bool o_chain_wait(int inst, int d);
std::string throw_tail(int id, i64 size);
void mix_args(int id, i64 size, int64_t& a, uint64_t& u, double& d, bool& b, std::vector<std::string>& v);
std::string mix_text(int64_t a, uint64_t u, double d, bool b, const std::vector<std::string>& v);
int o_exec(int inst, int id, int func, i64 a, i64 b, const char* p, size_t n);   // returns life uid
void o_exec_end(int uid, int id);
int o_up_begin(int inst, int chan, int cap, int msg);
void o_up(int uid, bool ok);
int o_down_begin(int inst);
void o_down_end(int uid);
Life* life_of(int inst);
Life* life_at(int chan);     // current life serving a channel (up, not yet ended)
void o_crash(int proc);
std::string payload(int id, i64 size);
std::string expect_str(const char* f, int uid, int id, const std::string& pl);
std::string chan_name(int chan);
void o_gate_wait();
void o_gate_open();
bool o_pending_settled(std::string* why);
void o_after_uninit(int uid);
void final_checks();
i64 reg_begin(int chan, int uid, int name, int kind, int tag);
void reg_end(i64 h, int result);
void reg_before_init(int inst, int name, int kind, int tag, int result);
void registry_check();
void cnt(const char* name, i64 d = 1);
std::string counters_json();
std::string inject_bytes(int kind, u64 seed, int queue, const std::string& callid, int chan);

// user-thread status for hang reports
void o_op(int slot, const char* what, i64 a = 0, i64 b = 0);
std::string o_stuck(std::string* cls);

// services for the (instrumented) actor code
void* o_get(int inst);
void o_set(int inst, void* v);
int o_user_thread(int proc, void* (*fn)(void*), void* arg);
int o_user_slot();
void o_user_start(int idx, int proc, void* (*fn)(void*), void* arg);   // spawn; returns index
void o_join(int idx);
void o_sleep(i64 us);
void o_as(int proc);        // control thread acts for that process (-1: itself)
void o_faults(bool f, bool c);
void o_nofault(int d);
void o_watch(i64 ms);
void o_unwatch();
void o_crash_now(int proc);
bool o_wait_dead(int proc, i64 ms);
void o_revive(int proc);
bool o_alive(int proc);
void o_jump(i64 ms);
void o_violation(const char* cls, const char* msg);
void o_trace(const char* msg);
i64 o_rnd(u64 salt);
int o_proc();
bool o_measure(int k, int proc);   // false = the number of blocks does not grow any more
void o_leak_baseline(int proc);
void o_rewind(bool mark);
void o_tls_end();
void o_leak_check(int proc, const char* what);
void o_names_check(const char* what);
void o_thread_check(int proc, const char* what);
std::vector<std::string> o_last_callid(int inst);
void o_note_callid(int inst, const char* id);
int o_get_callid(int inst, int k, char* buf, int n);
i64 o_stall_budget();
void o_lock_window(int chan, bool begin);

// message-queue model (mode 1)
void q_model_reset(int q, i64 cap, i64 msg);
void q_lock(int q, bool ok, i64 t0, i64 ms);
void q_unlock(int q);
void q_push(int q, i64 size, u64 tag, bool ok);
void q_pop(int q, i64 bufsize, bool ok, i64 written, const char* p, size_t n);
void q_num(int q, i64 n);
void q_space(int q, i64 size, bool ok, bool waitable);
i64 q_count(int q);
std::string q_bytes(u64 tag, i64 size);
void t_wait(int sem, i64 ms, bool ok, i64 t0, i64 stall0);
void t_post(int sem);
i64 stall_used();

void run_world();   // actors.cpp (instrumented)
void run_mq();
void run_timed();
void run_initfail();
}  // namespace world
