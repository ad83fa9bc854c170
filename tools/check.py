#!/usr/bin/env python3
"""Decides one property of /repo by deterministic simulation with fault injection.

  tools/check.py C05 [--thorough] [--seconds N] [--seed N] [--keep DIR]
  tools/check.py --replay FILE [--trace TRACEFILE]
  tools/check.py --build DIR          only build the simulator from /repo's working tree

Builds the library from /repo's current working tree into a scratch folder, links it with the simulator in /verif/sim
and lets one worker per core search seeds. Exit status: 0 the property held in every run, 1 it did not (with a line
VIOLATION property=<id> replay=<path>), 2 the check could not decide.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VEIGAR_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
KNOWN = os.path.join(HERE, "known-findings.txt")
WRAP = ("malloc free realloc calloc memcpy memmove memset memcmp mmap mmap64 munmap close ftruncate ftruncate64 posix_fallocate "
        "fstat fstat64 shm_open shm_unlink printf puts putchar fprintf kill _ZSt11_Hash_bytesPKvmm").split()
KNOBS = ["-DVEIGAR_DISPATCHER_THREAD_NUMBER=veigar_sim_knob(0)", "-DVEIGAR_SEND_CALL_THREAD_NUMBER=veigar_sim_knob(1)",
         "-DVEIGAR_SEND_RESPONSE_THREAD_NUMBER=veigar_sim_knob(2)"]
QUICK, THOROUGH = 30.0, 600.0
CORES = max(1, min(8, len(os.sched_getaffinity(0))))


class CannotDecide(Exception):
    pass


def run_parallel(cmds):
    procs, out = [], []
    pending = list(cmds)
    while pending or procs:
        while pending and len(procs) < CORES:
            c = pending.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")))
        c, p = procs.pop(0)
        o = p.communicate()[0]
        if p.returncode:
            out.append((c, o))
    return out


def build(out):
    inc = ["-I" + REPO + "/include", "-iquote", REPO + "/src", "-I" + SIM]
    base = ["g++", "-std=c++17", "-fsanitize=thread", "-O1", "-g", "-fno-builtin", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG",
            "-DVEIGAR_STATIC", "-DUNICODE", "-D_UNICODE", "-w"] + inc + ["-include", SIM + "/knob.h"]
    core = ["g++", "-std=c++17", "-O2", "-g", "-fno-threadsafe-statics", "-Wall", "-I" + SIM]
    srcs = sorted(f for f in glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/src/**/*.cc", recursive=True))
    if not srcs:
        raise CannotDecide("no sources in " + REPO + "/src")
    lib = [(f, os.path.join(out, "lib_" + re.sub(r"\W", "_", os.path.relpath(f, REPO)) + ".o")) for f in srcs]
    fixed = [core + ["-c", SIM + "/%s.cpp" % f, "-o", out + "/%s.o" % f] for f in ("core", "mem", "sys", "oracle", "plan", "run", "knob")]
    fixed += [["g++", "-O1", "-DMARK_LO=%d" % v, "-c", SIM + "/mark.cpp", "-o", out + "/mark_%s.o" % n] for v, n in ((1, "lo"), (0, "hi"))]
    for knobs in (KNOBS, []):   # without the thread number knobs if they do not compile any more
        inst = [base + knobs + ["-c", f, "-o", o] for f, o in lib + [(SIM + "/actors.cpp", out + "/actors.o"), (SIM + "/stdshim.cpp", out + "/stdshim.o")]]
        bad = run_parallel(inst + fixed)
        fixed = []
        if not bad:
            break
    if bad:
        raise CannotDecide("compilation failed: %s\n%s" % (" ".join(bad[0][0]), bad[0][1][-4000:]))
    objs = [out + "/mark_lo.o"] + [o for _, o in lib] + [out + "/actors.o", out + "/stdshim.o", out + "/mark_hi.o"] + [out + "/%s.o" % f for f in ("core", "mem", "sys", "oracle", "plan", "run", "knob")]
    link = ["g++", "-no-pie", "-rdynamic", "-g"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", out + "/simrun"] + objs + ["-ldl", "-lpthread", "-lrt"]
    bad = run_parallel([link])
    if bad:
        raise CannotDecide("linking failed:\n" + bad[0][1][-4000:])
    return out + "/simrun"


def clean_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VSIM_", "LD_", "MALLOC_", "GLIBC_", "TSAN_"))}
    return e


def search(simrun, prop, first_seed, seconds, work, kf=0, minimise=20, max_runs=None, tag="w"):
    """One worker per core; stops at the first violation. Returns the list of results."""
    cpus = sorted(os.sched_getaffinity(0))[:CORES]
    procs = []
    rdir = os.path.join(work, "replays_" + tag)
    os.makedirs(rdir, exist_ok=True)
    for i, cpu in enumerate(cpus):
        out = os.path.join(work, "%s%d.json" % (tag, i))
        env = clean_env()
        env["VSIM_CPU"] = str(cpu)
        cmd = [simrun, "worker", prop, str(first_seed + i), str(len(cpus)), str(seconds), out, rdir, str(minimise), str(max_runs or 10**12), "1", str(kf)]
        procs.append((out, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "%s%d.err" % (tag, i)), "w"), start_new_session=True)))
    results, live = [], list(procs)
    hard = time.time() + seconds + minimise + 140
    stop_at = None
    while live:
        for item in list(live):
            out, p = item
            if p.poll() is None:
                continue
            live.remove(item)
            try:
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if any(v["replays"] for v in r["violations"]) and stop_at is None:
                    stop_at = time.time() + 0.5
            except (OSError, ValueError):
                err = open(out[:-5] + ".err").read()[-500:]
                results.append({"broken": "worker ended with status %s without a result %s" % (p.returncode, err)})
        if live and ((stop_at and time.time() > stop_at) or time.time() > hard):
            for _, p in live:
                try:
                    os.killpg(p.pid, signal.SIGTERM if stop_at else signal.SIGKILL)
                except OSError:
                    pass
            t = time.time() + 3
            for out, p in live:
                try:
                    p.wait(max(0.1, t - time.time()))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
            break
        time.sleep(0.05)
    return results


def replay(simrun, file, trace=None):
    cmd = [simrun, "replay", file] + ([trace] if trace else [])
    try:
        p = subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=130)
    except subprocess.TimeoutExpired:
        return 2, "replay did not end"
    return p.returncode, p.stdout


def known(prop):
    """(id, text) of the known findings of this property; 'fixed:' entries suppress nothing."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) class=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


def total(results, key):
    t = {}
    for r in results:
        for k, v in r.get(key, {}).items():
            t[k] = t.get(k, 0) + v
    return t


def evidence(prop, tier, seed, results, wall, search_s, violations, extra):
    s = lambda k: sum(r.get(k, 0) for r in results)
    hashes = set()
    for r in results:
        hashes.update(r.get("hashes", []))
    runs = s("runs")
    faults = total(results, "faults")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated run: the scenario (processes, instances, queue sizes, thread numbers, operations, faults) and every scheduling, delay and fault "
                "decision derive from one seed. Non-trivial: at least one decision of the scheduler (preemption, stall, wake order) or one injected fault fired. Distinct: the hash of "
                "the sequence (thread, kind of scheduling point) of the whole run differs from that of every other run.",
        "samples": [x for r in results for x in r.get("samples", [])][:4],
        "runs_per_hour": int(runs / max(search_s, 0.001) * 3600),
        "seeds": {"first": seed, "rule": "seed, seed+1, ... interleaved over %d workers" % CORES, "seeds_per_hour": int(runs / max(search_s, 0.001) * 3600)},
        "simulated_seconds": round(s("virtual_s"), 1),
        "scheduling_points": s("points"),
        "instrumented_memory_accesses": s("mem_accesses"),
        "context_switches": s("switches"),
        "decisions_fired": total(results, "decisions"),
        "faults_injected": faults,
        "operations_simulated": total(results, "ops"),
        "workload_and_outcomes": total(results, "counters"),
        "runs_ended_by_another_property": s("skips"),
        "observations_about_other_properties": total(results, "other"),
        "determinism": {"seeds_run_twice": s("determinism_checks"), "differing": s("nondeterministic")},
        "runs_on_the_default_schedule": s("trivial"),
        "real_code": "every source file of /repo/src and the headers of /repo/include (instrumented by -fsanitize=thread, otherwise unchanged), libstdc++'s containers, futures, mutexes, "
                     "condition variables and threads",
        "stubs": "POSIX named semaphores, shared memory objects and their mappings, pthread mutexes/condition variables/threads, clocks and sleeps, heap allocation, process creation and death",
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": [
              "sequentially consistent memory: reorderings by compiler and processor are not simulated (data races are reported instead)",
              "the simulated semaphores, shared memory, mutexes and condition variables behave as POSIX says",
              "the search samples schedules, faults and workloads; a quiet run is evidence and no proof"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))


def check(prop, tier, seed, seconds):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="veigar-sim-")
    try:
        simrun = build(work)
        t1 = time.time()
        first = (seed % 1000003) * 1000000 + 1
        results = search(simrun, prop, first, seconds, work)
        search_s = time.time() - t1
        broken = [r["broken"] for r in results if "broken" in r]
        results = [r for r in results if "broken" not in r]
        found = sorted((v for r in results for v in r["violations"]), key=lambda v: (not v["replays"], len(open(v["replay"]).read()) if os.path.exists(v["replay"]) else 0))
        extra = {"build_s": round(t1 - t0, 2)}
        unreproducible = []
        for v in found:
            if v["cls"].startswith("harness") or v["cls"] == "unsupported":
                broken.append("%s: %s" % (v["cls"], v["msg"]))
                continue
            rc, out = replay(simrun, v["replay"])     # in a fresh process
            if rc != 1:
                unreproducible.append(v)
                continue
            rdir = os.path.join(HERE, "replays")
            os.makedirs(rdir, exist_ok=True)
            dest = os.path.join(rdir, os.path.basename(v["replay"]))
            shutil.copyfile(v["replay"], dest)
            extra["violation"] = {k: v[k] for k in ("seed", "cls", "msg", "note")}
            extra["violation"]["replay"] = dest
            evidence(prop, tier, seed, results, time.time() - t0, search_s, 1, extra)
            print("%s: %s" % (v["cls"], v["msg"]))
            print("seed %s; %s" % (v["seed"], v["note"]))
            print("VIOLATION property=%s replay=%s" % (prop, dest))
            return 1
        # known findings: do they still occur?
        for kid, cls, text in known(prop):
            res = search(simrun, prop, first, 20 if tier == "quick" else 60, work, kf=1, minimise=0, tag="k")
            hit = [v for r in res for v in r.get("violations", [])]
            extra["known_finding_runs"] = sum(r.get("runs", 0) for r in res)
            for v in hit:
                if v["cls"] == cls:
                    continue
                rc, _ = replay(simrun, v["replay"])
                if rc == 1:
                    dest = os.path.join(HERE, "replays", os.path.basename(v["replay"]))
                    os.makedirs(os.path.dirname(dest), exist_ok=True)
                    shutil.copyfile(v["replay"], dest)
                    evidence(prop, tier, seed, results, time.time() - t0, search_s, 1, extra)
                    print("%s: %s" % (v["cls"], v["msg"]))
                    print("VIOLATION property=%s replay=%s" % (prop, dest))
                    return 1
            if any(v["cls"] == cls for v in hit):
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
        evidence(prop, tier, seed, results, time.time() - t0, search_s, 0, extra)
        runs = sum(r["runs"] for r in results)
        failed = sum(r["failed"] for r in results)
        if broken:
            print("ERROR: " + broken[0])
            return 2
        if unreproducible:
            v = unreproducible[0]
            print("ERROR: seed %s showed '%s' (%s), which its replay does not show again" % (v["seed"], v["cls"], v["msg"]))
            return 2
        if runs < 20 or failed * 20 > runs:
            print("ERROR: only %d runs, of which %d ended without a result" % (runs, failed))
            return 2
        print("%s: %d simulated runs in %.1f s, %.0f simulated s, no violation" % (prop, runs, search_s, sum(r["virtual_s"] for r in results)))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = lambda n, d=None: a[a.index(n) + 1] if n in a else d
    try:
        if "--build" in a:
            d = opt("--build")
            os.makedirs(d, exist_ok=True)
            print(build(d))
            return 0
        if "--replay" in a:
            work = tempfile.mkdtemp(prefix="veigar-sim-")
            try:
                rc, out = replay(build(work), opt("--replay"), opt("--trace"))
                print(out)
                if rc == 1:
                    m = re.search(r"^prop (\S+)", open(opt("--replay")).read(), re.M)
                    print("VIOLATION property=%s replay=%s" % (m.group(1) if m else "?", opt("--replay")))
                return rc
            finally:
                shutil.rmtree(work, ignore_errors=True)
        tier = "thorough" if "--thorough" in a else "quick"
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")) or 1)
        seconds = float(opt("--seconds", THOROUGH if tier == "thorough" else QUICK))
        return check(a[0], tier, seed, seconds)
    except CannotDecide as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
