#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {"C18": "A serialised value is a pure function of its argument (vendored msgpack headers): no schedule, clock, I/O, crash or second party takes part, so there is nothing for a simulator to "
             "decide. The simulated calls carry strings, integers, vectors, maps and structs end to end and C01 compares every one of them, but that samples a handful of types and is no verdict on this property."}
TECH = "deterministic simulation with fault injection: seeded search over schedules, delays and faults of the real library code"
NOTE = {
 "C01": "results and arguments of every simulated call compared with a reference model",
 "C02": "every call has one outcome; bounded simulated time for syncCall, for uninit() and after disturbances end",
 "C03": "executions are counted per call",
 "C04": "MessageQueue driven directly by several threads and processes against an exact FIFO model; every access to the shared mapping checked for data races",
 "C05": "after stalls, lock timeouts and interrupted waits end, every accepted message is served without further traffic",
 "C06": "full queues, sizes around every limit, blocked servers; other channels keep working",
 "C07": "uninit() at arbitrary points, from threads, next to running functions and pending calls",
 "C08": "clean restarts, also by another instance with other queue sizes; stale messages",
 "C09": "processes killed at any scheduling point or memory access, restart or not; survivors and the restarted channel must serve. Known finding KF1 is excluded from these runs and looked for separately",
 "C10": "malformed, truncated, foreign and stale messages put into the queues",
 "C11": "failing allocations and system calls at arbitrary points",
 "C12": "histories of bind/unbind/bindNames/calls checked for linearizability",
 "C13": "measured waits of Semaphore, Event, the queue lock and calls under clock steps and interrupted waits",
 "C14": "heap blocks, descriptors, mappings, semaphores, names and threads counted after work, after uninit, after destruction",
 "C15": "happens-before race detection on every instrumented access, heap and mapping bounds, lock misuse, deadlock",
 "C16": "every resource failure during init(), then retries",
 "C17": "calls to channels that start, stop, and have other queue sizes",
}
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every seam is below the library (POSIX calls, pthread functions, the allocator and the memory accesses instrumented by -fsanitize=thread), supplied by the simulator at link time."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                        "technique": TECH, "level": "exploration",
                        "level_note": NOTE[i] + ". Seeded random search: a quiet run is evidence for the schedules, faults and workloads it sampled, not a proof; trusts the simulated POSIX objects and sequentially consistent memory."})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
