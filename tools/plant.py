#!/usr/bin/env python3
"""Confirms planted bugs:  tools/plant.py [--no-tests] [--no-check] [--also C01,C02] ID...

For each /verif/seeded/ID: in a copy of /repo mounted over /repo in a mount namespace of its own (with a private /dev/shm)
the demonstration passes, the patch applies, builds, passes the stable tests, the demonstration fails; then the property's
check runs against the patched copy. Nothing of this touches the real /repo.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def ns(copy, cmd, log, timeout):
    sh = "mount --bind %s /repo && mount -t tmpfs none /dev/shm && cd /repo && %s" % (copy, cmd)
    with open(log, "a") as f:
        f.write("\n### " + cmd + "\n")
        f.flush()
        try:
            return subprocess.run(["unshare", "-m", "--propagation", "private", "bash", "-c", sh], stdout=f, stderr=f, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            return 124


def confirm(i, tests, check, also):
    d = os.path.join(HERE, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    work = tempfile.mkdtemp(prefix="plant_" + i + "_")
    log = "/tmp/plant_%s.log" % i
    open(log, "w").close()
    copy, demo = work + "/repo", work + "/demo"
    res = []
    try:
        subprocess.check_call(["cp", "-a", "/repo", copy])
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        if ns(copy, "bash /opt/vp/build.sh", log, 900):
            return i, "the unchanged tree does not build"
        for n in range(2):
            rc = ns(copy, "bash %s/demo.sh" % demo, log, 300)
            if rc:
                return i, "demo fails on the unchanged tree (%d)" % rc
        if subprocess.call(["git", "-C", copy, "apply", d + "/patch.diff"]):
            return i, "the patch does not apply"
        if ns(copy, "bash /opt/vp/build.sh", log, 900):
            return i, "the patched tree does not build"
        for n in range(2):
            rc = ns(copy, "bash %s/demo.sh" % demo, log, 300)
            if rc == 0:
                return i, "demo passes with the patch"
        res.append("demo ok(%d)" % rc)
        if tests:
            ns(copy, "bash /opt/vp/test.sh %s/t.json" % work, log, 900)
            t = json.load(open(work + "/t.json"))
            passed = set(t["passed"])
            bad = sorted(set(STABLE["stable"] if "stable" in STABLE else STABLE["passed"]) - passed)
            if bad:
                return i, "breaks tests: %s" % bad
            res.append("tests ok")
        if check:
            for p in [meta["property"]] + also:
                r = subprocess.run([sys.executable, HERE + "/tools/check.py", p], env=dict(os.environ, VEIGAR_REPO=copy), stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                open(log, "a").write(r.stdout)
                res.append("%s: rc %d %s" % (p, r.returncode, [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "  "))][:3]))
        return i, "; ".join(res)
    finally:
        shutil.rmtree(work)


def main():
    a = sys.argv[1:]
    tests, check, also = "--no-tests" not in a, "--no-check" not in a, []
    if "--also" in a:
        k = a.index("--also")
        also = a[k + 1].split(",")
        del a[k:k + 2]
    ids = [x for x in a if not x.startswith("--")]
    with ThreadPoolExecutor(3 if not check else 1) as ex:
        for i, r in ex.map(lambda i: confirm(i, tests, check, also), ids):
            print(i, r, flush=True)


main()
