#!/usr/bin/env python3
"""Confirm planted bugs: seed.py [--fast] ID...   (works on /repo's tree and restores it)

For each: demo passes on the clean tree; with the patch the tree builds, the stable tests pass, the demo fails; then reports
whether the check of the property it names catches it.  --fast skips build and tests."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(i):
    t = tempfile.mkdtemp(prefix="demo")
    try:
        d = os.path.join(t, "d"); shutil.copytree(os.path.join(V, "seeded", i), d)
        for f in os.listdir(d):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(d, f))
        return sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
    finally: shutil.rmtree(t)
def tests():
    r = sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
    b = json.load(open("/opt/vp/BASELINE.json")); b = set(b.get("passed") or b.get("stable") or b["tests"])
    p = set(json.load(open("/tmp/seed-tests.json"))["passed"])
    return sorted(b - p), r.stdout[-1500:]
fast = "--fast" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
res = {}
if not fast: sh("bash /opt/vp/build.sh")
for i in ids:
    m = json.load(open(V + "/seeded/%s/meta.json" % i)); out = []
    if not fast:
        d = demo(i)
        if d.returncode: out.append("DEMO-FAILS-CLEAN " + d.stdout[-800:])
    a = sh("git -C /repo apply --whitespace=nowarn %s/seeded/%s/patch.diff" % (V, i))
    if a.returncode: res[i] = "NOAPPLY " + a.stdout; print(i, res[i]); continue
    try:
        if not fast:
            miss, log = tests()
            if miss: out.append("TESTS-FAIL %s %s" % (miss[:5], log if len(miss) > 100 else ""))
            d = demo(i)
            if d.returncode == 0: out.append("DEMO-PASSES-WITH-BUG")
            else: out.append("demo:%d %s" % (d.returncode, d.stdout.strip().splitlines()[-1:]))
        c = sh("VERIF_SEED=1 VERIF_TIER=quick python3 %s/run.py check %s --tier quick" % (V, m["property"]))
        v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        out.append("%s rc=%d %s" % ("CAUGHT" if c.returncode == 1 and v else "MISSED", c.returncode, "" if c.returncode in (0, 1) else c.stdout[-800:]))
    finally:
        sh("git -C /repo checkout -- .")
    res[i] = " | ".join(out); print(i, m["property"], res[i], flush=True)
if not fast: sh("bash /opt/vp/build.sh")
