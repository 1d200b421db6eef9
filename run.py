#!/usr/bin/env python3
"""Runs one check: builds the harness of a property from /repo's working tree
with sanitizers, runs its monitored workloads, and reports.

  run.py check C05 [--tier quick|thorough] [--seed N] [--units a,b]
  run.py replay FILE        re-runs the case recorded in a replay file

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not give an answer (build failure, no events).
"""
import fnmatch, threading, argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks as cfg

JOBS = int(os.environ.get("VERIF_JOBS", "8"))

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

FLAVORS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-g1"],
}
INC = ["eo/src", "mo/src", "moeo/src", "edo/src", "smp/src", "problems", "problems/DTLZ/src", "eo/src/mpi"]

def lib_sources(lib):
    pats = cfg.LIBS[lib]
    out = []
    for p in pats:
        d = os.path.join(REPO, os.path.dirname(p))
        base = os.path.basename(p)
        if "*" in base:
            for f in sorted(os.listdir(d)):
                if fnmatch.fnmatch(f, base): out.append(os.path.join(d, f))
        else:
            out.append(os.path.join(REPO, p))
    return out

def compiler(check):
    cxx = check.get("cxx", "g++")
    return (["ccache"] if os.environ.get("VERIF_CCACHE") else []) + [cxx]

def build(pid, check, work):
    """Returns {flavor: binary}."""
    return build_all(pid, [check], [work])[0]

def build_all(pid, checks, works):
    """Builds several parts, each object only once. Returns a {flavor: binary} per part."""
    jobs, links = {}, []
    for i, (check, work) in enumerate(zip(checks, works)):
        for fl in check["flavors"]:
            flags = ["-std=c++17", "-w", "-pipe", "-pthread", "-DWITH_EIGEN", "-I/usr/include/eigen3", "-I" + os.path.join(VERIF, "harness")]
            flags += ["-I" + os.path.join(REPO, i) for i in INC]
            flags += FLAVORS[fl] + check.get("flags", [])
            srcs = [os.path.join(VERIF, "harness", s) for s in check["src"]] + [os.path.join(VERIF, "harness", "mon.cpp")]
            if check.get("libinit", True): srcs.append(os.path.join(VERIF, "harness", "libinit.cpp"))
            for l in check["libs"]: srcs += lib_sources(l)
            objs = []
            for s in srcs:
                cmd = compiler(check) + flags + ["-c", s]
                key = hashlib.md5(" ".join(cmd).encode()).hexdigest()[:16]
                if key not in jobs:
                    o = os.path.join(works[0], fl + "_" + key + ".o")
                    jobs[key] = (os.path.getsize(s) if not s.startswith(VERIF) else 10**7 + os.path.getsize(s), cmd + ["-o", o], o)
                objs.append(jobs[key][2])
            b = os.path.join(work, pid + "_" + fl)
            links.append((i, fl, b, compiler(check)[-1:] + flags + objs + ["-o", b] + check.get("ldflags", [])))
    def comp(c):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, c, p.stdout
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for rc, c, out in ex.map(comp, [j[1] for j in sorted(jobs.values(), key=lambda j: -j[0])]):
            if rc:
                print("\n".join(l for l in out.splitlines() if "error" in l or "required from here" in l)[:6000])
                die("compilation failed: " + " ".join(c[-3:]))
        res = [{} for _ in checks]
        for (i, fl, b, _), (rc, c, out) in zip(links, ex.map(comp, [l[3] for l in links])):
            if rc:
                print(out[-6000:])
                die("link failed")
            res[i][fl] = b
    return res

def crash_key(log, rc):
    """A stable description of why a process died, from its log."""
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", log)
    where = ""
    for fr in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)*\n", log):
        if fr.group(2).startswith(REPO + "/"):
            fn = re.sub(r"<.*?>", "", re.sub(r"\(.*", "", fr.group(1)))
            where = os.path.relpath(fr.group(2), REPO) + ":" + fn.split("::")[-1].split(" ")[-1]
            break
    if m: return "%s:%s:%s" % (m.group(1), m.group(2), where)
    m = re.search(r"==\d+== (Conditional jump|Use of uninitialised|Invalid read|Invalid write|Syscall param|Invalid free|Jump to)", log)
    if m:
        fr = re.search(r"==\d+==    (?:at|by) 0x[0-9A-F]+: ([^\n(]+)[^\n]*", log[m.start():])
        return "valgrind:%s:%s" % (m.group(1), re.sub(r"<.*", "", fr.group(1)) if fr else "")
    if "hard rss limit exhausted" in log: return "memory-exhausted"
    m = re.search(r"(\S+?):(\d+):(\d+): runtime error: (.+)", log)
    if m:
        f = m.group(1)
        f = os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)
        return "ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(4))[:80], f)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(pid", log)
    if m:
        fn = [re.sub(r"<.*", "", x) for x in re.findall(r"#\d+ (\S+).*?" + re.escape(REPO), log)]
        return "tsan:%s:%s" % (m.group(1), fn[0] if fn else "")
    m = re.search(r"(\S+):(\d+): (.*): Assertion [`'](.+?)' failed", log)
    if m:
        f = m.group(1)
        f = os.path.relpath(f, REPO) if f.startswith(REPO) else os.path.basename(f)
        return "assert:%s:%s" % (f, m.group(4)[:80])
    m = re.search(r"terminate called after throwing an instance of '(.+?)'", log)
    if m: return "terminate:" + m.group(1)
    if rc < 0: return "signal:" + signal.Signals(-rc).name
    return "exit:%d" % rc

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_init_order=1:check_initialization_order=1:detect_odr_violation=0:quarantine_size_mb=64",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=5:second_deadlock_stack=1",
}

class Runner:
    violated = False  # a violation that is not a listed finding was observed
    t0 = 0
    def __init__(self, pid, check, bins, work, seed, tier):
        self.pid, self.check, self.bins, self.work, self.seed, self.tier = pid, check, bins, work, seed, tier
        self.n = 0
        self.trace = {}
        self.known = {(k["unit"], k["key"]) for k in load_known() if k.get("status") == "known" and k["property"] == pid}
    def proc(self, fl, unit, a, b, scale=1, seed=None, other=False):
        self.n += 1
        base = os.path.join(self.work, "r%d_%s" % (self.n, unit))
        out = base + ".json"
        sc = base + ".d"
        os.makedirs(sc, exist_ok=True)
        cmd = self.check.get("launch", []) + [self.bins[fl], "--unit", unit, "--from", str(a), "--to", str(b), "--seed", str(self.seed if seed is None else seed),
               "--tier", self.tier, "--out", out, "--scratch", sc, "--timeout-scale", str(scale)]
        if self.check.get("reproduce"): cmd += ["--trace", base + ".trace"] + ([] if other else ["--twice", "1"])
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(self.check.get("env", {}))
        # a second process whose fresh memory and environment look different
        if other: env["ASAN_OPTIONS"] += ":malloc_fill_byte=%d:max_malloc_fill_size=100000" % (17 + a % 200); env["VERIF_PADDING"] = "x" * (1 + a * 97 % 5000)
        for k in ("VERIF_LEAKS",):
            if self.check.get("leaks"): env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        with open(base + ".log", "wb") as lf:
            try:
                p = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=sc, timeout=self.check.get("proc_timeout", 3600))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 97
        shutil.rmtree(sc, ignore_errors=True)
        log = ""
        if rc != 0:
            with open(base + ".log", "rb") as f:
                f.seek(0, 2)
                n = f.tell()
                f.seek(max(0, n - 60000))
                log = f.read().decode("utf-8", "replace")
        cur = a
        try:
            with open(out + ".cur", "rb") as f: cur = struct.unpack("<Q", f.read(8))[0]
        except OSError: pass
        viols = []
        try:
            with open(out + ".viol", encoding="utf-8", errors="replace") as f:
                for l in f:
                    v = json.loads(l); v["unit"] = unit; v["flavor"] = fl; viols.append(v)
        except OSError: pass
        rep, states = None, set()
        if rc == 0:
            try:
                rep = json.load(open(out, encoding="utf-8", errors="replace"))
                data = open(out + ".states", "rb").read()
                states = set(struct.unpack("<%dQ" % (len(data) // 8), data))
            except (OSError, ValueError):
                rc = 98
        try: self.trace[threading.get_ident()] = open(base + ".trace", "rb").read()
        except OSError: pass
        for s in (".trace", ".json", ".json.cur", ".json.viol", ".json.states", ".log"):
            try: os.unlink(base + s)
            except OSError: pass
        return rc, cur, rep, states, viols, log
    def shard(self, job):
        """Runs cases [a,b) of a unit; survives crashes of individual cases."""
        r = self._shard(job)
        ok = self.check.get("only_keys", "")
        if any((v["unit"], v["key"]) not in self.known and re.match(ok, v["key"]) for v in r.get("viols", ())): Runner.violated = True
        return r
    def _shard(self, job):
        fl, unit, a, b = job
        events, samples, states, viols = {}, [], set(), []
        crashes = 0
        pending = [(a, b)]
        while pending:
            x, y = pending.pop()
            if x >= y: continue
            # a violation is established and time was spent: more of them add nothing
            if Runner.violated and time.time() - Runner.t0 > 120: break
            rc, cur, rep, st, vs, log = self.proc(fl, unit, x, y)
            viols += vs
            if rc == 0:
                for k, v in rep["events"].items(): events[k] = events.get(k, 0) + v
                samples += rep["samples"]
                states |= st
                if self.check.get("reproduce"):
                    one = self.trace.get(threading.get_ident())
                    rc, cur, rep, st, vs, log = self.proc(fl, unit, x, y, other=True)
                    two = self.trace.get(threading.get_ident())
                    if rc == 0:
                        events["other-process"] = events.get("other-process", 0) + len(two) // 8
                        for i in range(0, len(one), 8):
                            if one[i:i + 8] != two[i:i + 8]:
                                viols.append({"key": "not-reproducible-elsewhere", "msg": "two processes running the same case from the same seed made different observations", "case": x + i // 8, "unit": unit, "flavor": fl})
                                break
                continue
            if rc == 98:
                return {"error": "harness error in unit %s: %s" % (unit, log[-2000:])}
            if rc == 97:
                if Runner.violated or any((v["unit"], v["key"]) not in self.known for v in viols): break
                # re-run once, alone and with a longer limit
                rc2, _, rep2, st2, vs2, log2 = self.proc(fl, unit, cur, cur + 1, scale=3)
                if rc2 == 97:
                    viols.append({"key": "hang", "msg": "no return within the time limit", "case": cur, "unit": unit, "flavor": fl})
                elif rc2 != 0:
                    viols.append({"key": crash_key(log2, rc2), "msg": log2[-3000:], "case": cur, "unit": unit, "flavor": fl})
                else:
                    viols += vs2
            else:
                viols.append({"key": crash_key(log, rc), "msg": log[:3500] if "ERROR: Addr" in log[:3500] else log[-3500:], "case": cur, "unit": unit, "flavor": fl})
            crashes += 1
            if crashes <= 3:
                pending.append((cur + 1, y))
                pending.append((x, cur))
                if crashes > 1: pending.pop()  # the prefix was executed once already
        return {"events": events, "samples": samples, "states": states, "viols": viols, "unit": unit, "flavor": fl}

def load_known():
    known = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and l.startswith("{"): known.append(json.loads(l))
    return known

def run_check(pid, tier, seed, only=None):
    t0 = time.time()
    if pid not in cfg.CHECKS: die("no such check " + pid)
    check = dict(cfg.DEFAULTS); check.update(cfg.CHECKS[pid])
    if "parts" in check:
        parts = [dict(check, **p) for p in check["parts"]]
    else:
        parts = [check]
    work = tempfile.mkdtemp(prefix="verif_%s_" % pid, dir=os.environ.get("VERIF_TMP"))
    try:
        return _run(pid, parts, check, work, tier, seed, only, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def _run(pid, parts, check, work, tier, seed, only, t0):
    events, samples, states, viols, units_seen = {}, [], set(), [], {}
    errors = []
    total_cases = 0
    build_s = 0
    works = [work]
    if len(parts) > 1:
        works = [os.path.join(work, "p%d" % i) for i in range(len(parts))]
        for w in works: os.makedirs(w)
    builds = build_all(pid, parts, works)
    build_s = time.time() - t0
    jobs = []
    needs = {}
    for i, (part, bins) in enumerate(zip(parts, builds)):
        run = Runner(pid, part, bins, os.path.join(work, "p%d" % i) if len(parts) > 1 else work, seed, tier)
        for fl, b in bins.items():
            lst = subprocess.run([b, "--list"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, **SAN_ENV))
            if lst.returncode: die("cannot list units of %s" % b)
            for line in lst.stdout.splitlines():
                name, q, t, to, nd = line.split("\t")
                if only and name not in only: continue
                if part.get("units") and not re.match(part["units"] + r"\Z", name): continue
                n = int(q) if tier == "quick" else int(t)
                n = int(n * part.get("scale", {}).get(fl, 1)) if n else 0
                if int(q if tier == "quick" else t) and n == 0: n = 1
                if n == 0: continue
                total_cases += n
                units_seen["%s/%s" % (name, fl)] = {"cases": n, "events": {}}
                needs[(name, fl)] = [x for x in nd.split(",") if x] if not part.get("ignore_needs") else []
                k = part.get("shards", 8)
                if part.get("serial"): k = 1
                k = max(1, min(k, n))
                step = (n + k - 1) // k
                for a in range(0, n, step):
                    jobs.append((run, (fl, name, a, min(n, a + step))))
    if not jobs: die("nothing to run")
    par = check.get("parallel", JOBS)
    Runner.t0 = time.time()
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(lambda j: j[0].shard(j[1]), jobs):
            if "error" in r:
                errors.append(r["error"]); continue
            for k, v in r["events"].items():
                events[k] = events.get(k, 0) + v
                ue = units_seen["%s/%s" % (r["unit"], r["flavor"])]["events"]
                ue[k] = ue.get(k, 0) + v
            samples += r["samples"]; states |= r["states"]; viols += r["viols"]
    if check.get("only_keys"): viols = [v for v in viols if re.match(check["only_keys"], v["key"])]
    if check.get("only_sanitizer"):
        viols = [v for v in viols if re.match(r"(AddressSanitizer|LeakSanitizer|valgrind|ubsan|tsan|signal|assert|hang|memory-exhausted|terminate|exit)", v["key"])]
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == pid]
    seen = {}
    hit = set()
    for v in viols:
        full = v["unit"] + "/" + v["key"]
        m = [k for k in known if k["unit"] == v["unit"] and k["key"] == v["key"]]
        if m:
            hit.add(m[0]["unit"] + "/" + m[0]["key"])
            continue
        if full not in seen or seen[full]["case"] > v["case"]: seen[full] = v
    for k in known:
        if k["unit"] + "/" + k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    shown = 0
    for i, (full, v) in enumerate(sorted(seen.items())):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s_%s.json" % (pid, re.sub(r"[^\w.-]+", "_", full)[:90]))
        with open(path, "w") as f:
            json.dump({"property": pid, "unit": v["unit"], "case": v["case"], "seed": seed, "tier": tier, "flavor": v["flavor"], "key": v["key"], "message": v["msg"],
                       "command": "python3 %s/run.py replay %s" % (VERIF, path)}, f, indent=1)
        if shown < 12:
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            plain = re.sub(r"[^\n\t -~]", "?", "unit=%s case=%s key=%s\n%s" % (v["unit"], v["case"], v["key"], v["msg"].strip()[:1800]))
            print("  " + plain.replace("\n", "\n  "), flush=True)
        shown += 1
    missing = []
    for (name, fl), nd in needs.items():
        for e in nd:
            if not units_seen["%s/%s" % (name, fl)]["events"].get(e): missing.append("%s/%s:%s" % (name, fl, e))
    obs = sum(v for k, v in events.items() if k != "cases")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total_cases, "distinct_nontrivial": len(states), "monitor_observations": obs,
                       "rule": check.get("rule", cfg.RULE), "samples": samples[:8], "events": events, "units": units_seen},
          "assumptions": check.get("assumptions", cfg.ASSUMPTIONS), "wall_s": round(time.time() - t0, 2), "violations": len(seen)}
    ev["coverage"]["build_s"] = round(build_s, 2)
    ev["coverage"]["known_findings_reproduced"] = sorted(hit)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s tier=%s seed=%d cases=%d observations=%d distinct=%d violations=%d build=%.1fs wall=%.1fs" % (pid, tier, seed, total_cases, obs, len(states), len(seen), build_s, time.time() - t0))
    if seen: return 1
    if errors: die(errors[0])
    if missing: die("monitors observed nothing: " + ", ".join(missing))
    return 0

def replay(path):
    d = json.load(open(path))
    pid = d["property"]
    check = dict(cfg.DEFAULTS); check.update(cfg.CHECKS[pid])
    parts = [dict(check, **p) for p in check.get("parts", [{}])]
    work = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        for i, part in enumerate(parts):
            part = dict(part, flavors=[d["flavor"]])
            w = os.path.join(work, str(i)); os.makedirs(w)
            bins = build(pid, part, w)
            lst = subprocess.run([bins[d["flavor"]], "--list"], stdout=subprocess.PIPE, text=True).stdout
            if not any(l.split("\t")[0] == d["unit"] for l in lst.splitlines()): continue
            r = Runner(pid, part, bins, w, d["seed"], d["tier"])
            rc, cur, rep, st, vs, log = r.proc(d["flavor"], d["unit"], d["case"], d["case"] + 1)
            for v in vs: print("violation:", v["key"], v["msg"])
            if rc: print("process ended with", rc, "key", crash_key(log, rc)); print(log[-6000:])
            if not vs and not rc: print("no violation")
            return 1 if vs or rc else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 2

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--units", default="")
    a = ap.parse_args()
    if a.cmd == "check": sys.exit(run_check(a.what, a.tier, a.seed, set(filter(None, a.units.split(",")))))
    if a.cmd == "replay": sys.exit(replay(a.what))
    die("unknown command")

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
