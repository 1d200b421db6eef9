#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks as c
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3,8)\" && g++ --version >/dev/null",
     "hooks": {"guard": "none", "enable": "no hooks are needed: the monitors observe the library through its public interface, user-supplied functors and sanitizer instrumentation of the unmodified sources", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check compiles its harness together with the library sources of /repo's working tree (g++, AddressSanitizer + UndefinedBehaviorSanitizer, libstdc++ assertions; ThreadSanitizer where threads run) and needs no state from another run."}
for p in props:
    k = c.CHECKS.get(p["id"])
    if not k:
        m["not_applicable"].append({"property": p["id"], "reason": c.NOT_CLAIMED.get(p["id"], "not claimed: its check is not built yet")})
        continue
    tech = k.get("technique", "runtime monitoring: oracle-checked generated workloads on the sanitized (ASan+UBSan) library")
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
                        "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"], "technique": tech, "level": "exploration",
                        "level_note": k.get("note", "Held on every generated case of the run; cases are sampled from (seed, unit, number) so absence elsewhere is not proved. Trusts the harness oracle, the compiler and the sanitizer runtimes.")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
