#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ids = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"X": "a pure function of its input: no schedule, clock, fault, I/O or shared state for a simulator to control"}
checks, na = [], []
for p in ids:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": c.get("technique", "deterministic simulation with fault injection (seeded schedule and fault search, replayable, minimised)"),
            "level": "exploration", "level_note": c.get("note") or ("Seeded search over simulated runs, not exhaustive. Real: %s. Simulated: %s. Assumes: %s." % ("; ".join(c["real"]), "; ".join(c["stub"]), "; ".join(c["assume"])))})
    else: na.append({"property": i, "reason": NA.get(i[0], "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are symbol interposition (libc, libpthread and the calls perl makes), our own __tsan runtime, rewriting of the compiled assembly (memory accesses for the store-buffer machine, rdtsc for the clock), and counting allocators. Every check rebuilds from /repo's working tree into /verif/build (git-ignored, content-hash keyed)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
