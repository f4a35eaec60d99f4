#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough] [--time S]: decide one property by seeded simulation of /repo's working tree.
exit 0: held on everything explored; exit 1: VIOLATION line; anything else: error of the check."""
import array, json, os, shutil, subprocess, sys, tempfile, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from props import PROPS, QUICK_S, THOROUGH_S
V = B.V

def known_findings(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known": out.append(d)
    return out

def err(msg, code=2):
    print("ERROR: " + msg); sys.stdout.flush(); sys.exit(code)

def load64(paths):
    s = set()
    for p in paths:
        if os.path.exists(p):
            a = array.array("Q"); d = open(p, "rb").read(); a.frombytes(d[:len(d) // 8 * 8]); s.update(a)
    return s

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--time", type=float)
    ap.add_argument("--build-only", action="store_true"); ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--seed", type=int); ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay", metavar="FILE")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop; cfg = PROPS[prop]
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if a.tier == "thorough" else "quick"
    cmd0, env = cfg["prepare"](prop)           # builds; returns the command prefix that understands explore/replay
    tb = time.time() - t0
    if a.build_only: print(" ".join(cmd0)); return
    if a.replay:                                # one recorded run again: its class, message and execution hash, then its trace
        e = dict(os.environ); e.update(env)
        with tempfile.NamedTemporaryFile(suffix=".trace") as t:
            r = subprocess.run(cmd0 + ["replay", os.path.abspath(a.replay), "--trace", t.name], stdout=subprocess.PIPE, env=e)
            print(open(t.name, errors="replace").read()); d = json.loads(r.stdout.decode().splitlines()[-1])
        print("%s: %s (hash %s)" % (d["class"] or "no violation", d["msg"], d["hash"])); sys.exit(1 if d["status"] == 2 else 0)
    secs = a.time if a.time else (cfg.get("thorough_s", THOROUGH_S) if tier == "thorough" else cfg.get("quick_s", QUICK_S))
    known = known_findings(prop)
    tmp = tempfile.mkdtemp(prefix="dsim-%s-" % prop)
    e = dict(os.environ); e.update(env)
    for k in ("NUMBER_OF_PROCESSORS", "LINTEL_LOG_DEBUG", "PERL5LIB", "PERL5OPT"): e.pop(k, None)
    procs = []
    W = a.workers
    try:
        for w in range(W):
            c = cmd0 + ["explore", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(W), "--time", str(secs), "--tier", tier,
                        "--cpu", str(w), "--out", os.path.join(tmp, "w%d" % w), "--bin", prop, "--shrink", "12" if tier == "quick" else "60"]
            if known: c += ["--known", "|".join(k["class"] for k in known)]
            procs.append(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e))
        res, viol = [], []
        for w, p in enumerate(procs):
            try: o, se = p.communicate(timeout=secs + (200 if tier == "quick" else 900))
            except subprocess.TimeoutExpired:
                p.kill(); err("worker %d did not finish" % w)
            try: d = json.loads(o.decode().strip().splitlines()[-1])
            except Exception: err("worker %d gave no result (rc %s): %s %s" % (w, p.returncode, o.decode()[-500:], se.decode(errors="replace")[-1500:]))
            if "error" in d: err("simulator error in run %s: %s" % (d.get("run"), d["error"]))
            res.append(d)
            if "violation" in d: viol.append(d["violation"])
        if not viol and all(r["runs"] == 0 for r in res): err("no run was made")
        S = lambda k: sum(r[k] for r in res)
        def M(k):
            m = {}
            for r in res:
                for n, c in r[k].items(): m[n] = m.get(n, 0) + c
            return dict(sorted(m.items()))
        wall_ex = max(r["wall"] for r in res)
        cov = {
            "evaluations": S("runs"), "distinct_nontrivial": len(load64([os.path.join(tmp, "w%d.nt" % w) for w in range(W)])),
            "rule": cfg["rule"], "samples": [s for r in res for s in r["samples"]][:4],
            "seeds_per_hour": int(S("runs") / max(wall_ex, 0.001) * 3600), "fault_free_runs": S("runs") - S("fault_runs"), "fault_injecting_runs": S("fault_runs"),
            "nontrivial_runs": S("nontrivial"), "simulated_seconds": S("sim_ns") / 1e9, "schedule_points": S("steps"), "longest_run_points": max(r["max_steps"] for r in res),
            "history_events": S("events"), "distinct_interleavings": len(load64([os.path.join(tmp, "w%d.sh" % w) for w in range(W)])),
            "distinct_final_states": len(load64([os.path.join(tmp, "w%d.st" % w) for w in range(W)])),
            "faults_fired": M("faults"), "probes_reached": M("probes"), "runs_per_scenario": M("scenarios"), "discarded_runs": M("discards"),
            "determinism_rechecks": S("det_checked"), "determinism_mismatches": S("det_bad"), "known_findings_hit": M("known"), "overflowed_runs": S("overflow"),
            "real_components": cfg["real"], "stubbed_components": cfg["stub"], "build_s": round(tb, 1), "workers": W,
        }
        rc = 0
        good = [v for v in viol if v["gate"]]
        if viol and not good:
            err("a failing run did not reproduce: %s" % json.dumps(viol[0]))
        lines = []
        if good:
            good.sort(key=lambda v: (v["after"], v["run"]))
            v = good[0]
            rd = os.environ.get("DSIM_REPLAYS") or os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-seed%d-run%d.replay" % (prop, seed, v["run"]))
            shutil.copy(v["path"], path)
            tr = os.path.join(tmp, "trace")
            r1 = subprocess.run(cmd0 + ["replay", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            r2 = subprocess.run(cmd0 + ["replay", path, "--trace", tr], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
            try:
                d1 = json.loads(r1.stdout.decode().splitlines()[-1]); d2 = json.loads(r2.stdout.decode().splitlines()[-1])
            except Exception: err("replay gave no result")
            if not (d1["status"] == 2 and d1["class"] == v["class"] == d2["class"] and d1["hash"] == v["hash"] == d2["hash"]):
                err("replay in a fresh process differs: %s vs %s" % (json.dumps(d1)[:400], json.dumps(v)[:400]))
            with open(path, "a") as f:
                f.write("\n# replay: python3 tools/check.py %s --replay %s\n# trace of the minimised run:\n" % (prop, path))
                try:
                    t = open(tr, errors="replace").read().splitlines()
                    for l in (t if len(t) <= 600 else t[:200] + ["..."] + t[-400:]): f.write("# " + l + "\n")
                except OSError: pass
            lines.append("violation: %s: %s" % (v["class"], d1["msg"].replace("\n", " ")[:600]))
            lines.append("found by run %s after %ss, %d of %d recorded choices left after %d shrink runs" % (v["run"], v["at_s"], v["after"], v["before"], v["tries"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            cov["violation"] = {"class": v["class"], "message": d1["msg"][:600], "replay": path, "choices_before": v["before"], "choices_after": v["after"]}
            rc = 1
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": cfg["assume"], "wall_s": round(time.time() - t0, 2), "violations": len(good)}
        ed = os.environ.get("DSIM_EVIDENCE") or os.path.join(V, "evidence")
        os.makedirs(ed, exist_ok=True); ep = os.path.join(ed, prop + ".json")
        with open(ep + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.replace(ep + ".tmp", ep)
        for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("%s: %d runs (%d with faults), %d distinct non-trivial, %d schedule points, %.1f s" % (prop, cov["evaluations"], cov["fault_injecting_runs"], cov["distinct_nontrivial"], cov["schedule_points"], time.time() - t0))
        for l in lines: print(l)
        sys.stdout.flush()
        sys.exit(rc)
    finally:
        for p in procs:
            if p.poll() is None: p.kill()
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__": main()
