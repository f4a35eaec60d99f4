#!/usr/bin/env python3
"""Confirms planted bugs: each runs on its own copy of /repo, mounted over /repo in a private namespace.
   seedtest.py [--no-tests] [--check-only] [ID...]"""
import os, sys, json, shutil, subprocess, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="*"); ap.add_argument("--no-tests", action="store_true"); ap.add_argument("--check-only", action="store_true"); ap.add_argument("--no-check", action="store_true"); ap.add_argument("-j", type=int, default=3); ap.add_argument("--time"); a = ap.parse_args()
ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")) + os.listdir(os.path.join(V, "seeded-perl")))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def ns(root, cmd, log, cwd="/repo", env=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd %s && %s" % (root, cwd, cmd)], stdout=log, stderr=subprocess.STDOUT, env=e).returncode
def one(i):
    d = os.path.join(V, "seeded", i); d = d if os.path.isdir(d) else os.path.join(V, "seeded-perl", i); root = "/tmp/sd/" + i; shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/sd", exist_ok=True)
    prop = json.load(open(d + "/meta.json"))["property"]; r = {}
    log = open("/tmp/sd/%s.log" % i, "w")
    subprocess.check_call(["cp", "-a", "/repo", root])
    try:
        if not a.check_only: r["demo0"] = ns(root, "bash %s/demo.sh" % d, log)
        if subprocess.run(["git", "-C", root, "apply", d + "/patch.diff"], stdout=log, stderr=log).returncode: r["apply"] = "FAILED"; return i, prop, r
        if not a.check_only:
            r["build"] = ns(root, "bash /opt/vp/build.sh", log)
            r["demo1"] = ns(root, "bash %s/demo.sh" % d, log)
            if not a.no_tests:
                ns(root, "bash /opt/vp/test.sh /tmp/sd/%s.json" % i, log); r["failed"] = sorted(stable - set(json.load(open("/tmp/sd/%s.json" % i))["passed"]))
        if not a.no_check:
            log.flush(); out = subprocess.run(["python3", V + "/tools/check.py", prop] + (["--time", a.time] if a.time else []), env=dict(os.environ, DSIM_REPO=root, DSIM_EVIDENCE="/tmp/sd/ev-" + i, DSIM_REPLAYS="/tmp/sd/rp-" + i), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = out.stdout.decode(errors="replace"); log.write(t); v = [l for l in t.split("\n") if l.startswith("VIOLATION")]; r["check"] = "%d %s" % (out.returncode, (v or t.strip().split("\n")[-1:] or [""])[0][:150])
    finally: shutil.rmtree(root, ignore_errors=True)
    return i, prop, r
with ThreadPoolExecutor(a.j) as ex:
    for i, p, r in ex.map(one, ids): print(i, p, r, flush=True)
