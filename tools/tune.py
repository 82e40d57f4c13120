#!/usr/bin/env python3
"""Measures, for every configuration of every property, how far the grid size P can be raised within a time budget and
writes mc/bounds.json: {property: {configuration: [P quick, P thorough]}}. configs.py takes the larger of this and its table.
Run by hand when configurations change: tools/tune.py [property ...]   (ICL_REPO as for check.py)"""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "mc"))
import check, configs
QUICK, THOROUGH = 1.5, 20.0   # seconds; runs up to PROBE are measured, longer ones extrapolated from the growth seen so far
PROBE = 3.0
def measure(job, tmp, base_t):
    exe = os.path.join(tmp, hashlib.md5((job.src+job.name+str(job.defs)).encode()).hexdigest()[:14])
    if subprocess.run(check.compile_cmd(job, exe), capture_output=True).returncode: return None
    p = job.params["P"]; q = t = p; last = 0.0
    while p < 14:
        par = dict(job.params, P=p); t0 = time.time()
        try: r = subprocess.run([exe]+["%s=%d" % kv for kv in par.items()], capture_output=True, text=True, timeout=THOROUGH)
        except subprocess.TimeoutExpired: break
        dt = time.time()-t0
        if r.returncode or "truncated" in r.stdout or "VIOL" in r.stdout and "recorded" not in job.name: break
        if dt <= QUICK: q = p
        t = p
        if dt > PROBE or last > 0.05 and dt*dt/last > THOROUGH:
            growth = max(2.5, dt/last if last > 0.05 else 6.0)
            while dt*growth <= THOROUGH and t < p+2: t += 1; dt *= growth
            break
        last = dt; p += 1
    os.unlink(exe)
    return [q, t]
def main():
    path = os.path.join(HERE, "mc", "bounds.json")
    tab = json.load(open(path)) if os.path.exists(path) else {}
    tmp = tempfile.mkdtemp(prefix="icltune.")
    try:
        for pid in sys.argv[1:] or configs.CLAIMED:
            configs.BOUNDS = {}
            js = [j for j in configs.jobs(pid, "quick") if "P" in j.params and "recorded" not in j.name]
            tj = {j.name: j for j in configs.jobs(pid, "thorough")}
            t0 = time.time()
            with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: measure(j, tmp, 0), js))
            tab[pid] = {j.name: r for j, r in zip(js, rs) if r}
            json.dump(tab, open(path, "w"), indent=0, sort_keys=True)
            print(pid, len(js), "%.0fs" % (time.time()-t0), {"%d->%d/%d" % (j.params["P"], *r) for j, r in zip(js, rs) if r}, "failed", sum(r is None for r in rs), flush=True)
    finally: shutil.rmtree(tmp, ignore_errors=True)
main()
