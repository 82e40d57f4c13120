#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --replay <file>

Builds the exploration harnesses of one property from /repo's working tree, runs each configuration to
exhaustion, judges the reported disagreements against known_findings.json and writes evidence/<id>.json.
Exit 0: property held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import sys, os, json, time, subprocess, tempfile, shutil, argparse, hashlib
import threading
from concurrent.futures import ThreadPoolExecutor
_lock = threading.Lock()
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "mc"))
import configs
REPO = os.environ.get("ICL_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

FLAGS = ["g++", "-std=c++17", "-w"]
# The library's headers (from the tree under test) are parsed once per check. Harnesses that depend on include order or on other settings do without.
PCH = """#include <string>\n#include <vector>\n#include <map>\n#include <set>\n#include <unordered_map>\n#include <unordered_set>\n#include <functional>\n#include <sstream>\n#include <algorithm>\n#include <deque>\n#include <memory>
#include <boost/icl/interval.hpp>\n#include <boost/icl/discrete_interval.hpp>\n#include <boost/icl/continuous_interval.hpp>\n#include <boost/icl/right_open_interval.hpp>\n#include <boost/icl/left_open_interval.hpp>\n#include <boost/icl/closed_interval.hpp>\n#include <boost/icl/open_interval.hpp>
#include <boost/icl/set.hpp>\n#include <boost/icl/interval_set.hpp>\n#include <boost/icl/separate_interval_set.hpp>\n#include <boost/icl/split_interval_set.hpp>\n#include <boost/icl/interval_map.hpp>\n#include <boost/icl/split_interval_map.hpp>\n#include <boost/icl/map.hpp>\n#include <boost/icl/iterator.hpp>\n"""
_pch = {}
def make_pch(tmp):
    h = os.path.join(tmp, "pch.hpp"); open(h, "w").write(PCH)
    r = subprocess.run(FLAGS + ["-O1", "-I", os.path.join(REPO, "include"), "-x", "c++-header", h, "-o", h+".gch"], capture_output=True)
    if r.returncode == 0: _pch["h"] = h
def use_pch(job): return "h" in _pch and not job.san and job.opt == "-O1" and job.src in ("map_unary.cpp", "map_binary.cpp", "set_unary.cpp", "set_binary.cpp", "fault.cpp") and not any(d.startswith(("USE_", "BOOST_", "ICL_")) for d in job.defs)

def compile_cmd(job, exe):
    san = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if job.san else [job.opt]
    return (FLAGS + san + (["-include", _pch["h"]] if use_pch(job) else []) + ["-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "mc")]
            + ["-D%s" % d for d in job.defs] + ['-DCFGNAME="%s"' % job.name, os.path.join(HERE, "mc", job.src), "-o", exe])

_hdr = {}
def headers_compile(tmp):
    with _lock:
        if "ok" not in _hdr:
            src = os.path.join(tmp, "hdr.cpp")
            open(src, "w").write("#include <boost/icl/interval_map.hpp>\n#include <boost/icl/split_interval_map.hpp>\n#include <boost/icl/separate_interval_set.hpp>\n#include <boost/icl/split_interval_set.hpp>\n#include <boost/icl/map.hpp>\nint main(){ boost::icl::interval_map<int,int> m; m+=std::make_pair(boost::icl::interval<int>::right_open(0,1),1); return m.iterative_size()!=1; }\n")
            _hdr["ok"] = subprocess.run(["g++", "-std=c++17", "-w", "-I", os.path.join(REPO, "include"), src, "-o", src+".exe"], capture_output=True).returncode == 0
    return _hdr["ok"]

def run_job(job, tmp, case=None):
    exe = os.path.join(tmp, hashlib.md5((job.src+job.name).encode()).hexdigest()[:12])
    t0 = time.time()
    r = dict(job=job, viol=[], stats={}, ops={}, samples=[], notes=[], err=None, compiled=False)
    c = subprocess.run(compile_cmd(job, exe), capture_output=True, text=True)
    r["compile_s"] = time.time()-t0
    if c.returncode != 0:
        lines = [l for l in c.stderr.splitlines() if "error" in l][:3]
        r["err"] = "does not compile: " + " / ".join(lines)[:600]
        # The harnesses compile on the tree they were written for. If the library's headers still compile by themselves, an
        # operation the property speaks about has become unusable for this configuration: that is reported as a violation.
        if lines and headers_compile(tmp): r["viol"].append(("%s | compile | instantiation" % job.name, r["err"]))
        return r
    r["compiled"] = True
    cmd = [exe] + ["%s=%d" % kv for kv in job.params.items()] + (["--case", case] if case else [])
    t1 = time.time()
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0", UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=job.timeout, env=env)
        out, rc, serr = p.stdout, p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        out, rc, serr = (e.stdout or b"").decode(errors="replace"), -999, "timeout after %ds" % job.timeout
    r["run_s"] = time.time()-t1
    for l in out.splitlines():
        if l.startswith("VIOL "):
            sig, _, det = l[5:].partition("\t"); r["viol"].append((sig, det))
        elif l.startswith("STAT "):
            _, k, v = l.split(); r["stats"][k] = int(v)
        elif l.startswith("OPS "):
            k, _, v = l[4:].rpartition(" "); r["ops"][k] = r["ops"].get(k, 0)+int(v)
        elif l.startswith("SAMPLE "): r["samples"].append(l[7:])
        elif l.startswith("NOTE "): r["notes"].append(l[5:])
    if rc != 0 and not r["viol"]:
        r["err"] = "harness ended with %s: %s" % (rc, serr.strip()[-400:])
    r["stderr"] = serr[-400:]
    try: os.unlink(exe)
    except OSError: pass
    return r

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def matches(f, prop, sig):
    # a finding names the configuration, and exact operation (and optionally state) that fails
    if f["property"] != prop: return False
    cfg, st, op = (sig.split(" | ")+["", ""])[:3]
    return (("cfg" not in f) or cfg in f["cfg"]) and (("state" not in f) or st in f["state"]) and op in f["ops"]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=None); ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--deeper", type=int, default=0); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    t0 = time.time()
    case = None
    if a.replay:
        rp = json.load(open(a.replay)); a.prop = rp["property"]; tier = rp["tier"]; case = rp["signature"]
    jobs = configs.jobs(a.prop, tier)
    for j in jobs:
        if "P" in j.params: j.params["P"] = max(1, j.params["P"]+a.deeper)   # for exploring other bounds by hand
    if a.only: jobs = [j for j in jobs if a.only in j.name]
    if case: jobs = [j for j in jobs if j.name == case.split(" | ")[0]]
    assert jobs, "no configurations"
    assert len(set(j.name for j in jobs)) == len(jobs), "duplicate configuration names"
    tmp = tempfile.mkdtemp(prefix="iclmc.")
    try:
        make_pch(tmp)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda j: run_job(j, tmp, case), jobs))
        known = load_known(); viols = []; knowns = {}
        for r in rs:
            for sig, det in r["viol"]:
                f = next((f for f in known["findings"] if matches(f, a.prop, sig)), None)
                if f: knowns.setdefault(f["what"], []).append(sig)
                else: viols.append((r["job"], sig, det))
        if a.v:
            for r in rs:
                print("  %-44s compile %.1fs run %.1fs %s viol=%d %s %s" % (r["job"].name, r.get("compile_s", 0), r.get("run_s", 0), r["stats"], len(r["viol"]), r["err"] or "", r["notes"] or ""))
            tot = {}
            for r in rs:
                for k, v in r["ops"].items(): tot[k] = tot.get(k, 0)+v
            print("  ops:", tot)
            for _, s, d in viols[:400]: print("  V:", s, "::", d[:400])
        if case:
            hit = [v for v in viols if v[1] == case] or [k for k in knowns.values() if case in k]
            print("replayed:" if hit else "not reproduced:", case)
            for _, s, d in viols: print("  ", s, "::", d)
            return 1 if hit else 0
        # replay before report: the first few configurations that reported must report again
        confirmed = []
        bycfg = {}
        for j, sig, det in viols: bycfg.setdefault(j.name, []).append((j, sig, det))
        for name, vs in list(bycfg.items())[:3]:
            j, sig, det = vs[0]
            rr = run_job(j, tmp, sig)
            if any(s == sig for s, _ in rr["viol"]): confirmed.append((j, sig, det))
            else: print("NOTE: not reproduced on replay, ignored: %s" % sig)
        wall = time.time()-t0
        errs = [(r["job"].name, r["err"]) for r in rs if r["err"]]
        tot = {}; ops = {}; samples = []
        for r in rs:
            for k, v in r["stats"].items(): tot[k] = tot.get(k, 0)+v
            for k, v in r["ops"].items(): ops[k] = ops.get(k, 0)+v
            samples += r["samples"][:2]
        samples = samples[::max(1, len(samples)//8)][:8]
        trunc = [r["job"].name for r in rs if r["stats"].get("truncated")]
        ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
            coverage=dict(states=tot.get("states", 0), transitions=tot.get("transitions", 0),
                traces_validated_against_impl=tot.get("judged", 0), samples=samples or ["none"],
                exhaustive=not trunc and not errs, distinct_outcomes=tot.get("outcomes", 0), judged_per_operation=ops,
                configurations=[dict(name=r["job"].name, params=r["job"].params, sanitizers=bool(r["job"].san), **{k: r["stats"].get(k, 0) for k in ("states", "transitions", "judged")}) for r in rs],
                truncated_configurations=trunc, states_not_admissible=tot.get("skipped", 0),
                explanation="every transition is a call of the real code; 'judged' transitions were compared with the reference model / oracle (the model is bound to the code by judging each transition of the real state graph)"),
            assumptions=configs.assumptions(a.prop), wall_s=round(wall, 2), violations=len(confirmed))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", a.prop+".json"), "w"), indent=1)
        for what, sigs in knowns.items(): print("KNOWN-FINDING: property=%s %s (%d cases, e.g. %s)" % (a.prop, what, len(sigs), sigs[0]))
        if confirmed:
            rd = os.path.join(HERE, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
            for n, (j, sig, det) in enumerate(confirmed):
                path = os.path.join(rd, "%s-%d.json" % (a.prop, n))
                json.dump(dict(property=a.prop, tier=tier, signature=sig, detail=det, compile=" ".join(compile_cmd(j, "a.out")), params=j.params), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (a.prop, path)); print("  %s :: %s" % (sig, det[:600]))
            return 1
        if errs:
            for n, e in errs: print("ERROR %s: %s" % (n, e))
            return 2
        print("OK property=%s tier=%s configurations=%d states=%d transitions=%d judged=%d wall=%.1fs%s" % (a.prop, tier, len(jobs), tot.get("states", 0), tot.get("transitions", 0), tot.get("judged", 0), wall, " TRUNCATED:%s" % trunc if trunc else ""))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
