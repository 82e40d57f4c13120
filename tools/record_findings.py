#!/usr/bin/env python3
"""Maintenance aid (never run by a check): prints findings entries for the disagreements a check reports in '(recorded)'
configurations, one entry per state with the exact operations. usage: record_findings.py < output of check.py -v"""
import sys, json, collections
out = collections.OrderedDict()
for l in sys.stdin:
    if l.startswith("  V: ") and "(recorded)" in l:
        sig = l[5:].split(" :: ")[0]; cfg, st, op = sig.split(" | "); out.setdefault((cfg, st), []).append(op)
print(json.dumps([dict(cfg=[c], state=[s], ops=o) for (c, s), o in out.items()], indent=1))
