#!/usr/bin/env python3
"""setup_cmd: the harnesses are templates over the code under test and are compiled by each check; this only verifies that the tools are there."""
import subprocess, sys, os
r = subprocess.run(["g++", "--version"], capture_output=True, text=True)
if r.returncode: sys.exit("g++ missing")
for h in ("interval_set.hpp", "interval_map.hpp"):
    if not os.path.exists("/repo/include/boost/icl/"+h): sys.exit("boost icl headers missing")
print("ok:", r.stdout.splitlines()[0])
