#!/usr/bin/env python3
"""one.py ID SCENARIO [quick|thorough]: build a check and run one scenario (for development)."""
import importlib.util, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import run as R
c = R.Check(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "quick")
sp = importlib.util.spec_from_file_location("chk", os.path.join(V, "checks", sys.argv[1], "check.py")); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
e = dict(R.ENV); rc = 0
for b in m.binaries(c):
    if getattr(c, "main", None): e["CATEARS_MAIN"] = c.main
    rc |= subprocess.run([b, "--tier", c.tier, "--scratch", c.scratch, "--jobs", "8", "--out", c.scratch + "/o.json", "--scenario", sys.argv[2]], env=e, cwd=c.scratch).returncode
shutil.rmtree(c.scratch, ignore_errors=True); sys.exit(rc)
