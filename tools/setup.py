#!/usr/bin/env python3
"""setup_cmd: builds every harness once (fills the content-hash cache in build/)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run  # noqa
bad = 0
for i in sorted(os.listdir(os.path.join(V, "checks"))):
    if not os.path.exists(os.path.join(V, "checks", i, "check.py")):
        continue
    c = run.Check(i, "quick")
    try:
        m = run.load_spec(i)
        m.binaries(c)
        print(i, "built")
    except Exception as e:   # a check reports its own build errors
        print(i, "not built:", str(e)[:2000])
        bad += 1
    finally:
        c.cleanup()
sys.exit(1 if bad else 0)
