import json
import os
import subprocess
import vbuild


def binaries(c):
    return [c.build("C24reader", "checks/C24/reader.cc", ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]


def enum(c, reader, extra=()):
    out = os.path.join(c.scratch, "tools.json")
    env = dict(os.environ, PYTHONHASHSEED="0", ASAN_OPTIONS="detect_leaks=0", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run(["python3-vt", os.path.join(vbuild.VERIF, "checks/C24/tools.py"), c.tier, os.path.join(vbuild.REPO, "tool"),
                        reader, c.scratch, out] + list(extra), env=env)
    return r.returncode, out


def run(c):
    c.assumptions = ["OpenFst's python module is replaced by a stand-in with the same interface", "computed values (batch normalization, natural logarithms) to single precision"]
    reader = binaries(c)[0]
    rc, out = enum(c, reader)
    if rc != 0:
        raise RuntimeError("the enumeration of tool inputs failed")
    for r in json.load(open(out)):
        c.record(r["scenario"], r["bounds"], r["execs"], r["states"], r["execs"], r["execs"], r["states"], r["samples"],
                 exhaustive=not r["bad"], wall=r["wall"])
        if r["bad"]:
            c.violation(r["scenario"], r["bad"][1], {"binary": "tools.py", "scenario": r["scenario"], "choices": r["bad"][0]})


def replay(c, rp):
    return enum(c, binaries(c)[0], [rp["scenario"], rp["choices"]])[0]
