"""Builds harnesses from /repo's working tree, with a content-hashed object cache.

Every object is keyed by the compile command and the content of every file the
compiler read (from the .d file), so a stale object can never be used.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

INCS = ["-I" + SRC, "-I" + os.path.join(SRC, "openfst/include"),
        "-I" + os.path.join(SRC, "gemmlowp"), "-I" + os.path.join(VERIF, "mc")]
STD = "-std=gnu++14"

FLAVORS = {
    # detects memory errors; the repository's asserts stay on
    "asan": dict(cxx="clang++", cc="clang",
                 flags=["-O1", "-g1", "-fPIC", "-fsanitize=address", "-fno-omit-frame-pointer",
                        "-w", "-pthread"],
                 ld=["-fsanitize=address", "-pthread"]),
    # the compiler and flags of the repository's own build
    "gcc": dict(cxx="g++", cc="gcc",
                flags=["-O2", "-g1", "-fPIC", "-w", "-pthread"],
                ld=["-pthread"]),
    # every memory access and atomic is a call into our own runtime
    "sched": dict(cxx="clang++", cc="clang",
                  flags=["-O1", "-g1", "-fPIC", "-fsanitize=thread", "-fno-omit-frame-pointer",
                         "-w", "-pthread"],
                  ld=["-pthread"]),
    "plain": dict(cxx="clang++", cc="clang", flags=["-O1", "-g1", "-fPIC", "-w", "-pthread"],
                  ld=["-pthread"]),
}

# never take anything outside these compile units from /repo
def units(group):
    if group == "core":
        out = []
        for pat in ("*.cc", "*.c", "*.cpp"):
            out += glob.glob(os.path.join(SRC, pat))
        return sorted(p for p in out if os.path.basename(p) != "main.cc")
    if group == "main":
        return [os.path.join(SRC, "main.cc")]
    if group == "gemmlowp":
        return sorted(glob.glob(os.path.join(SRC, "gemmlowp/eight_bit_int_gemm/*.cc")))
    if group == "openfst":
        return sorted(glob.glob(os.path.join(SRC, "openfst/lib/*.cc")))
    if group == "pool":       # header-only parts plus what they need
        return [os.path.join(SRC, "util.cc")]
    raise KeyError(group)


def _sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in cache:
        with open(path, "rb") as f:
            cache[key] = hashlib.sha256(f.read()).hexdigest()
    return cache[key]


def _deps(dfile):
    with open(dfile) as f:
        txt = f.read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [os.path.abspath(t) for t in txt.split()]


class BuildError(Exception):
    pass


def compile_one(src, flavor, extra, outdir):
    fl = FLAVORS[flavor]
    cxx = fl["cc"] if src.endswith(".c") else fl["cxx"]
    std = [] if src.endswith(".c") else [STD]
    cmd = [cxx] + std + fl["flags"] + list(extra) + INCS
    # gemmlowp is built without its x86 kernels in the repository: keep its defaults
    tag = hashlib.sha256((" ".join(cmd) + src).encode()).hexdigest()[:16]
    base = os.path.join(outdir, os.path.basename(src) + "." + tag)
    obj, dep, key = base + ".o", base + ".d", base + ".key"
    listing = hashlib.sha256("\n".join(sorted(os.listdir(SRC))).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(key):
        try:
            with open(key) as f:
                k = json.load(f)
            if k["listing"] == listing and all(_sha(p) == h for p, h in k["deps"].items()):
                return obj
        except (ValueError, KeyError):
            pass
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp, "-MD", "-MF", dep],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    deps = {p: _sha(p) for p in _deps(dep)}
    os.replace(tmp, obj)
    with open(key, "w") as f:
        json.dump({"listing": listing, "deps": deps}, f)
    return obj


def build(name, harness, groups, flavor="asan", extra=(), libs=(), harness_flavor=None, ldextra=(),
          hextra=(), rt=()):
    """Compile harness + groups and link build/<name>-<flavor>. Returns its path."""
    outdir = os.path.join(BUILD, flavor)
    for d in (flavor, harness_flavor or flavor, "plain"):
        os.makedirs(os.path.join(BUILD, d), exist_ok=True)
    jobs = []
    for g in groups:
        for u in units(g):
            jobs.append((u, flavor, tuple(extra)))
    for h in ([harness] if isinstance(harness, str) else harness):
        jobs.append((os.path.join(VERIF, h), harness_flavor or flavor, tuple(extra) + tuple(hextra)))
    for h in rt:                 # runtime parts, never instrumented
        jobs.append((os.path.join(VERIF, h), "plain", ()))
    # the harness is usually the slowest unit: start it first
    jobs.reverse()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], os.path.join(BUILD, j[1])), jobs))
    out = os.path.join(BUILD, "%s-%s" % (name, flavor))
    fl = FLAVORS[flavor]
    link = [fl["cxx"], "-o", out + ".tmp"] + objs + fl["ld"] + list(ldextra) + \
        ["-l" + l for l in libs] + ["-ldl"]
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
    os.replace(out + ".tmp", out)
    return out
