#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]  -- decide one property.

Builds what the check needs from /repo's working tree, explores, writes
evidence/<property>.json.  Exit 0: held on everything explored; exit 1 with a
VIOLATION line otherwise; exit 2: the check itself could not run.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "mc"))
import vbuild  # noqa: E402

ENV = dict(os.environ)
ENV["OPENBLAS_NUM_THREADS"] = "1"
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
                       "max_allocation_size_mb=4000:detect_stack_use_after_return=0:"
                       "quarantine_size_mb=16:malloc_context_size=6:symbolize=1")
ENV["LC_ALL"] = "C"


class CheckError(Exception):
    pass


class Check:
    """State of one check run: collects scenario results and violations."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.results = []
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="vmc-%s-" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
        self.findings = load_findings(prop)
        self.level = "model_checking"
        self.extra = {}

    def quick(self):
        return self.tier != "thorough"

    def build(self, *a, **k):
        return vbuild.build(*a, **k)

    def explore(self, binary, jobs=8, deadline=None, hang=60, args=(), env=None, tag=""):
        """Run an mc harness binary; record its scenarios."""
        out = os.path.join(self.scratch, "out%d.json" % len(self.results))
        scr = os.path.join(self.scratch, "s%d" % len(self.results))
        os.makedirs(scr, exist_ok=True)
        dl = deadline or (240 if self.quick() else 3000)
        cmd = [binary, "--tier", self.tier, "--out", out, "--scratch", scr, "--jobs", str(jobs),
               "--deadline", str(dl), "--hang", str(hang)] + list(args)
        e = dict(ENV)
        e.update(env or {})
        r = subprocess.run(cmd, env=e, cwd=scr)
        if r.returncode != 0 or not os.path.exists(out):
            raise CheckError("explorer %s exited with %d" % (os.path.basename(binary), r.returncode))
        for res in json.load(open(out)):
            res["binary"] = os.path.basename(binary) + tag
            self.results.append(res)
            if res["error"]:
                raise CheckError("%s: %s" % (res["scenario"], res["msg"]))
            if res["violated"]:
                self.violation(res["scenario"], res["msg"],
                               {"binary": os.path.basename(binary), "scenario": res["scenario"],
                                "choices": res["replay"], "log": res["samples"][:1],
                                "env": env or {}})
        shutil.rmtree(scr, ignore_errors=True)

    def record(self, scenario, bounds, execs, states, transitions, traces, outcomes, samples,
               exhaustive=True, wall=0.0):
        """Record a scenario explored by a Python-side enumerator."""
        self.results.append(dict(scenario=scenario, bounds=bounds, execs=execs, choices=transitions,
                                 steps=0, traces=traces, checks=execs, states=states,
                                 outcomes=outcomes, exhaustive=exhaustive, violated=False,
                                 error=False, msg="", replay="", wall=wall, samples=samples,
                                 binary="python"))

    def violation(self, scenario, msg, replay):
        for f in self.findings:
            if f["kind"] == "known" and f["match"] in ("%s: %s" % (scenario, msg)):
                self.known_hits.append(f)
                return
        os.makedirs(os.path.join(vbuild.BUILD, "replays"), exist_ok=True)
        path = os.path.join(vbuild.BUILD, "replays", "%s-%d.json" % (self.prop, len(self.violations)))
        replay = dict(replay)
        replay.update(property=self.prop, message=msg, tier=self.tier, scenario=scenario)
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((scenario, msg, path))

    def finish(self):
        rs = self.results
        samples = []
        for r in rs:
            for s in r["samples"][:2]:
                samples.append("%s: %s" % (r["scenario"], s[:600]))
        execs = sum(r["execs"] for r in rs)
        cov = {
            "states": sum(r["states"] for r in rs),
            "transitions": sum(r["choices"] + r["steps"] for r in rs),
            "traces_validated_against_impl": sum(r["traces"] for r in rs),
            "samples": samples[:24] or ["(none)"],
            "executions": execs,
            "oracle_checks": sum(r["checks"] for r in rs),
            "distinct_outcomes": sum(r["outcomes"] for r in rs),
            "exhaustive": all(r["exhaustive"] for r in rs) and not self.violations,
            "scenarios": [{k: r[k] for k in ("scenario", "bounds", "execs", "choices", "steps", "states",
                                             "outcomes", "traces", "exhaustive", "wall", "binary")}
                          for r in rs],
        }
        if self.level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = execs
            cov["distinct_nontrivial"] = sum(r["outcomes"] for r in rs)
            cov["rule"] = self.extra.get("rule", "")
        cov.update({k: v for k, v in self.extra.items() if k != "rule"})
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "violations": len(self.violations),
              "wall_s": round(time.time() - self.t0, 3)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_findings(prop):
    """known_findings.txt: 'known: property=<id> match=<text> # what fails' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if line.startswith("known: property=%s " % prop):
            body = line.split("match=", 1)[1]
            m, _, what = body.partition(" # ")
            out.append(dict(kind="known", match=m, what=what))
    return out


def load_spec(prop):
    path = os.path.join(VERIF, "checks", prop, "check.py")
    spec = importlib.util.spec_from_file_location("check_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    m = load_spec(prop)
    c = Check(prop, tier)
    try:
        if args[:1] == ["--replay"]:
            rp = json.load(open(args[1]))
            c.tier = rp["tier"]
            if hasattr(m, "replay"):
                return m.replay(c, rp)
            for b in m.binaries(c):
                if os.path.basename(b) == rp.get("binary"):
                    e = dict(ENV)
                    e.update(rp.get("env", {}))
                    return subprocess.run([b, "--tier", rp["tier"], "--scratch", c.scratch, "--scenario",
                                           rp["scenario"], "--replay", rp["choices"]], env=e).returncode
            print(json.dumps(rp, indent=1))
            return 2
        m.run(c)
        c.finish()
        for f in c.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if c.violations:
            for sc, msg, path in c.violations:
                print("property %s, scenario %s: %s" % (prop, sc, msg))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        r = c.results
        if os.environ.get("VERIF_RSS"):
            import resource
            print("largest process: %d MB" % (resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024))
        print("%s held: %d scenarios, %d executions, %d states, %d distinct outcomes, %.1fs%s" % (
            prop, len(r), sum(x["execs"] for x in r), sum(x["states"] for x in r),
            sum(x["outcomes"] for x in r), time.time() - c.t0,
            "" if all(x["exhaustive"] for x in r) else " (CAPPED)"))
        return 0
    except vbuild.BuildError as e:
        print("error: %s" % e)
        return 2
    except CheckError as e:
        print("error: %s" % e)
        return 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
