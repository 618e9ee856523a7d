import os

SCHED = dict(rt=["mc/vsched.cc"], ldextra=["-rdynamic", "-Wl,--wrap=cblas_sgemm"])
GROUPS = ["core", "openfst", "gemmlowp"]


def binaries(c):
    return [c.build("C02seq", "checks/C02/seq.cc", GROUPS, "gcc", libs=["openblas"]),
            c.build("C02con", "checks/C02/con.cc", GROUPS, "sched", libs=["openblas"], **SCHED)]


def run(c):
    c.assumptions = ["sequentially consistent memory; threads change at calls, synchronization operations and conflicting memory accesses",
                     "results are compared, the text of the last error is not"]
    seq, con = binaries(c)
    c.explore(seq)
    # repeat with every pair of conflicting accesses found so far as scheduling points
    racy, rounds = set(), 0
    while True:
        out = os.path.join(c.scratch, "races%d" % rounds)
        env = {"VERIF_RACES_OUT": out, "VERIF_RACY": ",".join(str(x) for x in sorted(racy))}
        c.explore(con, env=env, tag="-round%d" % rounds, deadline=60 if c.quick() else 1500)
        rounds += 1
        new = set(racy)
        if os.path.exists(out):
            for line in open(out):
                new.update(int(x) for x in line.split())
        if new == racy or c.violations or rounds >= 4:
            break
        racy = new
    c.extra["conflicting_accesses"] = len(racy)
    c.extra["rounds"] = rounds
