SCHED = dict(rt=["mc/vsched.cc"], ldextra=["-rdynamic", "-Wl,--wrap=cblas_sgemm"])


def binaries(c):
    return [c.build("C20", "checks/C20/h.cc", ["core", "openfst", "gemmlowp"], "sched", libs=["openblas"], **SCHED)]


def run(c):
    c.assumptions = ["sequentially consistent memory between synchronization operations; data races by vector clocks on every schedule explored",
                     "the kernel's waiting primitives behave as specified; no spurious wake-ups"]
    for b in binaries(c):
        c.explore(b, deadline=400 if c.quick() else 3000)
