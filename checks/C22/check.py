def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["integer features and statistics, so that float sums are exact", "frames are requested in order, as the interface requires"]
    for b in binaries(c):
        c.explore(b)
