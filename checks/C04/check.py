def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["costs are multiples of 1/2 small enough that the beam (16) prunes nothing",
                     "graphs without negative epsilon cycles"]
    for b in binaries(c):
        c.explore(b)
