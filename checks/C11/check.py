def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["networks whose splices stay within the configured contexts; batch size at least 1", "integer weights, so that scores are exact up to the logarithm of the prior (1e-5)"]
    for b in binaries(c):
        c.explore(b)
