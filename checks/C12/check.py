def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["non-empty inputs of finite values", "results whose defining formula overflows float are not compared",
                     "rounding: a relative error of 2e-5 of the magnitudes that enter a result is allowed"]
    for b in binaries(c):
        c.explore(b)
