def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["the transform is linear up to rounding: the unit inputs of a size determine it", "rounding: 2e-5 of the norm of the input per output, growing with the size as measured for single precision"]
    for b in binaries(c):
        c.explore(b)
