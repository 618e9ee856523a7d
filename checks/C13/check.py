def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["single precision rounding: energies are compared to within 1e-5 of the amplitude of the window"]
    for b in binaries(c):
        c.explore(b)
