def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "gcc", libs=["openblas"])]

def run(c):
    c.assumptions = ["heap in use as reported by the C library; recognized words may take up to 512 bytes each"]
    for b in binaries(c):
        c.explore(b)
