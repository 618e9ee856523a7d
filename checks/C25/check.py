def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["files without embedded symbol tables; files with unknown version or flag bits must only load or be refused without a crash"]
    for b in binaries(c):
        c.explore(b)
