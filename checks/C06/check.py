def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "gcc", libs=["openblas"])]

def run(c):
    for b in binaries(c):
        c.explore(b)
