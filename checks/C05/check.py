def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "gcc", libs=["openblas"])]

def run(c):
    c.assumptions = ["costs small enough that the beam (16) prunes nothing", "every emitted word is in the large model's unigrams"]
    for b in binaries(c):
        c.explore(b)
