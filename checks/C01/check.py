def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "gcc", libs=["openblas"])]

def run(c):
    c.assumptions = ["a small model (3 pdfs, 3 words, with and without a large language model, 6 contexts and batch sizes)"]
    for b in binaries(c):
        c.explore(b)
