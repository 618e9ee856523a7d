def binaries(c):
    a = ("checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"])
    return [c.build(c.prop, *a, "asan", libs=["openblas"]), c.build(c.prop, *a, "gcc", libs=["openblas"])]

def run(c):
    c.assumptions = ["hypotheses that tie exactly are not compared"]
    for b in binaries(c):
        c.explore(b)
