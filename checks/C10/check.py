def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["models without back-off cycles; arcs of a state sorted by label, back-off arc first"]
    for b in binaries(c):
        c.explore(b)
