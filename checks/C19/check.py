def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["operands of a multiplication have more than one element each; finite values", "products of the two scales that are neither zero nor infinite in float"]
    for b in binaries(c):
        c.explore(b)
