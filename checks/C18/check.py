def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["sizes outside the documented domain (negative, or only one dimension zero) are not requested"]
    for b in binaries(c):
        c.explore(b)
