def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["a name field ends at its first NUL byte", "little-endian files; reads of regular files do not fail for other reasons than their length"]
    for b in binaries(c):
        c.explore(b)
