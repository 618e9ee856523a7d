def binaries(c):
    c.main = c.build("C23main", [], ["main", "core", "openfst", "gemmlowp"], "asan", libs=["openblas"])
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "gcc", libs=["openblas"])]

def run(c):
    c.assumptions = ["names and paths in lists have no spaces"]
    for b in binaries(c):
        c.explore(b, env={"CATEARS_MAIN": c.main})
