def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["files that contradict each other without being damaged (labels beyond the tables, shapes that do not fit) are out of scope"]
    for b in binaries(c):
        c.explore(b)
