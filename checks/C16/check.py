def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["no NUL bytes inside text files; C locale", "lines with an empty key, and symbol tables listing a word or an id twice, may be read either way"]
    for b in binaries(c):
        c.explore(b)
