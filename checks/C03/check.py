def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["recognizer and format pointers are valid; results after a second end of stream or after data behind the end are not specified, only memory safety"]
    for b in binaries(c):
        c.explore(b)
