def binaries(c):
    return [c.build(c.prop, "checks/%s/h.cc" % c.prop, ["core", "openfst", "gemmlowp"], "asan", libs=["openblas"])]

def run(c):
    c.assumptions = ["8-bit samples are delivered as signed values, as the reader documents no other convention",
                     "headers with several channels, odd sample widths or wrong total sizes may be accepted or rejected, but never misreported"]
    for b in binaries(c):
        c.explore(b)
