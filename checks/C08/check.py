def binaries(c):
    # both with memory checking and as the repository compiles it (g++ -O2):
    # the two disagree when the code relies on undefined behaviour
    return [c.build("C08", "checks/C08/h.cc", ["pool"], "asan"),
            c.build("C08", "checks/C08/h.cc", ["pool"], "gcc")]

def run(c):
    c.assumptions = ["object graphs of at most 5 live nodes, block sizes 1-4 stand for the production block size"]
    for b in binaries(c):
        c.explore(b)
        if c.violations:
            return
