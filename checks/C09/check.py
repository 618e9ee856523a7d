import os, vbuild

def binaries(c):
    h = ["checks/C09/h.cc", os.path.join(vbuild.SRC, "hashtable.cc")]
    return [c.build("C09", h, [], "asan")]

def run(c):
    for b in binaries(c):
        c.explore(b, hang=20)
