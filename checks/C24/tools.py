"""Enumerates text models, runs the conversion tools on each (in this process)
and compares what they write with the text, both through an independent parser
and through the recognizer's own loaders (reader.cc).

usage: tools.py tier tooldir reader scratch out.json [scenario case]
"""
import contextlib
import io
import itertools
import json
import math
import multiprocessing
import os
import re
import struct
import subprocess
import sys
import time
import types

TIER, TOOLS, READER, SCRATCH, OUT = sys.argv[1:6]
Q = TIER != "thorough"
F32 = lambda x: struct.pack("<f", x)


class Bad(Exception):
    pass


# ---- a stand-in for OpenFst's python module -------------------------------
class Weight:
    """Like pywrapfst's weights: converts to float, has no truth value of its own."""
    def __init__(self, v): self.v = v
    def __float__(self): return self.v


class FakeFst:
    table = {}
    def __init__(self, d): self.d = d
    @classmethod
    def read(cls, name): return cls(cls.table[name])
    def start(self): return self.d["start"]
    def states(self): return iter(range(len(self.d["finals"])))
    def num_states(self): return len(self.d["finals"])
    def final(self, s): return Weight(self.d["finals"][s])
    def arcs(self, s):
        for a in self.d["arcs"]:
            if a[0] == s:
                yield types.SimpleNamespace(nextstate=a[1], ilabel=a[2], olabel=a[3], weight=Weight(a[4]))
    def num_arcs(self, s): return sum(1 for _ in self.arcs(s))


pyw = types.ModuleType("pywrapfst")
pyw.Fst = FakeFst
sys.modules["pywrapfst"] = pyw
CODE = {}


def tool(name, args, stdin=None):
    """Runs a tool; returns (accepted, stdout)."""
    if name not in CODE:
        p = os.path.join(TOOLS, name)
        with open(p, encoding="utf-8") as f:
            CODE[name] = compile(f.read(), p, "exec")
    out = io.StringIO()
    argv, inp = sys.argv, sys.stdin
    sys.argv = [os.path.join(TOOLS, name)] + args
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode("utf-8")), encoding="utf-8")
    ok = True
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            exec(CODE[name], {"__name__": "__main__", "__file__": sys.argv[0]})
    except SystemExit as e:
        ok = e.code in (None, 0)
    except Exception as e:
        ok = False
        out.write("\n%s: %s" % (type(e).__name__, e))
    finally:
        sys.argv, sys.stdin = argv, inp
    return ok, out.getvalue()


class Reader:
    p = None
    @classmethod
    def ask(cls, q):
        if cls.p is None:
            cls.p = subprocess.Popen([READER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        cls.p.stdin.write(q + "\n")
        cls.p.stdin.flush()
        r = cls.p.stdout.readline()
        if not r:
            cls.p.wait()
            cls.p = None
            raise Bad("the recognizer's loader crashes on the written file")
        if r.startswith("ERR"):
            raise Bad("the recognizer's loader refuses the written file: " + r.strip())
        return r[2:].strip()


def path(n): return os.path.join(SCRATCH, "%d-%s" % (os.getpid(), n))
def put(n, t):
    with open(path(n), "w", encoding="utf-8") as f:
        f.write(t)
    return path(n)
def get(p):
    with open(p, "rb") as f:
        return f.read()
def fresh(n):
    for x in ("", ".nnet", ".prior"):
        if os.path.exists(path(n) + x):
            os.remove(path(n) + x)
    return path(n)
def check(c, *a):
    if not c:
        raise Bad(a[0] % a[1:] if len(a) > 1 else a[0])
def same(got, want):
    """float32 values, bit for bit; for computed ones allow the last digits."""
    return F32(got) == F32(want)
def near(got, want, rel=3e-7):
    if math.isinf(want) or math.isnan(want): return same(got, want)
    return abs(got - want) <= rel * abs(want) + 1e-38
def unhex(t): return struct.unpack("<f", struct.pack("<I", int(t, 16)))[0]


# ---- independent reader of the binary format ------------------------------
class Bin:
    def __init__(self, b): self.b, self.p = b, 0
    def tag(self, t):
        check(self.b[self.p:self.p + len(t)] == t, "section %r expected at %d", t, self.p)
        self.p += len(t)
    def i(self):
        v, = struct.unpack_from("<i", self.b, self.p); self.p += 4; return v
    def f(self):
        v, = struct.unpack_from("<f", self.b, self.p); self.p += 4; return v
    def vec(self, kind="f"):
        self.tag(b"VEC0"); size, n = self.i(), self.i()
        check(size == 4 * n + 4 and self.p + 4 * n <= len(self.b), "vector size %d for %d values", size, n)
        return [self.f() if kind == "f" else self.i() for _ in range(n)]
    def mat(self):
        self.tag(b"MAT0"); size, r, c = self.i(), self.i(), self.i()
        check(size == 8, "matrix size %d", size)
        m = [self.vec() for _ in range(r)]
        check(all(len(x) == c for x in m), "row length")
        return m
    def end(self): check(self.p == len(self.b), "%d bytes behind the end", len(self.b) - self.p)


# ---- acoustic model --------------------------------------------------------
NUM = ["1", "0", "-1", "0.5", "-0.25", "3.1415926", "-2.71828e-05", "1e-10", "123456", "0.1", "-0.333333333", "1e-40", "16777217", "7e-3"]
MORE = ["1e+05", "-3.5e+10", "1.17549435e-38", "3.4028234e+38", "-0", "00.5", "5e-324", "0.30000001192092896", "1.00000006", "4e2", "2.5e07", "nan", "inf", "-inf", "+1"]


def kmat(rows):
    return "[\n" + "\n".join("  " + " ".join(r) for r in rows) + " ]\n"
def kvec(v): return "[ " + " ".join(v) + " ]\n"


class Nums:
    def __init__(self, k, pool=NUM): self.k, self.pool = k, pool
    def __call__(self, n):
        r = [self.pool[(self.k + i) % len(self.pool)] for i in range(n)]
        self.k += n
        return r


def am_text(stack, dim, num, prior, style=0):
    """stack: list of (kind, out dim, offsets). Returns text and expected layers."""
    desc, comps, want = ["input-node name=input dim=%d" % dim], [], []
    prev, d, left, right = "input", dim, 0, 0
    for k, (kind, out, offs) in enumerate(stack):
        name = "c%d.%s" % (k, kind)
        if offs:
            sep = ", " if style % 2 == 0 else ","
            osep = ", " if style < 2 else ","
            inp = "Append(" + sep.join(prev if o == 0 else "Offset(%s%s%d)" % (prev, osep, o) for o in offs) + ")"
            want.append(("splice", list(offs)))
            nl, nr = max(0, -min(offs)), max(0, max(offs))
            want.append(("narrow", nl, nr)); left += nl; right += nr
            d *= len(offs)
        else:
            inp = prev
        desc.append("component-node name=%s component=%s input=%s" % (name, name, inp))
        if kind == "affine":
            rows = [num(d) for _ in range(out)]
            b = num(out)
            comps.append("<ComponentName> %s <NaturalGradientAffineComponent> <MaxChange> 0.75 <LearningRate> 0.001 <LinearParams>  %s<BiasParams>  %s<RankIn> 20 <RankOut> 80 <UpdatePeriod> 4 <NumSamplesHistory> 2000 <Alpha> 4 </NaturalGradientAffineComponent> " % (name, kmat(rows), kvec(b)))
            want.append(("linear", [[float(rows[o][i]) for o in range(out)] for i in range(d)], [float(x) for x in b])); d = out
        elif kind == "relu":
            comps.append("<ComponentName> %s <RectifiedLinearComponent> <Dim> %d <ValueAvg>  %s<DerivAvg>  %s<Count> 100 <OderivRms> [ ]\n<OderivCount> 0 <NumDimsSelfRepaired> 0 <NumDimsProcessed> 0 <SelfRepairScale> 1e-05 </RectifiedLinearComponent> " % (name, d, kvec(num(d)), kvec(num(d))))
            want.append(("relu",))
        elif kind == "norm":
            pool = ["1", "0.25", "4", "0.5", "100", "1e-3", "2.5"]
            n2 = Nums(num.k, pool)
            mean, var, eps, rms = num(d), n2(d), ["0.001", "1e-05", "1", "0"][num.k % 4], ["1", "0.025", "2"][num.k % 3]
            comps.append("<ComponentName> %s <BatchNormComponent> <Dim> %d <BlockDim> %d <Epsilon> %s <TargetRms> %s <TestMode> F <Count> 1000 <StatsMean>  %s<StatsVar>  %s</BatchNormComponent> " % (name, d, d, eps, rms, kvec(mean), kvec(var)))
            sc = [(float(v) + float(eps)) ** -0.5 * float(rms) for v in var]
            want.append(("norm", sc, [-float(m) * s for m, s in zip(mean, sc)]))
        else:
            comps.append("<ComponentName> %s <LogSoftmaxComponent> <Dim> %d <ValueAvg>  [ ]\n<DerivAvg>  [ ]\n<Count> 0 </LogSoftmaxComponent> " % (name, d))
            want.append(("logsoftmax",))
        prev = name
    desc.append("output-node name=output input=%s objective=linear" % prev)
    t = "<TransitionModel> \n<Topology> </Topology> </TransitionModel> \n<Nnet3> \n\n" + "\n".join(desc) + "\n\n<NumComponents> %d \n" % len(comps)
    t += "\n".join(comps) + "\n</Nnet3> <LeftContext> %d <RightContext> %d <Priors>  %s" % (left, right, kvec(prior))
    return t, want, left, right, d


TYPES = {"linear": 0, "relu": 1, "splice": 6, "norm": 7, "logsoftmax": 8, "narrow": 9}


def check_layers(b, want, left, right):
    r = Bin(b)
    r.tag(b"NN02")
    check((r.i(), r.i()) == (left, right), "context is not %d, %d", left, right)
    n = r.i()
    check(n == len(want), "%d layers, expected %d", n, len(want))
    for k, w in enumerate(want):
        r.tag(b"LAY0"); t = r.i()
        check(t == TYPES[w[0]], "layer %d has type %d, expected %s", k, t, w[0])
        if w[0] == "linear":
            m, bias = r.mat(), r.vec()
            check(len(m) == len(w[1]) and all(len(x) == len(y) for x, y in zip(m, w[1])) and len(bias) == len(w[2]), "layer %d: shape", k)
            for i, row in enumerate(m):
                for j, v in enumerate(row):
                    check(same(v, w[1][i][j]), "layer %d: weight (%d,%d) is %r, expected %r", k, i, j, v, w[1][i][j])
            for j, v in enumerate(bias):
                check(same(v, w[2][j]), "layer %d: bias %d is %r, expected %r", k, j, v, w[2][j])
        elif w[0] == "splice":
            ix = [r.i() for _ in range(r.i())]
            check(ix == w[1], "layer %d: splice %s, expected %s", k, ix, w[1])
        elif w[0] == "narrow":
            check((r.i(), r.i()) == w[1:], "layer %d: narrow", k)
        elif w[0] == "norm":
            for what, got, exp in (("scale", r.vec(), w[1]), ("offset", r.vec(), w[2])):
                check(len(got) == len(exp) and all(near(g, e) for g, e in zip(got, exp)), "layer %d: %s %s, expected %s", k, what, got, exp)
    r.end()


def forward(want, x):
    for w in want:
        if w[0] == "linear":
            x = [[sum(r[i] * w[1][i][j] for i in range(len(r))) + w[2][j] for j in range(len(w[2]))] for r in x]
        elif w[0] == "relu":
            x = [[max(0.0, v) for v in r] for r in x]
        elif w[0] == "splice":
            x = [sum((x[min(max(i + o, 0), len(x) - 1)] for o in w[1]), []) for i in range(len(x))]
        elif w[0] == "narrow":
            x = x[w[1]:len(x) - w[2]]
        elif w[0] == "norm":
            x = [[v * s + o for v, s, o in zip(r, w[1], w[2])] for r in x]
        else:
            x = [[v - max(r) - math.log(sum(math.exp(u - max(r)) for u in r)) for v in r] for r in x]
    return x


def am(stack, dim, num, prior, style=0, run=True):
    text, want, left, right, d = am_text(stack, dim, num, prior, style)
    src, dst = put("am.txt", text), fresh("am")
    ok, out = tool("convert_am.py", [src, dst])
    check(ok, "a well-formed model is refused: %s", out[-200:])
    check_layers(get(dst + ".nnet"), want, left, right)
    rows = left + right + 2 if run else 0
    a = Reader.ask("nnet %s.nnet %d %d" % (dst, rows, dim)).split()
    check([int(v) for v in a[:2]] == [left, right] and "REST" not in a, "the loader reads context %s", a[:2])
    if run:
        x = [[(i * 3 + j * 5) % 7 - 3 + 0.25 * j for j in range(dim)] for i in range(rows)]
        y = forward(want, x)
        got = [unhex(v) for v in a[4:]]
        flat = [v for r in y for v in r]
        check([int(v) for v in a[2:4]] == [len(y), len(y[0])], "the loaded network gives %s x %s", a[2], a[3])
        big = max([1.0] + [abs(v) for v in flat])
        check(all(abs(g - e) <= 1e-3 * big for g, e in zip(got, flat)), "the loaded network gives %s, expected %s", got[:6], flat[:6])
    p = Bin(get(dst + ".prior")); v = p.vec(); p.end()
    check(len(v) == len(prior) and all(same(g, float(e)) for g, e in zip(v, prior)), "prior %s, expected %s", v, prior)
    r = Reader.ask("vecf %s.prior" % dst).split()
    check([unhex(t) for t in r] == v or any(math.isnan(t) for t in v), "the loader reads the prior as %s", r)
    return text


def am_stacks():
    kinds = [("affine", 1, None), ("affine", 2, (-1, 0, 1)), ("affine", 3, (0, 2)), ("relu", 0, None), ("norm", 0, None), ("logsoftmax", 0, None), ("affine", 2, (-2, 1))]
    for n in range(1, 4 if Q else 6):
        for s in itertools.product(range(len(kinds)), repeat=n):
            for dim in (1, 2):
                yield (s, dim)
def do_am_stacks(c):
    kinds = [("affine", 1, None), ("affine", 2, (-1, 0, 1)), ("affine", 3, (0, 2)), ("relu", 0, None), ("norm", 0, None), ("logsoftmax", 0, None), ("affine", 2, (-2, 1))]
    small = ["1", "0", "-1", "0.5", "-0.25", "3.1415926", "-2.71828e-05", "0.1", "-0.333333333"]
    return am([kinds[k] for k in c[0]], c[1], Nums(sum(c[0]) + c[1], small), ["0.25", "0.5", "0.25"])
def am_offsets():
    r = range(-3, 4)
    for n in (1, 2, 3):
        for o in itertools.product(r, repeat=n):
            if n == 1 or len(set(o)) == n or not Q:
                for style in range(4):
                    yield (o, style)
def do_am_offsets(c):
    return am([("affine", 2, c[0]), ("relu", 0, None), ("affine", 1, (0, 1) if c[1] % 2 else (-1, 0))], 2, Nums(sum(c[0]) + 9, ["1", "0.5", "-0.25"]), ["1"], c[1])
def am_values():
    for v in range(len(NUM) + len(MORE)):
        for pos in range(12):
            yield (v, pos)
def do_am_values(c):
    v, pos = (NUM + MORE)[c[0]], c[1]
    class N:
        k = 0
        def __call__(self, n):
            r = [v if self.k + i == pos else "0.125" for i in range(n)]; self.k += n; return r
    return am([("affine", 3, None)], 3, N(), [v if pos % 3 == i else "0.5" for i in range(3)], run=False)
def am_norm():
    pool = ["0.001", "1", "0", "1e-05", "12.5", "0.0625", "1e-3", "3"]
    return itertools.product(pool, pool[:2] + pool[4:], ["0", "-1.5", "1e-20", "7", "1e+10"], ["0.5", "1", "1e-10", "4e+05", "2.5e-05"], (1, 3))
def do_am_norm(c):
    eps, rms, mean, var, d = c
    t = "<Nnet3>\ninput-node name=input dim=%d\ncomponent-node name=n component=n input=input\noutput-node name=output input=n\n<NumComponents> 1\n<ComponentName> n <BatchNormComponent> <Dim> %d <BlockDim> %d <Epsilon> %s <TargetRms> %s <TestMode> T <Count> 5 <StatsMean>  %s<StatsVar>  %s</BatchNormComponent> \n</Nnet3> <Priors> [ 1 ]\n" % (d, d, d, eps, rms, kvec([mean] * d), kvec([var] * d))
    dst = fresh("am"); ok, out = tool("convert_am.py", [put("am.txt", t), dst])
    check(ok, "a well-formed model is refused: %s", out[-200:])
    s = (float(var) + float(eps)) ** -0.5 * float(rms)
    check_layers(get(dst + ".nnet"), [("norm", [s] * d, [-float(mean) * s] * d)], 0, 0)
    Reader.ask("nnet %s.nnet 0 0" % dst)
    return t
def am_priors():
    for n in range(1, 9):
        for k in range(len(NUM)):
            yield (n, k)
def do_am_priors(c):
    return am([("relu", 0, None)], 2, Nums(0), Nums(c[1])(c[0]))


# ---- feature statistics ----------------------------------------------------
def cmvn():
    for v in range(len(NUM) + 10):
        for pos in list(range(0, 82)) if not Q else (0, 1, 20, 39, 40, 41, 81):
            for style in range(3):
                yield (v, pos, style)
def do_cmvn(c):
    pool = NUM + ["1e+05", "-3.5e+10", "4e2", "+7.5", "-0", "1.17549435e-38", "3.4028234e+38", "2.5e+07", "1e07", "12345678"]
    v = [NUM[(i * 3 + c[0]) % len(NUM)] for i in range(82)]; v[c[1]] = pool[c[0]]
    t = (" [\n  " + " ".join(v[:41]) + " \n  " + " ".join(v[41:]) + " ]\n", "[ " + " ".join(v[:41]) + "\n" + "\t".join(v[41:]) + " ]", "global  [\n" + "\n".join(v) + "\n]\n")[c[2]]
    dst = fresh("cmvn"); ok, out = tool("convert_cmvn_stats.py", [put("cmvn.txt", t), dst])
    check(ok, "well-formed statistics are refused: %s", out[-200:])
    b = Bin(get(dst)); g = b.vec(); b.end()
    check(len(g) == 41 and all(same(x, float(y)) for x, y in zip(g, v)), "statistics %s, expected %s", g, v[:41])
    check([unhex(x) for x in Reader.ask("vecf " + dst).split()] == g, "the loader reads other values")
    return t
def cmvn_counts():
    return ((n,) for n in list(range(0, 90)) + [163, 164, 165])
def do_cmvn_counts(c):
    dst = fresh("cmvn"); t = "[ " + " ".join(str(i * 0.5) for i in range(c[0])) + " ]\n"
    ok, out = tool("convert_cmvn_stats.py", [put("cmvn.txt", t), dst])
    check(ok == (c[0] == 82), "%d numbers are %s", c[0], "accepted" if ok else "refused")
    return t


# ---- transition ids ---------------------------------------------------------
def trans():
    vals = (0, 1, 7, 2147483647)
    for n in range(0, 4 if Q else 6):
        for m in itertools.product(vals, repeat=n):
            for order in itertools.permutations(range(n)):
                for style in (range(3) if n < 3 else (0,)):
                    yield (m, order, style)
def do_trans(c):
    m, order, style = c
    sep = (" ", "\t", "  ")[style]
    t = "%d\n%d\n" % (max(m + (0,)) + 1, len(m)) + "".join("%d%s%d\n" % (i + 1, sep, m[i]) for i in order)
    if style == 2: t = t.rstrip("\n")
    dst = fresh("tid"); ok, out = tool("convert_trans.py", [put("tid.txt", t), dst])
    check(ok, "a well-formed map is refused: %s", out[-200:])
    b = Bin(get(dst)); g = b.vec("i"); b.end()
    check(g[1:] == list(m), "map %s, expected %s", g[1:], list(m))
    check([int(x) for x in Reader.ask("veci " + dst).split()] == g, "the loader reads other values")
    check(re.search(r"num_pdfs = %d\b" % (max(m + (0,)) + 1), out) is not None, "num_pdfs is not reported: %r", out)
    return t


# ---- language models --------------------------------------------------------
WORDS = ["a", "caf\u00e9", "<unk>", "x=y", "-1", "ngram", "\u4e2d\u6587", "1-grams:"]
COST = ["-1.5", "-0.30103", "-99", "0", "-2.5e-05", "-7.123457", "-1e-10", "-3"]


def arpa(words, costs, boffs, order, header, sep, extra, blank):
    t = ("", "\n", "iARPA\n\n", "\n\n")[header % 4] + "\\data\\\n"
    cnt = "ngram %d=%d\n" if header < 4 else "ngram  %d=%10d\n"
    t += cnt % (1, len(words))
    for o in range(2, order + 1): t += cnt % (o, extra)
    t += "\n\\1-grams:\n"
    for i, (w, c) in enumerate(zip(words, costs)):
        t += c + sep + w + ((sep + boffs[i % len(boffs)]) if boffs else "") + "\n"
    if blank: t += "\n"
    for o in range(2, order + 1):
        t += "\\%d-grams:\n" % o
        for i in range(extra):
            t += "-0.%d" % (i + 1) + sep + sep.join([words[(i + k) % len(words)] if words else "z" for k in range(o)]) + (sep + "-0.25" if i % 2 and o < order else "") + "\n"
        t += "\n"
    return t + "\\end\\\n"
def read_arpa(t):
    """strict reader: counts, sections, entries"""
    counts, sec, ent, state = {}, None, {}, 0
    for l in t.split("\n"):
        s = l.strip()
        if s == "": continue
        if state == 0: check(s == "\\data\\", "the model starts with %r", s); state = 1
        elif state == 3: raise Bad("text behind the end: %r" % s)
        elif s == "\\end\\": state = 3
        elif s.startswith("\\") and s.endswith("-grams:") and len(s.split()) == 1: sec = int(s[1:-7]); state = 2; ent[sec] = []
        elif state == 1:
            m = re.match(r"^ngram\s+(\d+)\s*=\s*(\d+)$", s); check(m is not None, "header line %r", s); counts[int(m.group(1))] = int(m.group(2))
        else: ent[sec].append(s.split())
    check(state == 3, "no end of the model")
    check({k: len(v) for k, v in ent.items()} == counts, "sections of %s entries, announced %s", {k: len(v) for k, v in ent.items()}, counts)
    return ent
def models():
    n = len(WORDS)
    for k in range(0, 4 if Q else 6):
        for ws in (itertools.permutations(range(n), k) if k < 3 or not Q else itertools.combinations(range(n), k)):
            for order in (1, 2, 3):
                for header in range(8):
                    yield (ws, order, header, (sum(ws) + order + header) % 2, (len(ws) + header) % 2, sum(ws) % 3)
    for ws, order, header, sep, extra, b in itertools.product([(0,), (1, 3)], (1, 2, 3), range(8), (0, 1), (0, 1, 2), (0, 1, 2)):
        yield (ws, order, header, sep, extra, b)
def model_text(c):
    ws, order, header, sep, extra, b = c
    w = ["<s>", "</s>"] + [WORDS[i] for i in ws]
    if header == 1: w = w[2:] + w[:2]
    cs = [COST[(i + sum(ws) + order) % len(COST)] for i in range(len(w))]
    return w, cs, arpa(w, cs, None if b == 0 else ["-0.5"] if b == 1 else ["0", "-1e-07"], order, header, "\t" if sep else " ", extra if order > 1 else 0, bool(b) or order > 1)
def do_prune(c):
    w, cs, t = model_text(c)
    read_arpa("\n".join(t.split("iARPA")) if "iARPA" in t else t)
    ok, out = tool("prune_lm.py", [], t)
    check(ok, "a well-formed model is refused: %s", out[-200:])
    e = read_arpa(out)
    check(list(e) == [1], "orders %s are left", list(e))
    got = [(x[1], float(x[0])) for x in e[1]]
    check(got == [(a, float(b)) for a, b in zip(w, cs)], "unigrams %s, expected %s", got, list(zip(w, cs)))
    ok, again = tool("prune_lm.py", [], out)
    check(ok and read_arpa(again) == e, "pruning again changes the model")
    return t
def do_unigram(c):
    w, cs, t = model_text(c)
    ids = {"<eps>": 0}
    for i, x in enumerate(sorted(w, key=lambda s: (sum(s.encode()) + c[1]) % 5)): ids[x] = i * (1 + c[3]) + 1
    if c[4]: ids.pop("<unk>", None)
    top = max(ids.values()) + 1
    if c[5]: ids["zz"] = top; top += 1
    vocab = "".join("%s%s%d\n" % (k, " " if c[3] else "\t", v) for k, v in ids.items())
    want = [math.inf] * top
    for x, p in zip(w, cs):
        if x in ids: want[ids[x]] = -float(p) * math.log(10)
    want[ids["<s>"]] = 0.0
    t = t.replace("iARPA\n", "")
    outs = []
    for text in (t, tool("prune_lm.py", [], t)[1]):
        dst = fresh("uni"); ok, out = tool("convert_unigram.py", [put("lm.arpa", text), put("vocab", vocab), dst])
        check(ok, "a well-formed model is refused: %s", out[-200:])
        b = Bin(get(dst)); g = b.vec(); b.end()
        check(len(g) == top and all(near(x, y) for x, y in zip(g, want)), "costs %s, expected %s", g, want)
        check([unhex(x) for x in Reader.ask("vecf " + dst).split()] == g, "the loader reads other values")
        outs.append(get(dst))
    check(outs[0] == outs[1], "pruning changes the costs")
    return t
def damaged():
    for c in [((0,), 1, 0, 0, 0, 1), ((0, 1), 2, 2, 1, 1, 1)]:
        n = len(model_text(c)[2].rstrip("\n").split("\n"))
        for k in range(n): yield (c, k)
def do_damaged(c):
    """a model without its end is refused"""
    w, cs, t = model_text(c[0]); lines = t.rstrip("\n").split("\n")
    cut = "\n".join(lines[:c[1]]) + "\n"
    ok, out = tool("prune_lm.py", [], cut)
    check(not ok, "a model cut after %d of %d lines is accepted", c[1], len(lines))
    ok, out = tool("convert_unigram.py", [put("lm.arpa", cut), put("vocab", "<eps> 0\n<s> 1\n</s> 2\na 3\ncaf\u00e9 4\n"), fresh("uni")])
    check(not ok, "a model cut after %d of %d lines is converted", c[1], len(lines))
    return cut


# ---- language model automata -----------------------------------------------
def fsts():
    fin = (math.inf, 0.0, 1.5)
    for n in (1, 2) if Q else (1, 2, 3):
        for f in itertools.product(fin, repeat=n):
            arcs = [(s, d, il, ol) for s in range(n) for d in range(n) for il, ol in ((0, 0), (1, 1), (3, 2))]
            for k in range(0, 4 if n == 1 or not Q else 3):
                for a in itertools.permutations(range(len(arcs)), k):
                    for start in range(n):
                        yield (f, tuple(arcs[i] for i in a), start)
def do_fsts(c):
    f, arcs, start = c
    a = [x + ([0.5, -1.25, 3e-07, 100.0, 0.1][(i + x[0] + x[2]) % 5],) for i, x in enumerate(arcs)]
    FakeFst.table["in"] = {"start": start, "finals": list(f), "arcs": a}
    dst = fresh("fst")
    for args in ([], ["binary"]):
        ok, out = tool("convert_fstfmt.py", ["in", dst] + args)
        check(ok, "an automaton is refused: %s", out[-200:])
        want = sorted(a, key=lambda x: (x[0], x[2]))
        b = Bin(get(dst)); b.tag(b"pk::fst_0".ljust(32, b"\0"))
        size, ns, na, st = b.i(), b.i(), b.i(), b.i()
        check((size, ns, na, st) == (12 + 8 * len(f) + 16 * len(a), len(f), len(a), start), "header %s", (size, ns, na, st))
        fs = [b.f() for _ in f]; check(all(same(x, y) for x, y in zip(fs, f)), "final weights %s, expected %s", fs, f)
        ix = [b.i() for _ in f]; got = [(b.i(), b.i(), b.i(), b.f()) for _ in a]; b.end()
        r = Reader.ask("lm %s %d" % (dst, len(f))).replace("|", " | ").split()
        check(int(r[0]) == start, "the loader reads start state %s", r[0]); p = 1
        for s in range(len(f)):
            check(same(unhex(r[p]), f[s]), "the loader reads final weight %s of state %d", unhex(r[p]), s); p += 1
            mine, prev = [], -1
            while r[p] != "|":
                d, il, ol = (int(x) for x in r[p].split(":")); mine.append((s, d, il, ol, unhex(r[p + 1]))); p += 2
                check(il >= prev, "the arcs of state %d are not sorted", s); prev = il
            exp = [x for x in a if x[0] == s]
            key = lambda x: x[:4] + (F32(x[4]),)
            check(sorted(map(key, mine)) == sorted(map(key, exp)), "the loader reads arcs %s of state %d, expected %s", mine, s, exp); p += 1
    return repr(c)
def usage():
    for t in ("convert_am.py", "convert_cmvn_stats.py", "convert_trans.py", "convert_unigram.py"):
        yield (t,)
def do_usage(c):
    ok, out = tool(c[0], [path("none"), path("none2"), path("none3")][:3 if "unigram" in c[0] else 2])
    check(not ok, "%s accepts a file that does not exist", c[0])
    ok, out = tool(c[0], []); check(not ok, "%s accepts no arguments", c[0])
    return c[0]


SCENARIOS = [
    ("am-stacks", "all acoustic models of up to %d components out of 7, 2 input dimensions" % (3 if Q else 5), am_stacks, do_am_stacks),
    ("am-offsets", "all splices of up to 3 offsets in -3..3 x 4 spellings", am_offsets, do_am_offsets),
    ("am-values", "29 notations of numbers at every position", am_values, do_am_values),
    ("am-norm", "batch normalization: 8 x 6 x 5 x 5 parameters", am_norm, do_am_norm),
    ("am-priors", "priors of 1 to 8 values", am_priors, do_am_priors),
    ("cmvn", "24 notations at %s positions x 3 layouts" % ("7" if Q else "all"), cmvn, do_cmvn),
    ("cmvn-counts", "statistics of 0 to 89 numbers", cmvn_counts, do_cmvn_counts),
    ("trans", "all maps of up to %d transition ids to 4 pdfs in every order" % (3 if Q else 5), trans, do_trans),
    ("prune", "all models of up to %d words out of 8, orders 1-3, 8 headers" % (3 if Q else 5), models, do_prune),
    ("unigram", "the same models converted, pruned and not", models, do_unigram),
    ("cut", "models cut after every line", damaged, do_damaged),
    ("fst", "all automata of up to %d states and 2 (3) arcs in every order" % (2 if Q else 3), fsts, do_fsts),
    ("usage", "missing files and arguments", usage, do_usage),
]


def work(job):
    k, w, n = job
    name, _, gen, do = SCENARIOS[k]
    seen, cnt, samples = set(), 0, []
    for i, c in enumerate(gen()):
        if i % n != w: continue
        cnt += 1
        try:
            t = do(c)
        except Bad as e:
            return k, cnt, seen, samples, (repr(c), str(e)), i
        h = hash(t); seen.add(h)
        if len(samples) < 1: samples.append("%r" % (c,))
    return k, cnt, seen, samples, None, -1


def main():
    if len(sys.argv) > 7:
        for name, _, gen, do in SCENARIOS:
            if name == sys.argv[6]:
                try:
                    do(eval(sys.argv[7], {"inf": math.inf}))
                except Bad as e:
                    print("REPRODUCED:", e); return 1
                print("did not fail"); return 0
        return 2
    res, n = [], 8
    with multiprocessing.get_context("fork").Pool(n, maxtasksperchild=None) as pool:
        for k, (name, bounds, gen, do) in enumerate(SCENARIOS):
            t0 = time.time()
            rs = pool.map(work, [(k, w, n) for w in range(n)], chunksize=1)
            seen = set().union(*[r[2] for r in rs])
            bad = sorted([(r[5], r[4]) for r in rs if r[4]])
            res.append(dict(scenario=name, bounds=bounds, execs=sum(r[1] for r in rs), states=len(seen), samples=[s for r in rs for s in r[3]][:3],
                            bad=bad[0][1] if bad else None, wall=round(time.time() - t0, 3)))
            sys.stderr.write("  %-20s execs=%d states=%d %.1fs %s\n" % (name, res[-1]["execs"], len(seen), res[-1]["wall"], "VIOLATED " + str(bad[0][1]) if bad else ""))
            if bad: break
    with open(OUT, "w") as f:
        json.dump(res, f)
    return 0


sys.exit(main())
