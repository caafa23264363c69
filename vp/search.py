"""Search for failing inputs: runs the real code on generated inputs and compares with the oracle.
usage (worker): search.py EXECUTOR PROPERTY SEED SHARD NSHARDS SECONDS HINTS.json"""
import itertools, json, os, random, re, sys, time, math, struct
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fractions import Fraction as Q
import mpmath
from mpmath import mpf
from executor import Executor, parse, fmt
import oracle as O
from oracle import V, Undef, Unknown, Bad

U64 = 2 ** 64 - 1
I64 = 2 ** 63 - 1


class Found(Exception):
    def __init__(self, cmd, got, want):
        self.cmd, self.got, self.want = cmd, got, want


class Skip(Exception):
    pass


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, hints):
        self.r = rng
        self.ops = [o for o in hints.get("ops", []) if o in O.SYMBOL]
        self.lits = [n for n in hints.get("new_ints", [])][:40]
        self.flits = hints.get("new_floats", [])[:10]
        self.names = [s for s in hints.get("new_names", []) if s not in ("x", "y")][:10]
        self.old = hints.get("ints", [])
        self.ints0 = [0, 1, -1, 2, 3, -2]
        near = sorted({v for n in self.lits for v in (n, n - 1, n + 1, -n, n * 2) if -I64 <= v <= I64}, key=abs)
        self.near = near
        self.uints = sorted({v for n in self.lits for v in (n - 1, n, n + 1, 2 * n) if 0 <= v <= U64})
        self.base_names = ["x", "y"] + self.names + ["theta", "z1"]
        self.only = None

    # numbers
    def uint(self):
        r = self.r
        k = r.random()
        if self.uints and k < 0.25:
            return r.choice(self.uints)
        if k < 0.6:
            return r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 30, 36])
        if k < 0.75:
            return r.randrange(0, 1000)
        if k < 0.9:
            return r.randrange(0, 2 ** r.choice([10, 20, 31, 32, 33, 40, 62, 63, 64]))
        return r.choice([2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 62, I64, I64 + 1, U64, U64 - 1])

    def int_(self):
        r = self.r
        k = r.random()
        if self.near and k < 0.25:
            return r.choice(self.near)
        if k < 0.7:
            return r.choice([0, 1, -1, 2, -2, 3, -3, 4, 5, 6, -7, 10])
        if k < 0.9:
            return r.randrange(-200, 200)
        if k < 0.97:
            return r.randrange(-2 ** 33, 2 ** 33)
        return r.choice([I64, -I64, -I64 - 1, 2 ** 31, -2 ** 31, 2 ** 32])

    def float_(self):
        r = self.r
        k = r.random()
        if self.flits and k < 0.2:
            return r.choice(self.flits) * r.choice([1, -1])
        return r.choice([0.5, -0.5, 2.0, 1.0, 0.0, -1.0, 0.25, 3.5, -2.75, 1e-3, 100.5, round(r.uniform(-10, 10), 3)])

    def num(self, floats=True):
        r = self.r
        k = r.random()
        if k < 0.5:
            return ["i", str(self.int_())]
        if k < 0.8:
            d = self.uint()
            return ["q", r.choice(["1", "-1"]), str(self.uint()), str(d if d else 1)]
        if not floats:
            return r.choice(["zero", "one", ["i", str(self.int_())]])
        if k < 0.85:
            return ["f", O.f64_bits(self.float_())]
        if k < 0.87:
            return ["w", str(self.uint())]
        return r.choice(["pi", "e", "zero", "one"])

    def numop(self, depth, floats=True):
        r = self.r
        if depth <= 0 or r.random() < 0.3:
            return self.num(floats)
        if r.random() < 0.15:
            return ["neg", self.numop(depth - 1, floats)]
        return [r.choice("+-*/"), self.numop(depth - 1, floats), self.numop(depth - 1, floats)]

    def var(self):
        r = self.r
        if self.names and r.random() < 0.4:
            return ["v", r.choice(self.names)]
        return ["v", r.choice(["x", "x", "x", "x", "y", "y", "y", "theta", "z1", "Beta", "x_2"])]

    def small(self):
        """leaves for the exhaustive part"""
        base = [["v", "x"], ["i", "0"], ["i", "1"], ["i", "2"], ["v", "y"], ["i", "-1"], ["i", "3"], ["i", "-2"], ["q", "1", "1", "2"], ["q", "-1", "2", "3"], "pi", "e",
                ["f", O.f64_bits(0.5)], ["f", O.f64_bits(0.0)], ["f", O.f64_bits(1.0)], ["f", O.f64_bits(-2.0)], ["q", "1", "3", "3"], ["q", "-1", "0", "4"], ["q", "1", "4", "2"], "zero", "one"]
        return base + [["i", str(n)] for n in self.near[:12]] + [["v", n] for n in self.names[:4]]

    def leaf(self, floats=True):
        return self.num(floats) if self.r.random() < 0.5 else self.var()

    def term(self, size, ops=None, leaf=None):
        r = self.r
        leaf = leaf or self.leaf
        if size <= 1:
            return leaf()
        allops = ops or (O.UN + O.BIN + ("Add", "Mul"))
        pref = [o for o in self.ops if o in allops]
        op = r.choice(pref) if pref and r.random() < 0.4 else r.choice(allops)
        if op in O.UN:
            return [op, self.term(size - 1, ops, leaf)]
        k = r.randrange(1, size) if size > 2 else 1
        return [op, self.term(k, ops, leaf), self.term(max(1, size - 1 - k), ops, leaf)]

    def terms(self, ops=None, leaves=None, maxsize=11, leaf=None):
        """first every small term, then random ones"""
        ops = ops or (O.UN + O.BIN)
        L = leaves if leaves is not None else self.small()
        yield from L
        un = [o for o in ops if o in O.UN]
        bi = [o for o in ops if o in O.BIN]
        S1 = L[:6]
        for o in un:
            for a in L:
                yield [o, a]
        for o in bi:
            for a in L:
                for b in L:
                    yield [o, a, b]
        # two levels over few leaves
        T = [[o, a] for o in un for a in S1] + [[o, a, b] for o in bi for a in S1[:4] for b in S1[:4]]
        for o in un:
            for t in T:
                yield [o, t]
        Tr = list(T)
        self.r.shuffle(Tr)
        for o in bi:
            for t in Tr[:120]:
                for a in S1[:4]:
                    yield [o, t, a]
                    yield [o, a, t]
        n = 2
        while True:
            yield self.term(self.r.randrange(2, n + 2), ops, leaf)
            n = min(maxsize, n + 0.002)
            n = n if isinstance(n, int) else n
            if not isinstance(n, int):
                n = int(n) if self.r.random() < 0.9995 else min(maxsize, int(n) + 1)


def envs(rng, names, k=4, positive=False):
    out = []
    fixed = [Q(2), Q(-1), Q(1, 2), Q(3)]
    for i in range(k):
        e = {}
        for j, n in enumerate(sorted(names)):
            q = (Q(7, 5) + j) if i == 0 else Q(rng.randrange(-30, 31), rng.choice([1, 2, 3, 7])) if i > 1 else [Q(-2, 3), Q(0), Q(1), Q(-1), Q(5, 4)][rng.randrange(5)]
            if positive:
                q = abs(q) + Q(1, 3)
            e[n] = V(q)
        out.append(e)
    return out


# variables that are easy to mistake for one another; every case of the search is run under some naming
def enc(n):
    return "%" if not n else "".join(chr(c) if chr(c).isalnum() and c < 128 or c == 95 else "%%%02X" % c for c in n.encode())


NAMINGS = [{}] * 12 + [dict(zip(("x", "y", "a"), map(enc, t))) for t in (
    ("x", "X", "A"), ("X", "x", "a"), ("x", "x1", "x2"), ("x1", "x", "x11"), ("x", " x", "x "), (" x", "y ", " a"), ("x ", "x", "\tx"), ("x", "xx", "xxx"), ("xx", "x", "ax"),
    ("ab", "ba", "a"), ("ab", "cb", "c"), ("abc", "abd", "xbc"), ("", "x", "y"), ("x", "", " "), ("\u00e9", "e", "\u00e8"), ("pi", "e", "i"), ("sin", "ln", "x"), ("0", "1", "-1"),
    ("-x", "x", "+x"), ("u_1", "u_2", "u_"), ("longvariablename1", "longvariablename2", "longvariablename"), ("x", "\u0445", "y"), ("(x)", "x", "x + 1"), ("x'", "x", "x''"), ("y", "x", "b"))]


# ------------------------------------------------------------------ running
class Run:
    def __init__(self, ex, rng, hints):
        self.ex = ex
        self.rng = rng
        self.g = Gen(rng, hints)
        self.n = 0
        self.ok = 0
        self.distinct = set()
        self.samples = []
        self.ren = {}

    def named(self, cmd):
        return cmd if cmd.startswith(("text", "taylortext", "limtext")) else re.sub(r"\(v ([^ ()]+)\)", lambda m: "(v %s)" % self.ren.get(m.group(1), m.group(1)), cmd)

    def run(self, cmd, timeout=4.0):
        """result text; Skip for a permitted abort; Found for any other abort"""
        self.n += 1
        plain = cmd.startswith(("text", "taylortext", "limtext"))
        r = self.ex.run(cmd if plain else self.named(cmd), timeout)
        if not plain and self.ren:
            back = {v: k for k, v in self.ren.items()}
            r = re.sub(r"\(v ([^ ()]+)\)", lambda m: "(v %s)" % back.get(m.group(1), m.group(1) if m.group(1) not in self.ren else "?" + m.group(1)), r)
        if r.startswith("!"):
            if r.startswith("!panic") and "overflow" in r:
                raise Skip()
            if r.startswith("!panic bad command"):
                raise RuntimeError("bad command " + cmd)
            raise Found(cmd, r[1:], "a result (only integer overflow may abort)")
        return r

    def good(self, cmd):
        self.ok += 1
        if len(self.distinct) < 200000:
            self.distinct.add(hash(cmd))
        if len(self.samples) < 6 or (self.ok % 997 == 0 and len(self.samples) < 12):
            self.samples.append(cmd[:200])


def want(c, cmd, got, expected):
    if not c:
        raise Found(cmd, got, expected)


def dump(r):
    return parse(r)[0]


def meaning_same(R, cmd, got, orig, res, k=4, names=()):
    """res must have the value of orig wherever orig is defined"""
    nm = O.tvars(orig) | O.tvars(res) | set(names)
    seen = False
    for env in envs(R.rng, nm, k if nm else 1):
        try:
            a = O.ev(orig, env)
        except (Undef, Unknown):
            continue
        try:
            b = O.ev(res, env)
        except Unknown:
            continue
        except Undef:
            raise Found(cmd, got, "a value at %s (the original has the value %r, the result has none)" % (env, a))
        except KeyError as e:
            raise Found(cmd, got, "no variable %s" % e)
        except Bad as e:
            raise Found(cmd, got, "a valid expression: %s" % e)
        seen = True
        want(O.same(a, b), cmd, got, "the value %r at %s, but the result has the value %r" % (a, env, b))
    return seen


def unop(d):
    """dump -> term without well-formedness checks (used where the property at hand is another one)"""
    if isinstance(d, str):
        raise Skip()
    if d[0] == "op":
        b = d[3]
        if len(b) != (2 if b[0] in O.UN else 3):
            raise Skip()
        return [b[0]] + [unop(c) for c in b[1:]]
    if d[0] == "bad":
        raise Skip()
    return d


# ------------------------------------------------------------------ properties
def rat_pool(R):
    g = R.g

    def rq():
        return (R.rng.choice([1, -1]), g.uint(), max(1, g.uint()) if R.rng.random() < 0.97 else 0)
    small = [(s, n, d) for s in (1, -1) for n in (0, 1, 2, 3, 6) for d in (1, 2, 3, 6, 4)] + [(1, 1, 0), (-1, 0, 0)]
    return small, rq


def qv(t):
    return None if t[2] == 0 else Q(t[0] * t[1], t[2])


def show(t):
    return "(q %d %d %d)" % t


def c01(R):
    small, rq = rat_pool(R)
    def cases():
        for a in small:
            yield "neg", a, None
        for a in small:
            for b in small:
                for o in ("add", "sub", "mul", "div"):
                    yield o, a, b
        while True:
            o = R.rng.choice(["add", "sub", "mul", "div", "neg"])
            a, b = rq(), rq()
            if R.rng.random() < 0.2:
                b = R.rng.choice([a, (-a[0], a[1], a[2]), (a[0], b[1], a[2]), (b[0], a[2], max(1, a[1]))])
            yield o, a, b
    for o, a, b in cases():
        cmd = "rat %s %s" % (o, show(a)) + (" " + show(b) if b else "")
        def one():
            got = R.run(cmd)
            s, n, d = map(int, dump(got)[1:])
            want(s in (1, -1), cmd, got, "sign +1 or -1")
            x, y = qv(a), qv(b) if b else None
            if o == "neg":
                if x is None:
                    want(d == 0, cmd, got, "an undefined fraction")
                    return
                e = -x
            else:
                if o == "div":
                    if x is None or y is None:
                        return
                    e = x / y if y != 0 else None
                else:
                    e = None if x is None or y is None else x + y if o == "add" else x - y if o == "sub" else x * y
                if e is None:
                    want(d == 0, cmd, got, "no ordinary number")
                    return
            want(d != 0 and Q(s * n, d) == e, cmd, got, "the value %s" % e)
            if o != "neg":
                want(math.gcd(n, d) == 1, cmd, got, "lowest terms")
            R.good(cmd)
        yield one


def c02(R):
    small, rq = rat_pool(R)
    def cases():
        for a in small:
            yield "reduce", a, None
            for b in small:
                yield "eq", a, b
        for s in (1, -1, 0, 2, -2):
            for n in (0, 1, 4, 6):
                for d in (0, 1, 4, 9):
                    yield "new", (s, n, d), None
                    yield "newpos", (s, n, d), None
                    yield "newneg", (s, n, d), None
        while True:
            k = R.rng.random()
            a, b = rq(), rq()
            if k < 0.3:
                m = R.rng.choice([1, 2, 3, 7, 12, 10 ** 6])
                if a[1] * m <= U64 and a[2] * m <= U64 and R.rng.random() < 0.7:
                    b = (a[0], a[1] * m, a[2] * m)
                    if R.rng.random() < 0.3:
                        b = (a[0], min(U64, b[1] + 1), b[2])
                yield "eq", a, b
            elif k < 0.5:
                yield "reduce", a, None
            elif k < 0.6:
                yield "u64", R.g.uint(), None
            elif k < 0.7:
                yield "i64", R.g.int_(), None
            else:
                yield R.rng.choice(["new", "newpos", "newneg"]), (R.rng.choice([1, -1, 1, -1, 0, 2, R.g.int_()]), a[1], a[2]), None
    for o, a, b in cases():
        if o in ("u64", "i64"):
            cmd = "rat %s %d" % (o, a)
        elif o == "new":
            cmd = "rat new %d %d %d" % a
        elif o in ("newpos", "newneg"):
            cmd = "rat %s %d %d" % (o, a[1], a[2])
        else:
            cmd = "rat %s %s" % (o, show(a)) + (" " + show(b) if b else "")
        def one():
            got = R.run(cmd)
            if o == "eq":
                x, y = qv(a), qv(b)
                if x is None or y is None:
                    return
                want(got == ("true" if x == y else "false"), cmd, got, str(x == y))
            elif o == "reduce":
                s, n, d = map(int, dump(got)[1:])
                want(s == a[0], cmd, got, "sign %d" % a[0])
                if a[2] == 0:
                    want(d == 0, cmd, got, "an undefined fraction")
                else:
                    want(d != 0 and Q(s * n, d) == qv(a) and math.gcd(n, d) == 1, cmd, got, "%s in lowest terms" % qv(a))
            elif o in ("u64", "i64"):
                s, n, d = map(int, dump(got)[1:])
                want(s in (1, -1) and d != 0 and Q(s * n, d) == a, cmd, got, "the value %d" % a)
            else:
                sg = a[0] if o == "new" else 1 if o == "newpos" else -1
                if sg in (1, -1) and a[2] != 0:
                    want(got.startswith("some"), cmd, got, "a fraction")
                    s, n, d = map(int, parse(got)[1][1:])
                    want(s in (1, -1) and d != 0 and Q(s * n, d) == Q(sg * a[1], a[2]), cmd, got, "the value %s" % Q(sg * a[1], a[2]))
                else:
                    want(got == "none", cmd, got, "none")
            R.good(cmd)
        yield one


def num_small(R):
    return [["i", "0"], ["i", "1"], ["i", "-1"], ["i", "2"], ["i", "-3"], ["q", "1", "1", "2"], ["q", "-1", "1", "2"], ["q", "1", "3", "3"], ["q", "-1", "0", "4"], ["q", "-1", "4", "2"], ["q", "1", "5", "3"],
            ["w", str(U64)], ["i", str(-I64 - 1)], ["i", str(I64)], "pi", "e", "zero", "one", ["f", O.f64_bits(0.5)], ["f", O.f64_bits(0.0)], ["f", O.f64_bits(1.0)], ["f", O.f64_bits(-2.5)], ["/", ["i", "6"], ["i", "3"]],
            ["-", ["q", "1", "1", "2"], ["q", "1", "1", "2"]], ["neg", ["q", "1", "0", "2"]]] + [["i", str(n)] for n in R.g.near[:8]]


def only_int(t):
    if isinstance(t, str):
        return t in ("zero", "one")
    return t[0] == "i"


def num_cases(R, floats=True):
    S = num_small(R)
    for a in S:
        yield ["neg", a]
    for a in S:
        for b in S:
            for o in "+-*/":
                yield [o, a, b]
    while True:
        yield R.g.numop(R.rng.choice([1, 1, 2, 2, 3, 4]), floats)


def c03(R):
    for t in num_cases(R):
        cmd = "num echo " + fmt(t)
        def one():
            got = R.run(cmd)
            d = dump(got)
            ex = O.num_exact(t)
            try:
                v = O.num_value(t)
            except Undef:
                if ex and isinstance(t, list) and t[0] == "/":
                    try:
                        O.num_value(t[1]); O.num_value(t[2])
                    except Undef:
                        return
                    want(d[0] == "q" and int(d[3]) == 0, cmd, got, "no ordinary number")
                return
            except Unknown:
                return
            if ex:
                want(d[0] in ("i", "q"), cmd, got, "an exact number")
            if d[0] == "q":
                want(int(d[3]) != 0 and int(d[1]) in (1, -1), cmd, got, "the value %r" % v)
            if isinstance(t, list) and t[0] in ("+", "-", "*", "neg") and all(only_int(x) for x in t[1:]):
                want(d[0] == "i", cmd, got, "an integer")
            try:
                w = O.num_value(d[:-1] if d[0] != "f" else ["f", d[1]])
            except (Unknown, Undef):
                return
            want(O.same(v, w), cmd, got, "the value %r" % v)
            R.good(cmd)
        yield one


def c04(R):
    consts = {"zero": "Z", "one": "O", "pi": "P", "e": "E"}
    def cases():
        for c in consts:
            yield c
            yield ["neg", c]
        for c in num_small(R):
            yield c
        yield from num_cases(R)
    for t in cases():
        cmd = "num echo " + fmt(t)
        def one():
            got = R.run(cmd)
            d = dump(got)
            try:
                O.check_num(d)
            except Bad as e:
                raise Found(cmd, got, "a classification that agrees with the value: %s" % e)
            if isinstance(t, str):
                want(consts[t] in d[-1], cmd, got, "classified as %s" % t)
                g2 = R.run("is " + t)
                exp = [False, True, True] + [c == consts[t] for c in "ZOPE"]
                want(g2 == " ".join(str(b).lower() for b in exp), "is " + t, g2, str(exp))
            try:
                v = O.num_value(d[:-1] if d[0] != "f" else ["f", d[1]])
                s = (0 if not O.nonzero(v) else 1 if O.positive(v) else -1)
            except (Unknown, Undef):
                return
            c2 = "num sign " + fmt(t)
            g2 = R.run(c2)
            want(g2 == str(s), c2, g2, "sign %d of %s" % (s, got))
            e2 = "is " + fmt(t)
            g3 = R.run(e2).split()
            f = ["Z" in d[-1], "O" in d[-1], "P" in d[-1], "E" in d[-1]]
            want(g3[3:] == [str(b).lower() for b in f], e2, " ".join(g3), "the classification of %s" % got)
            R.good(cmd)
        yield one


def c05(R):
    rng = R.rng
    ranges = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2 ** 32 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "u64": (0, U64), "i64": (-I64 - 1, I64)}
    def f64s():
        yield from [0.0, 1.0, -1.0, 0.5, 1e10, -3.25, 1e-10, math.pi, math.e]
        small = [abs(l) for l in R.g.flits if l] + [1e-3, 1e-6, 1e-9, 1e-12, 1e-14, 2.0 ** -52]
        for n in (1.0, 0.0, -1.0, 2.0, math.pi, math.e):
            for d in small[:12]:
                yield n + d * rng.choice([0.5, -0.5, 0.9, -0.9])
        while True:
            k = rng.random()
            if k < 0.5:
                yield rng.uniform(-1, 1) * 10 ** rng.randrange(-5, 12)
            elif k < 0.75:
                # next to a round number
                n = rng.choice([0.0, 0.5, 0.25, 1.0, 2.0, math.pi, math.e, float(R.g.int_()), float(rng.randrange(-1000, 1000)) / 8])
                yield n + rng.choice([1, -1]) * rng.choice([rng.choice(small), 10.0 ** rng.randrange(-17, 0)]) * rng.choice([0.5, 0.9, 1.0, 1.1, 2.0])
            else:
                x = struct.unpack(">d", struct.pack(">Q", rng.getrandbits(64)))[0]
                yield x if math.isfinite(x) else -0.0
    fs = f64s()
    def tol():
        return abs(rng.uniform(-1, 1) * 10 ** rng.randrange(-5, 12))
    def cases():
        for t, (lo, hi) in ranges.items():
            for v in (lo, lo + 1, 0, 1, 2, 7, hi - 1, hi):
                yield "int", t, v
        S = num_small(R)
        for _ in range(80):
            yield "float", "f64", next(fs)
        for a in S:
            yield "ops", a, None
        for a in S[:14]:
            for b in S[:14]:
                for e in (0.1, 1.0, 2.5):
                    yield "close", (a, b), e
        for a in R.g.small()[:8] + [["Add", ["v", "x"], ["i", "1"]], ["Neg", ["i", "2"]], ["Sin", ["i", "0"]]]:
            yield "expr", a, None
            for b in R.g.small()[:8]:
                yield "near", (a, b), 0.5
        while True:
            k = rng.random()
            if k < 0.2:
                t = rng.choice(list(ranges))
                lo, hi = ranges[t]
                v = rng.choice([rng.randrange(lo, hi + 1), max(lo, min(hi, R.g.int_())), max(lo, min(hi, R.g.uint()))])
                yield "int", t, v
            elif k < 0.3:
                x = next(fs)
                yield "float", rng.choice(["f64", "f32"]) if abs(x) < 1e38 else "f64", x
            elif k < 0.5:
                yield "ops", R.g.numop(2), None
            elif k < 0.65:
                yield "close", (R.g.numop(1), R.g.numop(1)), tol()
            elif k < 0.8:
                yield "expr", R.g.term(rng.randrange(1, 4)), None
            elif k < 0.9:
                yield "near", (R.g.leaf() if rng.random() < 0.1 else R.g.num(), R.g.leaf() if rng.random() < 0.1 else R.g.num()), tol()
            else:
                yield "new", (rng.choice([1, -1, 1, -1, 0, 2]), R.g.uint(), R.g.uint()), None
    for k, a, b in cases():
        def one():
            if k == "int":
                cmd = "num %s %d" % (a, b)
                got = R.run(cmd)
                d = dump(got)
                try:
                    want(d[0] in "iq" and O.num_value(d[:-1]).q == b, cmd, got, "the value %d" % b)
                except Undef:
                    raise Found(cmd, got, "the value %d" % b)
            elif k == "float":
                x = b
                if a == "f32":
                    h = "%x" % struct.unpack(">I", struct.pack(">f", b))[0]
                    x = struct.unpack(">f", struct.pack(">f", b))[0]
                else:
                    h = O.f64_bits(b)
                cmd = "num %s %s" % (a, h)
                got = R.run(cmd)
                d = dump(got)
                want(d[0] == "f" and d[1] == O.f64_bits(x), cmd, got, "the value %r" % x)
            elif k == "new":
                cmd = "num new %d %d %d" % a
                got = R.run(cmd)
                if a[0] in (1, -1) and a[2] != 0:
                    want(got.startswith("some"), cmd, got, "a number")
                    d = parse(got)[1]
                    want(O.num_value(d[:-1]).q == Q(a[0] * a[1], a[2]), cmd, got, "the value %s" % Q(a[0] * a[1], a[2]))
                else:
                    want(got == "none", cmd, got, "none")
            elif k == "ops":
                t = fmt(a)
                d = dump(R.run("num echo " + t))
                ex = d[0] != "f"
                try:
                    v = O.num_value(d[:-1] if ex else ["f", d[1]])
                except (Unknown, Undef, Bad):
                    return
                for c in ("ratof", "ratofr"):
                    cmd = "num %s %s" % (c, t)
                    got = R.run(cmd)
                    want(got.startswith("some") == ex, cmd, got, "a fraction exactly for exact numbers")
                    if ex:
                        x = parse(got)[1]
                        want(int(x[3]) != 0 and int(x[1]) in (1, -1) and Q(int(x[1]) * int(x[2]), int(x[3])) == v.q, cmd, got, "the value %s" % v.q)
                cmd = "num i64of " + t
                got = R.run(cmd)
                if d[0] == "i":
                    want(got == "some " + d[1], cmd, got, d[1])
                else:
                    want(got == "none", cmd, got, "none")
                cmd = "num f64of " + t
                got = R.run(cmd)
                x = O.bits_f64(got)
                if not ex:
                    want(got == d[1], cmd, got, d[1])
                elif abs(v.m) < mpf(10) ** 300:
                    want(x == x and abs(mpf(x) - v.m) <= abs(v.m) * O.EPS, cmd, got, "%r" % v)
            elif k == "close":
                x, y = a
                cmd = "num close %s %s %s" % (fmt(x), fmt(y), O.f64_bits(b))
                got = R.run(cmd)
                try:
                    v, w = O.num_value(x), O.num_value(y)
                    df = O.vsub(v.approx(), w.approx())
                except (Undef, Unknown):
                    return
                g = abs(abs(df.m) - mpf(b))
                if g <= 1000 * df.e + O.TINY:
                    if not (v.q is not None and w.q is not None and Q(b).denominator < 2 ** 20 and max(abs(v.q.numerator), abs(w.q.numerator), v.q.denominator, w.q.denominator) < 2 ** 20 and all((q.denominator & (q.denominator - 1)) == 0 for q in (v.q, w.q))):
                        return
                    exp = abs(v.q - w.q) < Q(b)
                else:
                    exp = abs(df.m) < b
                e = str(exp).lower()
                want(got == e + " " + e, cmd, got, e)
            elif k == "near":
                x, y = a
                cmd = "near %s %s %s" % (fmt(x), fmt(y), O.f64_bits(b))
                got = R.run(cmd)
                isn = O.is_num_term(x) and O.is_num_term(y)
                want(got.startswith("ok") == isn, cmd, got, "ok exactly for two numbers")
                if isn:
                    try:
                        v, w = O.num_value(x), O.num_value(y)
                        df = O.vsub(v.approx(), w.approx())
                    except (Undef, Unknown):
                        return
                    if abs(abs(df.m) - mpf(b)) <= 1000 * df.e + O.TINY:
                        return
                    want(got == "ok " + str(bool(abs(df.m) < b)).lower(), cmd, got, str(abs(df.m) < b))
            elif k == "expr":
                isn = O.is_num_term(a)
                cmd = "tonum " + fmt(a)
                got = R.run(cmd)
                if isn:
                    d = R.run("num echo " + fmt(a))
                    want(got == "ok %s ok %s" % (d, d), cmd, got, "ok " + d)
                else:
                    want(got == "err err", cmd, got, "err")
                cmd = "torat " + fmt(a)
                got = R.run(cmd)
                if isn and O.num_exact(a):
                    p = parse(got)
                    want(p[0] == "some" and p[2] == "some", cmd, got, "a fraction")
                    try:
                        v = O.num_value(a)
                    except (Undef, Unknown):
                        return
                    for x in (p[1], p[3]):
                        want(int(x[3]) != 0 and Q(int(x[1]) * int(x[2]), int(x[3])) == v.q, cmd, got, "the value %s" % v.q)
                else:
                    want(got == "none none", cmd, got, "none")
            R.good("%s %s %s" % (k, a, b))
        yield one


def c06(R):
    for t in R.g.terms():
        cmd = "agg " + fmt(t)
        def one():
            got = R.run(cmd)
            if meaning_same(R, cmd, got, t, unop(dump(got))):
                R.good(cmd)
        yield one


def c07(R):
    L = [["i", "0"], ["i", "1"], ["i", "2"], ["i", "-1"], ["i", "-2"], ["i", "3"], ["q", "1", "1", "2"], ["q", "-1", "1", "3"], ["q", "-1", "0", "2"], ["q", "1", "4", "4"], "zero", "one", ["i", "7"]] + [["i", str(n)] for n in R.g.near[:8]]
    for t in R.g.terms(("Neg", "Add", "Sub", "Mul", "Div"), L, 15, lambda: R.g.num(False)):
        cmd = "agg " + fmt(t)
        def one():
            got = R.run(cmd)
            try:
                v = O.ev(t, {})
            except (Undef, Unknown):
                return
            d = dump(got)
            want(d[0] in ("i", "q"), cmd, got, "the exact number %s" % v.q)
            want(not (d[0] == "q" and int(d[3]) == 0) and O.num_value(d[:-1]).q == v.q, cmd, got, "the exact number %s" % v.q)
            R.good(cmd)
        yield one


def c08(R):
    for i, t in enumerate(R.g.terms(maxsize=9)):
        x = R.rng.choice(["x", "x", "y"] + R.g.names)
        form = ("own", "ref", "var")[i % 3]
        cmd = "deriv %s %s (v %s)" % (form, fmt(t), x)
        def one():
            got = R.run(cmd)
            want(got.startswith("ok "), cmd, got, "a derivative")
            d = unop(dump(got[3:]))
            nm = O.tvars(t) | O.tvars(d) | {x}
            seen = False
            for k, env in enumerate(envs(R.rng, nm, 4) + envs(R.rng, nm, 2, True)):
                try:
                    v, dv = O.dual(t, x, env)
                except (Undef, Unknown):
                    continue
                try:
                    w = O.ev(d, env)
                except Unknown:
                    continue
                except Undef:
                    raise Found(cmd, got, "the derivative %r at %s, but the result has no value there" % (dv, env))
                seen = True
                want(O.same(dv, w), cmd, got, "the derivative %r at %s, but the result has the value %r" % (dv, env, w))
            if seen:
                R.good(cmd)
        yield one


def c09(R):
    for i, t in enumerate(R.g.terms(maxsize=6)):
        u = R.g.term(R.rng.randrange(1, 4)) if i % 2 else R.g.leaf()
        isv = isinstance(u, list) and u[0] == "v"
        a, b = fmt(t), fmt(u)
        cmds = ["deriv own %s %s" % (a, b), "deriv ref %s %s" % (a, b), "subst own %s %s (i 2)" % (a, b), "subst ref %s %s (v x)" % (a, b), "taylor own %s %s (i 1) %d" % (a, b, R.rng.randrange(0, 3))]
        if not isv:
            cmds.append("limit own %s %s (i 1) 1" % (a, b))
        cmd = R.rng.choice(cmds)
        def one():
            got = R.run(cmd)
            want(got.startswith("ok") == isv, cmd, got[:200], "success exactly for a variable as the target")
            R.good(cmd)
        yield one


def gsubst(t, x, h):
    if O.is_num_term(t):
        return t
    if t[0] == "v":
        return h if t[1] == x else t
    return [t[0]] + [gsubst(c, x, h) for c in t[1:]]


def struct_eq(a, b):
    """input term a, dumped term b: same structure, equal numbers"""
    if O.is_num_term(a):
        if not (isinstance(b, list) and b[0] in ("i", "q", "f")):
            return False
        if O.num_exact(a) != (b[0] != "f"):
            return False
        try:
            va = O.num_value(a)
        except Undef:
            return b[0] == "q" and b[3] == "0"
        except Unknown:
            return True
        try:
            return O.same(va, O.num_value(b[:-1] if b[0] != "f" else ["f", b[1]]))
        except Undef:
            return False
        except Unknown:
            return True
    if not isinstance(b, list) or b[0] != a[0] or len(a) != len(b):
        return False
    if a[0] == "v":
        return a[1] == b[1]
    return all(struct_eq(x, y) for x, y in zip(a[1:], b[1:]))


def c10(R):
    for i, t in enumerate(R.g.terms(maxsize=12)):
        x = R.rng.choice(["x", "x", "x", "y"] + R.g.names)
        h = R.g.term(R.rng.randrange(1, 4))
        form = ("own", "ref", "var")[i % 3]
        cmd = "subst %s %s (v %s) %s" % (form, fmt(t), x, fmt(h))
        def one():
            got = R.run(cmd)
            want(got.startswith("ok "), cmd, got, "a result")
            want(struct_eq(gsubst(t, x, h), unop(dump(got[3:]))), cmd, got, fmt(gsubst(t, x, h)))
            R.good(cmd)
        yield one


def has_undef(t):
    if isinstance(t, list) and t[0] == "q":
        return t[3] == "0"
    return isinstance(t, list) and any(has_undef(c) for c in t[1:])


def c11(R):
    def leaf():
        return R.g.num() if R.rng.random() < 0.35 else ["v", "x"] if R.rng.random() < 0.8 else ["v", "y"]
    L = [["v", "x"], ["i", "1"], ["i", "2"], ["v", "y"], ["i", "0"], ["i", "-1"], ["q", "1", "1", "2"], "pi"]
    for i, t in enumerate(R.g.terms(leaves=L, maxsize=6, leaf=leaf)):
        x = R.rng.choice(["x", "x", "x", "y"])
        at = R.rng.choice([["i", "0"], ["i", "1"], ["i", "2"], ["i", "-1"], ["q", "1", "1", "2"], ["v", "a"], ["v", "y"], "pi", ["Add", ["v", "a"], ["i", "1"]], R.g.num(False)])
        n = R.rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5]) if R.rng.random() < 0.9 else R.rng.choice([6, 8, 10, 12, 20, 21, 22, 25, 34])
        for lit in R.g.lits:
            if 0 <= lit <= 20 and R.rng.random() < 0.3:
                n = int(lit) + R.rng.choice([0, 1])
        if n > 4:
            t = R.rng.choice([["Sin", ["v", x]], ["Exp", ["v", x]], ["Cos", ["v", x]], ["v", x], ["Neg", ["v", x]], ["Pow", ["v", x], ["i", str(n)]]])
        form = ("own", "var")[i % 2]
        cmd = "taylor %s %s (v %s) %s %d" % (form, fmt(t), x, fmt(at), n)
        text = "taylortext %s (v %s) %s %d" % (fmt(t), x, fmt(at), n)
        def one():
            got = R.run(cmd)
            want(got.startswith("ok "), cmd, got[:300], "an expansion")
            p = dump(got[3:])
            want(int(p[0]) == n, cmd, got[:300], "order %d" % n)
            want(p[1] == ["v", x], cmd, got[:300], "variable %s" % x)
            want(struct_eq(at, unop(p[2])), cmd, got[:300], "point %s" % fmt(at))
            want(len(p[3]) == n + 1, cmd, got[:300], "%d coefficients" % (n + 1))
            cs = [unop(c) for c in p[3]]
            allowed = (O.tvars(t) - {x}) | O.tvars(at)
            for c in cs:
                want(O.tvars(c) <= allowed, cmd, fmt(c), "no variable but %s" % sorted(allowed))
            res = unop(p[4])
            names = O.tvars(t) | O.tvars(at) | {x}
            coef_vals = []
            for env in envs(R.rng, names, 2) + envs(R.rng, names, 1, True):
                d = t
                try:
                    a = O.ev(at, env)
                except (Undef, Unknown):
                    continue
                env2 = dict(env)
                env2[x] = a
                f = Q(1)
                whole = True
                for k in range(n + 1):
                    if k:
                        f *= k
                    try:
                        O.dual(d, x, env2)
                        v = O.vdiv(O.ev(d, env2), V(f))
                    except (Undef, Unknown):
                        whole = False
                        break
                    try:
                        w = O.ev(cs[k], env)
                        want(O.same(v, w), cmd, "coefficient %d: %s" % (k, fmt(cs[k])), "the value %r at %s" % (v, env))
                    except Unknown:
                        pass
                    except Undef:
                        if O.positive_bases(d, env2):
                            raise Found(cmd, "coefficient %d: %s" % (k, fmt(cs[k])), "the value %r at %s" % (v, env))
                    d = O.sdiff(d, x)
                # the residual, at a general point
                try:
                    d = t
                    for k in range(n + 1):
                        O.dual(d, x, env)
                        d = O.sdiff(d, x)
                    v = O.ev(d, env)
                    w = O.ev(res, env)
                    want(O.same(v, w), cmd, "residual %s" % fmt(res)[:300], "the value %r at %s" % (v, env))
                except (Undef, Unknown):
                    pass
            # the printed form
            if any(has_float(c) or has_undef(c) for c in cs + [at]):
                R.good(cmd)
                return
            got = R.run(text)
            s = got[5:]
            m = re.match(r"^(.*)O\((.*)\)$", s)
            want(m is not None, text, got[:300], "terms and O(...)")
            body = m.group(1)
            if body:
                want(body.endswith(" + "), text, got[:300], "terms joined by +")
                body = body[:-3]
            try:
                r = O.read_text(body, names) if body else ["i", "0"]
                rem = O.read_text(m.group(2), names)
            except Bad as e:
                raise Found(text, got[:300], "readable text: %s" % e)
            for env in envs(R.rng, names, 2):
                try:
                    b = O.vsub(env[x], O.ev(at, env))
                    v = V(Q(0))
                    for k in range(n + 1):
                        v = O.vadd(v, O.vmul(O.ev(cs[k], env), O.vpow(b, V(Q(k)))))
                    w = O.ev(r, env)
                    u1 = O.vpow(b, V(Q(n + 1)))
                    u2 = O.ev(rem, env)
                except (Undef, Unknown):
                    continue
                want(O.same(v, w), text, got[:300], "the value %r at %s, but it reads as %r" % (v, env, w))
                want(O.same(u1, u2), text, got[:300], "the remainder O((variable - point)^%d)" % (n + 1))
            R.good(cmd)
        yield one


def has_float(t):
    if isinstance(t, str):
        return False
    if t[0] == "f":
        return not (len(t) > 2 and ("P" in t[2] or "E" in t[2]))
    return any(has_float(c) for c in t[1:] if isinstance(c, (list, str)) and not (isinstance(c, str) and t[0] in ("i", "q", "v", "w")))


def c12(R):
    X = ["v", "x"]
    seeds = [X, ["Div", ["Sin", X], X], ["Div", ["i", "1"], X], ["Mul", X, ["Div", ["i", "1"], X]], ["Mul", X, ["Sin", ["Div", ["i", "1"], X]]], ["Div", ["Sub", ["i", "1"], ["Cos", X]], ["Mul", X, X]],
             ["Sub", ["Div", ["i", "1"], X], ["Div", ["i", "1"], X]], ["Add", ["Div", ["i", "1"], X], ["Div", ["i", "2"], X]], ["Sin", ["Div", ["i", "1"], X]], ["Cos", ["Div", ["i", "1"], X]], ["Div", ["Sub", ["Mul", X, X], ["i", "1"]], ["Sub", X, ["i", "1"]]]]
    pts = [["i", "0"], ["i", "1"], ["i", "2"], ["i", "-1"], ["q", "1", "1", "2"], "pi", ["v", "a"], ["Add", ["v", "a"], ["i", "1"]]]
    ops = ("Neg", "Add", "Sub", "Mul", "Div", "Sin", "Cos", "Sub", "Div", "Mul")
    def leaf():
        k = R.rng.random()
        return X if k < 0.55 else ["v", "y"] if k < 0.65 else R.rng.choice([["i", "1"], ["i", "2"], ["i", "-3"], ["q", "1", "1", "2"], "pi", ["i", "5"]]) if k < 0.95 else tame()
    def tame():
        # the numeric judgement below looks at points 1e-16 away: keep constants of ordinary size
        k = R.rng.random()
        if k < 0.3 and R.g.near:
            n = R.rng.choice(R.g.near)
            if abs(n) < 10 ** 5:
                return ["i", str(n)]
        if k < 0.65:
            return ["i", str(R.rng.randrange(-30, 31))]
        return ["q", R.rng.choice(["1", "-1"]), str(R.rng.randrange(0, 30)), str(R.rng.randrange(1, 20))]
    def cases():
        for s in seeds:
            for p in pts:
                yield s, p, 2
                for o in ("Neg", "Sin", "Cos"):
                    yield [o, s], p, 2
        for s in seeds:
            for s2 in seeds:
                for o in ("Add", "Sub", "Mul", "Div"):
                    yield [o, s, s2], ["i", "0"], 1
        while True:
            t = R.g.term(R.rng.randrange(1, 9), ops, leaf)
            if R.rng.random() < 0.3:
                t = [R.rng.choice(["Add", "Sub", "Mul", "Div"]), R.rng.choice(seeds), t]
            yield t, R.rng.choice(pts), R.rng.choice([0, 1, 1, 2])
    for i, (t, p, n) in enumerate(cases()):
        cmd = "limit %s %s (v x) %s %d" % (("own", "var")[i % 2], fmt(t), fmt(p), n)
        def one():
            try:
                got = R.run(cmd, 3.0)
            except Found as e:
                if e.got.startswith("hang") or e.got.startswith("crash"):
                    raise Skip()
                raise
            if not got.startswith("ok "):
                return
            names = (O.tvars(t) | O.tvars(p)) - {"x"}
            env = {v: V(Q(R.rng.randrange(3, 40), 17)) for v in sorted(names)}
            try:
                a = O.ev(p, env)
            except (Undef, Unknown):
                return
            bad = limit_wrong(t, a, env, got, R)
            if bad and not hidden_zero(R, t, p, n, a, env):
                raise Found(cmd, got, bad)
            R.good(cmd)
        yield one


def samples_near(t, a, env):
    """values of t close to the point a, or None where it has none"""
    out = []
    for k in (10, 13, 16):
        for s in (1, -1):
            e = dict(env)
            x = O.vadd(a, V(Q(s * 3, 2 * 10 ** k)))
            # the point is exact here: the limit is a statement about real numbers
            e["x"] = V(x.q) if x.q is not None else V(m=a.m + mpf(s) * mpf("1.5") * mpf(10) ** -k, e=mpf(0))
            try:
                out.append((k, high(t, e)))
            except (Undef, Unknown, ZeroDivisionError, ValueError, OverflowError):
                out.append((k, None))
    return out


def high(t, env):
    """plain high-precision evaluation"""
    with mpmath.workdps(120):
        return high_(t, env)


def high_(t, env):
    if O.is_num_term(t):
        if t == "pi":
            return +mpmath.pi
        if t == "e":
            return +mpmath.e
        v = O.num_value(t)
        return mpf(v.q.numerator) / v.q.denominator if v.q is not None else v.m
    if t[0] == "v":
        v = env[t[1]]
        return mpf(v.q.numerator) / v.q.denominator if v.q is not None else v.m
    a = high_(t[1], env)
    if t[0] == "Neg":
        return -a
    if t[0] in ("Sin", "Cos"):
        if abs(a) > mpf(10) ** 90:
            raise Unknown()
        return mpmath.sin(a) if t[0] == "Sin" else mpmath.cos(a)
    if t[0] == "Exp":
        if abs(a) > 1000:
            raise Unknown()
        return mpmath.exp(a)
    if t[0] == "Ln":
        if a <= 0:
            raise Undef()
        return mpmath.log(a)
    b = high_(t[2], env)
    if t[0] == "Add":
        return a + b
    if t[0] == "Sub":
        return a - b
    if t[0] == "Mul":
        return a * b
    if t[0] == "Div":
        if b == 0:
            raise Undef()
        return a / b
    if a > 0:
        return mpmath.exp(b * mpmath.log(a)) if abs(b * mpmath.log(a)) < 2000 else (_ for _ in ()).throw(Unknown())
    if b == mpmath.nint(b) and abs(b) < 200 and (a != 0 or b >= 0):
        return a ** int(b)
    raise Undef()


def limit_wrong(t, a, env, got, R):
    """a reason why the reported behaviour is clearly not the one near the point"""
    if a.q is None:
        a = V(m=high_near_pi(a), e=mpf(0))
    vals = samples_near(t, a, env)
    if any(v is None for _, v in vals):
        return None
    far = [abs(v) for k, v in vals if k == 16]
    mid = [abs(v) for k, v in vals if k == 10]
    if got == "ok Z":
        if min(far) > mpf("1e-3"):
            return "0 as the limit, but values near the point are %s" % mpmath.nstr(far[0], 8)
    elif got == "ok I":
        if max(far) < 1000 and max(mid) < 1000:
            return "an unbounded expression, but values near the point are %s" % mpmath.nstr(far[0], 8)
    elif got == "ok B":
        if min(far) > mpf(10) ** 6 and min(far) > 10 * max(mid):
            return "a bounded expression, but values near the point are %s" % mpmath.nstr(far[0], 8)
    else:
        v = unop(dump(got[3:])[1])
        e = dict(env)
        try:
            e2 = dict(e)
            if a.q is None:
                pass
            w = high(v, e2)
        except KeyError as x:
            return "no variable %s" % x
        except (Undef, Unknown):
            return None
        if all(abs(x - w) > mpf("1e-4") * (1 + abs(w)) for _, x in vals):
            return "%s as the limit, but values near the point are %s" % (mpmath.nstr(w, 10), mpmath.nstr(vals[-1][1], 10))
    return None


def high_near_pi(a):
    for c in (mpmath.pi, mpmath.e):
        with mpmath.workdps(120):
            if abs(a.m - c) < mpf(10) ** -12:
                return +c
    return a.m


def hidden_zero(R, t, p, n, a, env):
    """does the engine's assumption (what is not recognised as zero is non-zero) fail somewhere in this computation?"""
    if a.q is None:
        a = V(m=high_near_pi(a), e=mpf(0))
    seen = []
    todo = [t]
    for _ in range(3):
        nxt = []
        for s in todo:
            subs = [s]
            while subs:
                u = subs.pop()
                if O.is_num_term(u) or u[0] == "v":
                    continue
                if u in seen:
                    continue
                seen.append(u)
                subs += u[1:]
                if u[0] == "Div":
                    nxt.append(["Div", O.sdiff(u[1], "x"), O.sdiff(u[2], "x")])
                if u[0] in ("Add", "Sub", "Mul"):
                    nxt.append(["Div", u[1], u[2]])
                    nxt.append(["Div", ["i", "1"], u[1]])
                    nxt.append(["Div", ["i", "1"], u[2]])
        todo = nxt[:12]
    for u in seen[:150]:
        vals = [v for k, v in samples_near(u, a, env) if k == 16 and v is not None]
        # a subexpression that tends to zero without being one the engine sees as zero
        if vals and max(abs(v) for v in vals) < mpf("1e-6"):
            try:
                r = R.run("limit own %s (v x) %s %d" % (fmt(u), fmt(p), n), 3.0)
            except (Skip, Found):
                continue
            if r.startswith("ok (val"):
                return True
    return False


def c13(R):
    pool = [[o, ["v", "x"]] for o in O.UN] + [[o, ["v", "x"], ["v", "y"]] for o in O.BIN]
    for t in pool:
        for h in pool:
            cmd = "opeq %s %s" % (fmt(t), fmt(h))
            def one():
                got = R.run(cmd)
                same = t[0] == h[0]
                want(got == " ".join(str(b).lower() for b in (same, same, not same)), cmd, got, "equality of the operators %s and %s: %s" % (t[0], h[0], same))
                R.good(cmd)
            yield one
    forms = ["echo", "echo", "agg", "deriv", "subst", "limit", "taylor"]
    for i, t in enumerate(R.g.terms(maxsize=8)):
        k = forms[i % len(forms)] if i > 60 else "echo"
        f = ("own", "ref", "var")[i % 3]
        a = fmt(t)
        h = R.g.term(R.rng.randrange(1, 3))
        x = R.rng.choice(["x", "x", "y"] + R.g.names)
        pt = R.rng.choice([["i", "0"], ["i", "1"], ["v", "a"], ["q", "1", "1", "2"]])
        cmd = {"echo": "echo " + a, "agg": "agg " + a, "deriv": "deriv %s %s (v %s)" % (f, a, x), "subst": "subst %s %s (v %s) %s" % (f, a, x, fmt(h)),
               "limit": "limit %s %s (v %s) %s 1" % ("var" if f == "var" else "own", a, x, fmt(pt)), "taylor": "taylor %s %s (v %s) %s %d" % ("var" if f == "var" else "own", a, x, fmt(pt), R.rng.randrange(0, 3))}[k]
        allowed = O.tvars(t) | (O.tvars(h) if k == "subst" else O.tvars(pt) if k in ("limit", "taylor") else set())
        def one():
            try:
                got = R.run(cmd, 3.0)
            except Found as e:
                if k == "limit":
                    raise Skip()
                raise
            if got in ("ok Z", "ok I", "ok B") or got.startswith("err"):
                return
            d = dump(got[3:] if got.startswith("ok ") else got)
            if k == "limit":
                parts = [d[1]]
            elif k == "taylor":
                parts = [d[1], d[2], d[4]] + d[3]
            else:
                parts = [d]
            try:
                terms = [O.strip(q) for q in parts]
            except Bad as e:
                raise Found(cmd, got[:400], "a well-formed expression: %s" % e)
            if k == "echo":
                want(struct_eq(t, terms[0]), cmd, got, "the expression built")
                g2 = R.run("is " + a).split()
                op = not (O.is_num_term(t) or t[0] == "v")
                want(g2[:3] == [str(b).lower() for b in (op, not op, O.is_num_term(t))], "is " + a, " ".join(g2), "operator %s, number %s" % (op, O.is_num_term(t)))
            elif k != "taylor":
                want(O.tvars(terms[0]) <= allowed, cmd, got[:400], "no variable but %s" % sorted(allowed))
            R.good(cmd)
        yield one


def num_text_ok(t, s):
    """printed number"""
    d = t
    if d[0] == "i":
        return "-" in d[-1] and s == d[1] or "Z" in d[-1] and s == "0" or "O" in d[-1] and s == "1"
    if d[0] == "f":
        if "P" in d[-1]:
            return s == "pi"
        if "E" in d[-1]:
            return s == "e"
        x = O.bits_f64(d[1])
        return not math.isfinite(x) or s == "%.3f" % x
    if int(d[3]) == 0:
        return True
    if "Z" in d[-1] or "O" in d[-1]:
        return s == ("0" if "Z" in d[-1] else "1")
    return re.fullmatch(r"-?\d+/\d+", s) is not None and Q(s) == Q(int(d[1]) * int(d[2]), int(d[3]))


def c14(R):
    def fleaf():
        return ["f", O.f64_bits(R.rng.choice([0.5, 2.25, -1.5, 3.125, -0.125, 1.0]))]
    def leaf():
        return R.g.var() if R.rng.random() < 0.5 else fleaf() if R.rng.random() < 0.1 else R.g.num(False) if R.rng.random() < 0.8 else R.rng.choice(["pi", "e"])
    L = [["v", "x"], ["v", "y"], ["i", "-2"], ["q", "1", "1", "2"], ["i", "3"], ["q", "-1", "2", "3"], "pi", "e", ["i", "0"], ["f", O.f64_bits(-1.5)], ["i", str(-I64 - 1)], ["w", str(U64)]]
    def nums():
        for t in num_small(R):
            yield t
        while True:
            yield R.g.numop(2)
    ns = nums()
    for i, t in enumerate(R.g.terms(leaves=L, maxsize=9, leaf=leaf)):
        def one():
            if i % 5 == 0:
                n = next(ns)
                d = dump(R.run("num echo " + fmt(n)))
                cmd = "num text " + fmt(n)
                got = R.run(cmd)
                want(num_text_ok(d, got[5:]), cmd, got, "the number %s" % fmt(d))
            if i % 11 == 0:
                for l, s in (("Z", "0"), ("I", "infinity"), ("B", "~")):
                    got = R.run("limtext " + l)
                    want(got == "text " + s, "limtext " + l, got, s)
                got = R.run("limtext (n %s)" % fmt(t))
                g2 = R.run("text " + fmt(t))
                want(got == g2, "limtext (n %s)" % fmt(t), got, g2)
            if i % 7 == 0:
                s, n, d = R.rng.choice([1, -1]), R.g.uint(), R.g.uint() or 1
                cmd = "rat text (q %d %d %d)" % (s, n, d)
                got = R.run(cmd)[5:]
                want(re.fullmatch(r"-?\d+/\d+", got) and Q(got) == Q(s * n, d), cmd, got, "%d * %d/%d" % (s, n, d))
            cmd = "text " + fmt(t)
            got = R.run(cmd)
            try:
                r = O.read_text(got[5:], O.tvars(t))
            except Bad as e:
                raise Found(cmd, got, "readable text: %s" % e)
            if meaning_same(R, cmd, got, t, r, 3):
                R.good(cmd)
        yield one


def lim_law(o, a, b):
    """the set of behaviours the laws of limits allow; a value is ('V', term); None: indeterminate"""
    k = lambda c: c if isinstance(c, str) else "V"
    return k(a), k(b)


def zero_lit(t):
    if not O.is_num_term(t):
        return False
    try:
        return O.num_exact(t) and O.num_value(t).q == 0
    except (Undef, Unknown):
        return False


def c15(R):
    def behs():
        out = ["Z", "I", "B"] + [["n", t] for t in ([["v", "x"], ["i", "2"], ["i", "1"], ["i", "-1"], "pi", ["q", "1", "1", "2"], ["Add", ["v", "x"], ["i", "1"]], ["Neg", ["v", "y"]], ["Sin", ["v", "x"]]] + [["i", str(n)] for n in R.g.near[:6] if n])]
        return out
    def cases():
        B = behs()
        for a in B:
            yield "neg", a, None
        for o in ("add", "sub", "mul", "div"):
            for a in B:
                for b in B:
                    yield o, a, b
        while True:
            a, b = [R.rng.choice(["Z", "I", "B", 0, 0, 0]) or ["n", R.g.term(R.rng.randrange(1, 5))] for _ in "ab"]
            if any(isinstance(c, list) and zero_lit(c[1]) for c in (a, b)):
                continue
            yield R.rng.choice(["neg", "add", "sub", "mul", "div"]), a, b
    for o, a, b in cases():
        cmd = "limalg %s %s" % (o, fmt(a)) + (" " + fmt(b) if b is not None else "")
        def one():
            if any(isinstance(c, list) and zero_num(R, c[1]) for c in (a, b) if c is not None):
                return
            got = R.run(cmd)
            A = a if isinstance(a, str) else "V"
            B_ = None if b is None else b if isinstance(b, str) else "V"
            if got.startswith("err"):
                open_ = {"add": A == "I" and B_ == "I", "sub": A == "I" and B_ == "I", "mul": A == "I" and B_ in "ZB" or A in "ZB" and B_ == "I",
                         "div": A == "Z" and B_ == "Z" or A == "I" and B_ == "I" or B_ == "B" or A == "B" and B_ == "Z", "neg": False}[o]
                want(open_, cmd, got, "a behaviour (the combination is not indeterminate)")
                R.good(cmd)
                return
            res = got[3:]
            C = res if res in "ZIB" else "V"
            bd = lambda c: c != "I"
            if o == "neg":
                ok = {"V": C in "VB", "I": C == "I", "Z": C in "ZB", "B": C == "B"}[A]
            elif o in ("add", "sub"):
                ok = (B_ == "Z" and (C == A)) or (A == "Z" and (C == B_)) or (A == "Z" and o == "sub" and B_ == "Z" and C in "ZB") or (A == "I" and bd(B_) and C == "I") or (bd(A) and B_ == "I" and C == "I") or (bd(A) and bd(B_) and C == "B") or (A == "V" and B_ == "V" and C == "V")
            elif o == "mul":
                ok = (A == "Z" and bd(B_) or bd(A) and B_ == "Z") and C == "Z" or (A == "I" and B_ in "IV" or A in "IV" and B_ == "I") and C == "I" or bd(A) and bd(B_) and C == "B" or A == "V" and B_ == "V" and C == "V"
            else:
                ok = bd(A) and B_ == "I" and C == "Z" or A == "Z" and B_ == "V" and C == "Z" or A == "I" and B_ in "ZV" and C == "I" or A == "V" and B_ == "Z" and C == "I" or bd(A) and B_ == "V" and C == "B" or A == "V" and B_ == "V" and C == "V"
            want(ok, cmd, got, "a behaviour implied by the laws of limits")
            if C == "V":
                t = unop(dump(res)[1])
                x = a[1] if isinstance(a, list) else None
                y = b[1] if isinstance(b, list) else None
                if o == "neg":
                    e = ["Neg", x]
                elif x is None:
                    e = ["Neg", y] if o == "sub" else y
                elif y is None:
                    e = x
                else:
                    e = [{"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div"}[o], x, y]
                meaning_same(R, cmd, got, e, t, 3)
            R.good(cmd)
        yield one


def zero_num(R, t):
    return zero_lit(t)


def c16(R):
    gens = [c01(R), c02(R), c03(R), c04(R), c05(R), c06(R), c08(R), c10(R), c11(R), c12(R), c14(R), c15(R), c09(R)]
    w = [1, 1, 1, 1, 2, 4, 4, 2, 1, 2, 3, 1, 2]
    while True:
        g = R.rng.choices(gens, w)[0]
        one = next(g)
        def f():
            try:
                one()
            except Found as e:
                if e.got.startswith("panic"):
                    raise
                raise Skip()
        yield f


def c17(R):
    gens = [c02(R), c06(R), c08(R), c10(R), c11(R), c14(R)]
    while True:
        one = next(R.rng.choice(gens))
        def f():
            try:
                one()
            except Found as e:
                if e.got.startswith("hang") or e.got.startswith("crash"):
                    raise
                raise Skip()
        yield f


def positive_bases(t, env):
    if O.is_num_term(t) or t[0] == "v":
        return True
    if t[0] == "Pow":
        try:
            if not O.positive(O.ev(t[1], env)):
                return False
        except (Undef, Unknown):
            return False
    return all(positive_bases(c, env) for c in t[1:])


O.positive_bases = positive_bases
def reducible(t):
    """the first operation in a simplified term to which an identity of the simplifier applies"""
    if isinstance(t, str) or t[0] not in O.UN + O.BIN:
        return None
    for c in t[1:]:
        r = reducible(c)
        if r:
            return r
    num = [c[0] in ("i", "q", "f") for c in t[1:]]
    zero, one, pi, e = ([n and k in c[-1] for n, c in zip(num, t[1:])] for k in "ZOPE")
    o = t[0]
    inner = t[1][0]
    bad = (all(num) or any(zero) if o in ("Add", "Sub") else
           all(num) or any(zero) or any(one) if o == "Mul" else
           all(num) or zero[0] if o == "Div" else
           zero[1] or one[1] if o == "Pow" else
           num[0] or inner == "Neg" if o == "Neg" else
           zero[0] or pi[0] if o in ("Sin", "Cos") else
           zero[0] or one[0] or inner == "Ln" if o == "Exp" else
           one[0] or e[0] or inner == "Exp")
    return t if bad else None


def ops_in(t):
    return 0 if isinstance(t, str) or t[0] not in O.UN + O.BIN else 1 + sum(ops_in(c) for c in t[1:])


def c18(R):
    for t in R.g.terms():
        cmd = "agg " + fmt(t)
        again = "aggagg " + fmt(t)
        def one():
            got = R.run(cmd)
            d = unop(dump(got))
            r = reducible(d)
            want(r is None, cmd, got, "no operation left that can be simplified, but it contains %s" % fmt(r or []))
            want(ops_in(d) <= ops_in(t), cmd, got, "at most %d operations" % ops_in(t))
            g2 = R.run(again)
            want(struct_eq(d, unop(dump(g2))), again, g2, "the once simplified %s" % got)
            R.good(cmd)
        yield one


def c19(R):
    X = ["v", "x"]
    ops = ("Neg", "Add", "Sub", "Mul", "Sin", "Cos")
    pts = [["i", "0"], ["i", "1"], ["i", "2"], ["i", "-1"], ["q", "1", "1", "2"], "pi", "e", "one", "zero", ["v", "a"], ["Add", ["v", "a"], ["i", "1"]], ["Div", ["i", "1"], ["i", "3"]], ["f", O.f64_bits(0.5)], ["Sub", ["i", "2"], ["i", "2"]]]
    def leaf():
        k = R.rng.random()
        return X if k < 0.5 else ["v", "y"] if k < 0.6 else R.g.leaf()
    def divide(t):
        """some subterms become quotients by a nonzero number"""
        if isinstance(t, list) and t[0] in O.UN + O.BIN:
            t = [t[0]] + [divide(c) for c in t[1:]]
        if R.rng.random() < 0.12:
            n = R.g.leaf()
            for _ in range(20):
                if O.is_num_term(n) and not zero_num(n) and wellnum(n):
                    break
                n = R.g.leaf()
            else:
                n = ["i", "3"]
            t = ["Div", t, n]
        return t
    def zero_num(n):
        try:
            v = O.num_value(n)
        except (Undef, Unknown):
            return True
        return v.q == 0 if v.q is not None else v.m == 0
    def wellnum(n):
        return not (isinstance(n, list) and n[0] == "q" and n[3] == "0")
    small = [X, ["v", "y"], ["i", "0"], ["i", "1"], ["i", "-2"], "pi", "e", ["q", "1", "1", "2"], ["f", O.f64_bits(0.5)]]
    def cases():
        for a in small:
            for p in pts:
                yield a, p, 1
                for o in ("Neg", "Sin", "Cos"):
                    yield [o, a], p, 0
                    yield ["Mul", X, [o, a]], p, 1
                yield ["Div", a, ["i", "2"]], p, 0
                for b in small:
                    for o in ("Add", "Sub", "Mul"):
                        yield [o, a, b], p, 1
        while True:
            yield divide(R.g.term(R.rng.randrange(1, 12), ops, leaf)), R.rng.choice(pts) if R.rng.random() < 0.8 else R.g.term(R.rng.randrange(1, 6)), R.rng.choice([0, 0, 1, 2, 5])
    for i, (t, p, n) in enumerate(cases()):
        cmd = "limit %s %s (v x) %s %d" % (("own", "var")[i % 2], fmt(t), fmt(p), n)
        def one():
            got = R.run(cmd, 5.0)
            want(got == "ok Z" or (got.startswith("ok ") and got not in ("ok I", "ok B")), cmd, got, "a value or 0: the expression is continuous")
            R.good(cmd)
        yield one


PROPS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19}


def main():
    exe, prop, seed, shard, nsh, secs, hints = sys.argv[1:8]
    shard, nsh, secs = int(shard), int(nsh), float(secs)
    hints = json.load(open(hints))
    ex = Executor(exe)
    # every shard walks the same small cases (taking its share), then its own random ones
    R = Run(ex, random.Random(int(seed) * 1000 + shard), hints)
    end = time.time() + secs
    out = None
    errors = 0
    known = []
    names = random.Random(int(seed) * 77 + shard)
    taken = set(R.g.names) | {"theta", "z1", "Beta", "x_2"}
    i = 0
    for one in PROPS[prop](R):
        i += 1
        if i <= 4000 and i % nsh != shard:
            continue
        if time.time() > end:
            break
        R.ren = names.choice(NAMINGS)
        if set(R.ren.values()) & taken:
            R.ren = {}
        try:
            one()
        except (Skip, Unknown, Undef):
            continue
        except Found as e:
            cmd = R.named(e.cmd)
            if cmd in hints.get("known", []):
                known.append(cmd)
                continue
            out = {"cmd": cmd, "got": e.got, "want": e.want}
            if R.ren and cmd != e.cmd:
                out["want"] += " (in the answers x, y and a stand for the variables %s)" % ", ".join(R.ren.get(v, v) for v in "xya")
            break
        except (RuntimeError, RecursionError):
            raise
        except (ArithmeticError, ValueError, OverflowError):
            errors += 1
            continue
    ex.close()
    print(json.dumps({"found": out, "runs": R.n, "checked": R.ok, "distinct": len(R.distinct), "samples": R.samples, "errors": errors, "known": sorted(set(known))}))


if __name__ == "__main__":
    main()
