"""Independent oracle: what the properties say about concrete inputs, in exact rational and
60-digit arithmetic.  It shares nothing with /repo or with the Verus contracts except the
mathematics.  Used only to look for failing inputs (replay, bounded stand-ins, thorough runs)."""
import struct
from fractions import Fraction as Q
import mpmath
from mpmath import mpf
from executor import parse, fmt

mpmath.mp.dps = 60
EPS = mpf(2) ** -50
TINY = mpf(10) ** -25
UN = ("Neg", "Sin", "Cos", "Exp", "Ln")
BIN = ("Add", "Sub", "Mul", "Div", "Pow")
SYMBOL = {"Neg": "-", "Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Pow": "^", "Sin": "sin", "Cos": "cos", "Exp": "exp", "Ln": "ln"}


class Undef(Exception):
    "the expression has no value here"


class Unknown(Exception):
    "the oracle cannot tell (too close to a singularity, out of range)"


def bits_f64(h):
    return struct.unpack(">d", int(h, 16).to_bytes(8, "big"))[0]


def f64_bits(x):
    return "%x" % struct.unpack(">Q", struct.pack(">d", x))[0]


PI_BITS = "400921fb54442d18"
E_BITS = "4005bf0a8b145769"


class V:
    """a real number: exact (q) or approximate (m with error bound e)"""
    __slots__ = ("q", "m", "e")

    def __init__(self, q=None, m=None, e=None):
        if q is not None:
            self.q = q
            self.m = mpf(q.numerator) / q.denominator
            self.e = abs(self.m) * mpf(2) ** -180
        else:
            self.q = None
            self.m = m
            self.e = e
            if not mpmath.isfinite(m) or abs(m) > mpf(10) ** 250 or e > mpf(10) ** 250:
                raise Unknown()

    def approx(self):
        """the same value, as it would take part in floating-point arithmetic"""
        return V(m=self.m, e=max(self.e, abs(self.m) * EPS)) if self.q is not None else self

    def __repr__(self):
        return str(self.q) if self.q is not None else mpmath.nstr(self.m, 12) + "~"


def fl(m, e=mpf(0)):
    return V(m=m, e=e + abs(m) * mpf(2) ** -180)


def vneg(a):
    return V(-a.q) if a.q is not None else V(m=-a.m, e=a.e)


def vadd(a, b):
    if a.q is not None and b.q is not None:
        return V(a.q + b.q)
    a, b = a.approx(), b.approx()
    return V(m=a.m + b.m, e=a.e + b.e + (abs(a.m) + abs(b.m)) * EPS)


def vsub(a, b):
    return vadd(a, vneg(b))


def vmul(a, b):
    if a.q is not None and b.q is not None:
        return V(a.q * b.q)
    if a.q == 0 or b.q == 0:
        return V(Q(0))
    a, b = a.approx(), b.approx()
    return V(m=a.m * b.m, e=abs(a.m) * b.e + abs(b.m) * a.e + a.e * b.e + abs(a.m * b.m) * EPS)


def nonzero(b):
    """decides b != 0"""
    if b.q is not None:
        return b.q != 0
    if abs(b.m) <= 1000 * b.e + TINY:
        raise Unknown()
    return True


def positive(b):
    if b.q is not None:
        return b.q > 0
    if abs(b.m) <= 1000 * b.e + TINY:
        raise Unknown()
    return b.m > 0


def vdiv(a, b):
    if not nonzero(b):
        raise Undef()
    if a.q is not None and b.q is not None:
        return V(a.q / b.q)
    a, b = a.approx(), b.approx()
    lo = abs(b.m) - b.e
    return V(m=a.m / b.m, e=(a.e + abs(a.m / b.m) * b.e) / lo + abs(a.m / b.m) * EPS)


def vln(a):
    if not positive(a):
        raise Undef()
    if a.q == 1:
        return V(Q(0))
    lo = a.m - a.e
    return V(m=mpmath.log(a.m), e=a.e / lo + EPS * abs(mpmath.log(a.m)) + mpf(10) ** -50)


def vexp(a):
    if a.q == 0:
        return V(Q(1))
    if abs(a.m) > 300 or a.e > 1:
        raise Unknown()
    r = mpmath.exp(a.m)
    return V(m=r, e=r * (mpmath.exp(a.e) - 1) + r * EPS)


def vsin(a):
    if a.q == 0:
        return V(Q(0))
    if abs(a.m) > mpf(10) ** 25:
        raise Unknown()
    return V(m=mpmath.sin(a.m), e=a.e + EPS)


def vcos(a):
    if a.q == 0:
        return V(Q(1))
    if abs(a.m) > mpf(10) ** 25:
        raise Unknown()
    return V(m=mpmath.cos(a.m), e=a.e + EPS)


def whole(r):
    if r.q is not None:
        return r.q.denominator == 1
    # an approximate value may or may not be whole
    if abs(r.m - mpmath.nint(r.m)) <= 1000 * r.e + TINY:
        raise Unknown()
    return False


def vpow(u, r):
    if u.q is not None and r.q is not None and r.q.denominator == 1:
        if u.q == 0 and r.q < 0:
            raise Undef()
        if abs(r.q) > 400 or (abs(r.q) * max(u.q.numerator.bit_length(), u.q.denominator.bit_length())) > 20000:
            raise Unknown()
        return V(u.q ** int(r.q))
    if positive(u):
        if u.q == 1:
            return V(Q(1))
        return vexp(vmul(r, vln(u)))
    if nonzero(u):
        if not whole(r):
            raise Undef()
        k = int(mpmath.nint(r.m))
        if abs(k) > 400:
            raise Unknown()
        s = V(Q(1))
        for _ in range(abs(k)):
            s = vmul(s, u)
        return s if k >= 0 else vdiv(V(Q(1)), s)
    # u is exactly 0
    if r.q is not None:
        if r.q < 0:
            raise Undef()
        return V(Q(1)) if r.q == 0 else V(Q(0))
    if positive(r):
        return V(Q(0))
    raise Undef()


UNF = {"Neg": vneg, "Sin": vsin, "Cos": vcos, "Exp": vexp, "Ln": vln}
BINF = {"Add": vadd, "Sub": vsub, "Mul": vmul, "Div": vdiv, "Pow": vpow}


class Bad(Exception):
    "a dump that does not describe a well-formed object"


def fval(h):
    x = bits_f64(h)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unknown()
    return V(m=mpf(x), e=abs(mpf(x)) * EPS)


def num_value(t):
    """value of a number term (input form or dump)"""
    if isinstance(t, str):
        return {"pi": lambda: fl(mpmath.pi, mpmath.pi * EPS), "e": lambda: fl(mpmath.e, mpmath.e * EPS), "zero": lambda: V(Q(0)), "one": lambda: V(Q(1))}[t]()
    k = t[0]
    if k in ("i", "w"):
        return V(Q(int(t[1])))
    if k == "q":
        d = int(t[3])
        if d == 0:
            raise Undef()
        if int(t[1]) not in (1, -1):
            raise Bad("a fraction with sign %s" % t[1])
        return V(Q(int(t[1]) * int(t[2]), d))
    if k == "f":
        if len(t) > 2 and "P" in t[2]:
            return fl(mpmath.pi, mpmath.pi * EPS)
        if len(t) > 2 and "E" in t[2]:
            return fl(mpmath.e, mpmath.e * EPS)
        return fval(t[1])
    return {"+": lambda: vadd(num_value(t[1]), num_value(t[2])), "-": lambda: vsub(num_value(t[1]), num_value(t[2])),
            "*": lambda: vmul(num_value(t[1]), num_value(t[2])), "/": lambda: vdiv(num_value(t[1]), num_value(t[2])),
            "neg": lambda: vneg(num_value(t[1]))}[k]()


def num_exact(t):
    if isinstance(t, str):
        return t in ("zero", "one")
    if t[0] in ("i", "w", "q"):
        return True
    if t[0] == "f":
        return False
    return all(num_exact(x) for x in t[1:])


def is_num_term(t):
    return isinstance(t, str) or t[0] in ("i", "w", "q", "f", "+", "-", "*", "/", "neg")


def strip(t):
    """dump -> term, checking that the object is well-formed (C13)"""
    if isinstance(t, str):
        raise Bad("unexpected " + t)
    if t[0] == "bad":
        raise Bad("an operand node with operands of its own")
    if t[0] == "op":
        sym, pri, body = t[1], int(t[2]), t[3]
        name = body[0]
        if name not in SYMBOL:
            raise Bad("unknown operator " + name)
        n = 1 if name in UN else 2
        if len(body) != n + 1:
            raise Bad("%s with %d operands" % (name, len(body) - 1))
        if sym != SYMBOL[name]:
            raise Bad("%s with symbol %s" % (name, sym))
        if pri != PRIORITY[name]:
            raise Bad("%s with priority %d" % (name, pri))
        return [name] + [strip(c) for c in body[1:]]
    if t[0] == "v":
        return t
    check_num(t)
    return t


PRIORITY = {"Neg": 1, "Add": 2, "Sub": 2, "Mul": 3, "Div": 4, "Pow": 4, "Sin": 5, "Cos": 5, "Exp": 5, "Ln": 5}


def check_num(t):
    """classification of a dumped number agrees with its value"""
    flags = t[-1]
    kind = t[0]
    if kind == "f":
        if "Z" in flags or "O" in flags:
            raise Bad("floating-point number classified as exact 0 or 1")
        if "P" in flags and t[1] != PI_BITS:
            raise Bad("classified as pi")
        if "E" in flags and t[1] != E_BITS:
            raise Bad("classified as e")
        return
    if "P" in flags or "E" in flags:
        raise Bad("exact number classified as pi or e")
    if kind == "q" and int(t[1]) not in (1, -1):
        raise Bad("a fraction with sign %s" % t[1])
    if kind == "q" and int(t[3]) == 0:
        if flags != "-":
            raise Bad("an undefined fraction classified as a number")
        return
    v = num_value(t[:-1]).q
    if ("Z" in flags) != (v == 0) or ("O" in flags) != (v == 1):
        raise Bad("number %s classified %s" % (v, flags))


def ev(t, env):
    """value of a term; raises Undef or Unknown"""
    if is_num_term(t):
        return num_value(t)
    if t[0] == "v":
        return env[t[1]]
    if t[0] in UN:
        return UNF[t[0]](ev(t[1], env))
    # a part that is undefined makes the whole undefined, whatever the other part is
    try:
        a = ev(t[1], env)
    except Unknown:
        ev(t[2], env)
        raise
    return BINF[t[0]](a, ev(t[2], env))


def tvars(t):
    if is_num_term(t):
        return set()
    if t[0] == "v":
        return {t[1]}
    return set().union(*[tvars(c) for c in t[1:]])


def same(a, b):
    """may b be the value a?"""
    if a.q is not None and b.q is not None:
        return a.q == b.q
    a2, b2 = a.approx(), b.approx()
    return abs(a2.m - b2.m) <= 1000 * (a2.e + b2.e) + mpf(10) ** -30 * (1 + abs(a2.m))


# ---- derivative: rules of calculus on dual numbers ------------------------------
def dual(t, x, env):
    """(value, derivative) ; Undef where the rules of calculus do not apply"""
    Z = V(Q(0))
    if is_num_term(t):
        return num_value(t), Z
    if t[0] == "v":
        return env[t[1]], V(Q(1)) if t[1] == x else Z
    if t[0] in UN:
        u, du = dual(t[1], x, env)
        v = UNF[t[0]](u)
        if t[0] == "Neg":
            return v, vneg(du)
        if t[0] == "Sin":
            return v, vmul(vcos(u), du)
        if t[0] == "Cos":
            return v, vneg(vmul(vsin(u), du))
        if t[0] == "Exp":
            return v, vmul(v, du)
        return v, vdiv(du, u)
    u, du = dual(t[1], x, env)
    w, dw = dual(t[2], x, env)
    v = BINF[t[0]](u, w)
    if t[0] == "Add":
        return v, vadd(du, dw)
    if t[0] == "Sub":
        return v, vsub(du, dw)
    if t[0] == "Mul":
        return v, vadd(vmul(du, w), vmul(u, dw))
    if t[0] == "Div":
        return v, vdiv(vsub(vmul(du, w), vmul(u, dw)), vmul(w, w))
    if positive(u):
        if is_num_term(t[2]):
            return v, vmul(vmul(w, vpow(u, vsub(w, V(Q(1))))), du)
        return v, vmul(v, vadd(vmul(dw, vln(u)), vdiv(vmul(w, du), u)))
    if not is_num_term(t[2]) or not whole(w):
        raise Undef()
    if not nonzero(u) and not (w.q is not None and w.q >= 1):
        raise Undef()
    return v, vmul(vmul(w, vpow(u, vsub(w, V(Q(1))))), du)


# ---- symbolic differentiation for higher orders ----------------------------------
def isq(t, k):
    return is_num_term(t) and not isinstance(t, str) and t[0] == "i" and int(t[1]) == k


def mk(op, a, b=None):
    if op == "Add":
        return b if isq(a, 0) else a if isq(b, 0) else [op, a, b]
    if op == "Sub":
        return a if isq(b, 0) else [op, a, b]
    if op == "Mul":
        return ["i", "0"] if isq(a, 0) or isq(b, 0) else b if isq(a, 1) else a if isq(b, 1) else [op, a, b]
    if op == "Div":
        return ["i", "0"] if isq(a, 0) else a if isq(b, 1) else [op, a, b]
    if op == "Neg":
        return a if isq(a, 0) else [op, a]
    return [op, a, b] if b is not None else [op, a]


def sdiff(t, x):
    """derivative as a term; only meaningful where the original is defined (checked by evaluating that too)"""
    if is_num_term(t):
        return ["i", "0"]
    if t[0] == "v":
        return ["i", "1" if t[1] == x else "0"]
    if x not in tvars(t):
        return ["i", "0"]
    a = t[1]
    da = sdiff(a, x)
    if t[0] == "Neg":
        return mk("Neg", da)
    if t[0] == "Sin":
        return mk("Mul", ["Cos", a], da)
    if t[0] == "Cos":
        return mk("Neg", mk("Mul", ["Sin", a], da))
    if t[0] == "Exp":
        return mk("Mul", t, da)
    if t[0] == "Ln":
        return mk("Div", da, a)
    b = t[2]
    db = sdiff(b, x)
    if t[0] in ("Add", "Sub"):
        return mk(t[0], da, db)
    if t[0] == "Mul":
        return mk("Add", mk("Mul", da, b), mk("Mul", a, db))
    if t[0] == "Div":
        return mk("Div", mk("Sub", mk("Mul", da, b), mk("Mul", a, db)), ["Mul", b, b])
    if is_num_term(b):
        v = num_value(b)
        if v.q is not None:
            if v.q == 0:
                return ["i", "0"]
            n = v.q - 1
            ex = ["i", str(n.numerator)] if n.denominator == 1 else ["q", "1" if n > 0 else "-1", str(abs(n.numerator)), str(n.denominator)]
            return mk("Mul", mk("Mul", b, mk("Pow", a, ex)), da)
    return mk("Mul", t, mk("Add", mk("Mul", db, ["Ln", a]), mk("Div", mk("Mul", b, da), a)))


# ---- reading printed text -----------------------------------------------------
class Reader:
    """expr := ['-'] term {('+'|'-') term} ; term := power {('*'|'/') power} ; power := atom ['^' power] ; atom := number | name | func atom | '(' expr ')'"""

    def __init__(self, s, names):
        self.t = self.lex(s, names)
        self.i = 0

    @staticmethod
    def lex(s, names):
        out = []
        i = 0
        names = sorted(names, key=len, reverse=True)
        while i < len(s):
            c = s[i]
            if c == " ":
                i += 1
                continue
            if c in "()+-*/^":
                out.append(c)
                i += 1
                continue
            if c.isdigit():
                j = i
                while j < len(s) and (s[j].isdigit() or s[j] == "."):
                    j += 1
                out.append(("n", s[i:j]))
                i = j
                continue
            for n in names:
                if s.startswith(n, i):
                    out.append(("v", n))
                    i += len(n)
                    break
            else:
                for n in ("sin", "cos", "exp", "ln", "pi", "e"):
                    if s.startswith(n, i):
                        out.append(("k", n))
                        i += len(n)
                        break
                else:
                    raise Bad("unreadable text at %d: %s" % (i, s))
        return out

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def all(self):
        r = self.expr()
        if self.peek() is not None:
            raise Bad("trailing text")
        return r

    def expr(self):
        if self.peek() == "-":
            self.next()
            r = ["Neg", self.term()]
        else:
            r = self.term()
        while self.peek() in ("+", "-"):
            o = self.next()
            r = ["Add" if o == "+" else "Sub", r, self.term()]
        return r

    def term(self):
        r = self.power()
        while self.peek() in ("*", "/"):
            o = self.next()
            r = ["Mul" if o == "*" else "Div", r, self.power()]
        return r

    def power(self):
        r = self.atom()
        if self.peek() == "^":
            self.next()
            return ["Pow", r, self.power()]
        return r

    def atom(self):
        x = self.next()
        if x == "(":
            r = self.expr()
            if self.next() != ")":
                raise Bad("missing )")
            return r
        if isinstance(x, tuple):
            if x[0] == "n":
                q = Q(x[1])
                return ["q", "1", str(q.numerator), str(q.denominator)]
            if x[0] == "v":
                return ["v", x[1]]
            if x[1] in ("pi", "e"):
                return x[1]
            return [{"sin": "Sin", "cos": "Cos", "exp": "Exp", "ln": "Ln"}[x[1]], self.atom()]
        raise Bad("unexpected %r" % (x,))


def read_text(s, names):
    return Reader(s, names).all()
