"""C15: integer and rational arithmetic is exact, or reported as an arithmetic error."""
import ast, itertools, random
from fractions import Fraction as F
from .. import gen, ref, tree
from ..worker import Violation

RULE = ("arithmetic (binary, n-ary, powers, floor, abs, sign, comparisons, min/max, coefficient collection, distribution, substitution, "
        "multiples of pi) on integers and rationals from a pool of extreme values (around 2^31, 2^32, 2^53, 2^62, 2^63, products and "
        "smooth numbers) compared with exact fractions; an arithmetic error is accepted only when a naive intermediate leaves 64 bits; "
        "distinct by operation and operands")
MIN_EVENTS = {"exact results": 20000, "reported overflows": 500}

MAX, MIN = 2 ** 63 - 1, -2 ** 63
POOL = sorted({s * v for s in (1, -1) for v in
               [0, 1, 2, 3, 5, 6, 7, 10, 12, 30, 97, 720, 2 ** 15, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 3 ** 20, 10 ** 9, 10 ** 9 + 7,
                3037000499, 3037000500, 2 ** 52, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 61, 2 ** 62 - 1, 2 ** 62, 2 ** 62 + 1, 3 ** 39, 10 ** 18, 2 ** 63 - 25, 2 ** 63 - 2,
                2 ** 63 - 1]} | {MIN, MIN + 1, MIN + 2})


def fits(*vs):
    return all(MIN <= v <= MAX for v in vs)


def bint(rng):
    k = rng.random()
    if k < 0.45:
        return rng.choice(POOL)
    v = rng.getrandbits(rng.randint(1, 63))
    if k < 0.6:
        v = 1
        while v < 2 ** 40 and rng.random() < 0.9:
            v *= rng.choice([2, 3, 5, 7, 11, 13])
    if k < 0.7:
        v = max(v - v % rng.choice([2 ** 20, 3 ** 12, 10 ** 6, 2 ** 32]), 1)
    return -v if rng.random() < 0.4 else v


def bfrac(rng):
    if rng.random() < 0.35:
        return F(bint(rng))
    while True:
        d = abs(bint(rng)) if rng.random() < 0.5 else rng.choice([2, 3, 4, 6, 7, 12, 360, 2 ** 16, 10 ** 6])
        n = bint(rng) if rng.random() < 0.7 else rng.randint(-100, 100)
        if d and fits(n, d):
            f = F(n, d)
            if fits(f.numerator, f.denominator):
                return f


def lit(v):
    return ("int", v.numerator) if v.denominator == 1 else ("rat", v.numerator, v.denominator)


def sfits(*vs):
    return all(-MAX <= v <= MAX for v in vs)


class NotExact(Exception):
    pass


def exact(t, env=None):
    """Exact value of a tree made of numbers, symbols, sums, products and integer powers."""
    op = t[0]
    if op == "int":
        if not fits(t[1]): raise NotExact("integer out of range")
        return F(t[1])
    if op == "rat":
        f = F(t[1], t[2])
        if t[2] <= 1 or (f.numerator, f.denominator) != (t[1], t[2]):
            raise NotExact("rational %d/%d is not in lowest terms with a denominator above one" % (t[1], t[2]))
        return f
    if op == "sym":
        return env[t[1]]
    if op == "add":
        return sum((exact(c, env) for c in t[1:]), F(0))
    if op == "mul":
        p = F(1)
        for c in t[1:]:
            p *= exact(c, env)
        return p
    if op == "pow":
        b, e = exact(t[1], env), exact(t[2], env)
        if e.denominator == 1 and abs(e) < 5000 and (b != 0 or e > 0):
            return b ** int(e)
    raise NotExact("not an exact number: %s" % (t,))


class Check:
    N = {"quick": 60000, "thorough": 1500000}

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.s = gen.sym()
        self.pairs = list(itertools.product(POOL, POOL))

    def total(self):
        return len(self.pairs) + self.N[self.tier]

    def run(self, i, rng):
        if i < len(self.pairs):
            a, b = self.pairs[i]
            for op in ("add", "sub", "mul", "div", "rat", "cmp"):
                self.one((op, F(a), F(b), i % 4))
            return
        k = rng.random()
        st = rng.randint(0, 3)
        if k < 0.36:
            c = (rng.choice(["add", "sub", "mul", "div"]), bfrac(rng), bfrac(rng), st)
        elif k < 0.44:
            a = bfrac(rng)
            if rng.random() < 0.5:
                b = a + F(rng.choice([1, -1]), rng.choice([1, 2 ** 20, 2 ** 40, 2 ** 62, MAX]))
                b = b if fits(b.numerator, b.denominator) else bfrac(rng)
            else:
                b = bfrac(rng)
            c = ("cmp", a, b, st)
        elif k < 0.52:
            c = (rng.choice(["floor", "abs", "sign", "neg"]), bfrac(rng), F(0), st)
        elif k < 0.64:
            b = bfrac(rng) if rng.random() < 0.3 else F(rng.choice([0, 1, -1, 2, -2, 3, 10, 7, -5, 2 ** 31, 2 ** 32, 3037000499])) / rng.choice([1, 1, 2, 3, 7])
            e = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 18, 19, 20, 31, 39, 40, 61, 62, 63, 64, 100, 2 ** 31, 2 ** 32, 2 ** 62, MAX, MAX - 1])
            c = ("pow", b, F(e if rng.random() < 0.6 else -e), st)
        elif k < 0.66:
            c = ("pow", bfrac(rng), F(MIN) if rng.random() < .5 else F(rng.randint(-30, 30)), st)
        elif k < 0.74:
            c = ("nary", rng.choice(["add", "mul"]), [bfrac(rng) if rng.random() < 0.3 else F(rng.choice(POOL[20:-20] + [2, 3, -1])) / rng.choice([1, 2, 3, 6, 10 ** 6]) for _ in range(rng.randint(2, 6))], st)
        elif k < 0.84:
            c = ("poly", rng.choice(["collect", "distribute", "subs", "diff"]), [bfrac(rng) if rng.random() < 0.3 else F(rng.randint(-50, 50), rng.choice([1, 1, 2, 3])) for _ in range(4)], st)
        elif k < 0.90:
            c = ("rat", F(bint(rng)), F(bint(rng)), st)
        elif k < 0.94:
            c = ("pi", rng.choice(["cos", "sin", "tan"]), F(bint(rng), rng.choice([1, 1, 2, 3, 4, 6, 12])), st)
        elif k < 0.95:
            c = ("foreign", rng.randint(0, 11), bfrac(rng) if rng.random() < 0.5 else F(rng.randint(-40, 40), rng.choice([1, 2, 4, 3])), st)
        elif k < 0.97:
            c = ("big", rng.choice(["integer", "add", "radd", "mul", "sub", "rsub", "pow", "rat", "ratd", "eq", "vec"]), F(rng.choice([2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 70, -2 ** 100, 10 ** 30, 2 ** 63 + rng.getrandbits(40)])), st)
        else:
            c = ("root", F(abs(bint(rng)) if rng.random() < 0.2 else rng.choice([2, 3, 12, 97, 1000, 4096, 3 ** 10, 2 ** 20, 10 ** 6, 720720]), rng.choice([1, 1, 2, 9, 1000])), F(rng.choice([1, 2, 3, -1, -2, 5]), rng.choice([2, 3, 4])), st)
        self.one(c)

    def replay(self, text):
        self.one(eval(text, {"Fraction": F, "__builtins__": {}}))

    # -- helpers
    def build(self, v, style):
        s = self.s
        if v.denominator == 1:
            return s.integer(int(v))
        if style & 1:
            return s.rational(v.numerator, v.denominator)
        return s.integer(v.numerator) / s.integer(v.denominator)

    def attempt(self, f):
        """(expression, None) or (None, reason)."""
        try:
            return f(), None
        except Exception as e:
            n = type(e).__name__
            if n == "ArithmeticError" and type(e).__module__.startswith("pywrenfold"):
                return None, "overflow"
            return None, "%s: %s" % (n, str(e)[:300])

    def bad(self, c, msg):
        raise Violation("%s: %s" % (c[0], msg.split(";")[0][:120]), "%r: %s" % (c, msg), repr(c))

    def settle(self, c, f, want, may_overflow, env=None):
        """want: exact value; may_overflow: whether an arithmetic error is acceptable."""
        e, why = self.attempt(f)
        if why:
            if why == "overflow":
                self.ctx.event("reported overflows")
                if not may_overflow:
                    self.bad(c, "an arithmetic error although every intermediate fits; wanted %s" % want)
                return None
            self.bad(c, "unexpected exception; " + why)
        t = tree.of(e)
        try:
            got = exact(t, env)
        except NotExact as ex:
            self.bad(c, "inexact result; %s; wanted %s, stored %s" % (ex, want, t))
        if got != want:
            self.bad(c, "wrong result; wanted %s, got %s" % (want, got))
        if env is None and t[0] not in ("int", "rat"):
            self.bad(c, "not reduced to a number; %s" % (t,))
        self.ctx.event("exact results")
        return e

    def special(self, c, f, kinds):
        e, why = self.attempt(f)
        if why:
            if why.split(":")[0] in ("overflow",) + kinds:
                return
            self.bad(c, "unexpected exception; " + why)
        t = tree.of(e)
        if t[0] not in kinds:
            self.bad(c, "division by zero gave; %s" % (t,))
        self.ctx.event("divisions by zero")

    # -- one case
    def one(self, c):
        ctx, s = self.ctx, self.s
        ctx.describe(repr(c))
        ctx.distinct(repr(c[:-1]))
        if ctx.n % 40 == 0:
            ctx.sample(repr(c))
        op, st = c[0], c[-1]
        if op in ("add", "sub", "mul", "div"):
            a, b = c[1], c[2]
            A, B = self.build(a, st), self.build(b, st)
            an, ad, bn, bd = a.numerator, a.denominator, b.numerator, b.denominator
            if op in ("add", "sub"):
                sg = 1 if op == "add" else -1
                if op == "add":
                    f = (lambda: A + B) if st < 2 else (lambda: s.addition([A, B]))
                else:
                    f = (lambda: A - B) if st < 2 else (lambda: A + -B)
                w = a + sg * b
                may = not sfits(an * bd, bn * ad, an * bd + sg * bn * ad, ad * bd, sg * bn)
            elif op == "mul":
                f = (lambda: A * B) if st < 2 else (lambda: s.multiplication([A, B]))
                w, may = a * b, not sfits(an * bn, ad * bd)
            else:
                f = (lambda: A / B) if st < 2 else (lambda: A * s.pow(B, -1))
                if b == 0:
                    return self.special(c, f, ("zoo", "nan"))
                w, may = a / b, not sfits(an * bd, ad * bn, -ad * bn, -an * bd, -bn)
            e = self.settle(c, f, w, may)
            if st & 1 and e is not None and bd == 1 and op == "add":
                g = self.attempt(lambda: A + int(b))[0]
                if g is None or not g.is_identical_to(e):
                    self.bad(c, "expr + int differs from expr + expr")
        elif op == "rat":
            n, d = int(c[1]), int(c[2])
            f = lambda: s.rational(n, d)
            if d == 0:
                return self.special(c, f, ("zoo", "nan"))
            self.settle(c, f, F(n, d), not sfits(n, d))
        elif op == "cmp":
            a, b = c[1], c[2]
            A, B = self.build(a, st), self.build(b, st)
            for nm, f, w in (("lt", lambda: A < B, a < b), ("le", lambda: A <= B, a <= b), ("gt", lambda: A > B, a > b), ("ge", lambda: A >= B, a >= b),
                             ("eq", lambda: s.eq(A, B), a == b), ("slt", lambda: s.lt(A, B), a < b), ("sge", lambda: s.ge(A, B), a >= b)):
                e, why = self.attempt(f)
                if why == "overflow":
                    ctx.event("reported overflows")
                    if fits(a.numerator * b.denominator, b.numerator * a.denominator):
                        self.bad(c, "an arithmetic error comparing small numbers; " + nm)
                    continue
                if why:
                    self.bad(c, "unexpected exception; " + why)
                if tree.of(e)[0] != ("true" if w else "false"):
                    self.bad(c, "wrong comparison %s; %s" % (nm, tree.of(e)))
                ctx.event("exact results")
            may = not fits(a.numerator * b.denominator, b.numerator * a.denominator)
            self.settle(c, lambda: s.max(A, B), max(a, b), may)
            self.settle(c, lambda: s.min(A, B), min(a, b), may)
            if A.is_identical_to(B) != (a == b):
                self.bad(c, "identity of exact numbers")
            k = s.compare(A, B)
            if (k == 0) != (a == b):
                self.bad(c, "compare() of exact numbers gives %d" % k)
        elif op in ("floor", "abs", "sign", "neg"):
            a = c[1]
            A = self.build(a, st)
            f = {"floor": lambda: s.floor(A), "abs": lambda: s.abs(A) if st & 1 else abs(A), "sign": lambda: s.sign(A), "neg": lambda: -A}[op]
            w = {"floor": F(a.__floor__()), "abs": abs(a), "sign": F((a > 0) - (a < 0)), "neg": -a}[op]
            self.settle(c, f, w, op in ("abs", "neg") and not fits(-a.numerator))
        elif op == "pow":
            b, e = c[1], int(c[2])
            B = self.build(b, st)
            f = (lambda: B ** e) if st & 1 else (lambda: s.pow(B, s.integer(e)))
            if b == 0 and e <= 0:
                if e == 0:
                    return self.settle(c, f, F(1), False) if False else self.special(c, f, ("nan", "int", "zoo"))
                return self.special(c, f, ("zoo", "nan"))
            if e == 0 or b == 1:
                return self.settle(c, f, F(1), e == MIN)
            if b == -1:
                return self.settle(c, f, F(1 if e % 2 == 0 else -1), e == MIN)
            if b == 0:
                return self.settle(c, f, F(0), False)
            if abs(e) > 200:
                x, why = self.attempt(f)
                if why != "overflow":
                    self.bad(c, "a power beyond 64 bits gave %s" % (why or tree.of(x),))
                ctx.event("reported overflows")
                return
            w = b ** e
            # squaring past the last needed power is a naive intermediate
            may = not (fits(abs(b.numerator) ** (2 * abs(e)), b.denominator ** (2 * abs(e)))) if st >= 0 else False
            may = may and not (fits(b.numerator ** abs(e) , b.denominator ** abs(e)) and abs(e) <= 1)
            if fits(w.numerator, w.denominator, -w.numerator, -w.denominator):
                may = may and e == MIN or b.numerator == MIN
            self.settle(c, f, w, may or not fits(w.numerator, w.denominator))
        elif op == "nary":
            vs = c[2]
            es = [self.build(v, st) for v in vs]
            if c[1] == "add":
                w = sum(vs, F(0))
                d = 1
                for v in vs: d *= v.denominator
                may = not sfits(d, sum(abs(v.numerator) * (d // v.denominator) for v in vs))
                self.settle(c, lambda: s.addition(es), w, may)
            else:
                w = F(1)
                n = d = 1
                for v in vs:
                    w *= v
                    n *= abs(v.numerator) or 1
                    d *= v.denominator
                may = not sfits(n, d)
                self.settle(c, lambda: s.multiplication(es), w, may)
        elif op == "poly":
            a, b, p, q = c[2]
            A, B, P, Q = (self.build(v, st) for v in c[2])
            x = gen.symbol("x")
            big = 1
            for v in c[2]:
                big *= max(abs(v.numerator), 1) * v.denominator
            may = not fits(4 * big ** 2)
            for xv in (F(1), F(-2), F(1, 3)):
                env = {"x": xv}
                if c[1] == "collect":
                    self.settle(c, lambda: (A * x + P) + (B * x + Q), (a + b) * xv + p + q, may, env)
                    self.settle(c, lambda: (A * x) * (B * x ** 2), a * b * xv ** 3, may, env)
                elif c[1] == "distribute":
                    self.settle(c, lambda: ((A * x + B) * (P * x + Q)).distribute(), (a * xv + b) * (p * xv + q), may, env)
                    self.settle(c, lambda: ((A * x + B) ** 2).distribute(), (a * xv + b) ** 2, may, env)
                elif c[1] == "subs":
                    self.settle(c, lambda: (A * x ** 2 + B).subs(x, P), a * p ** 2 + b, may)
                    self.settle(c, lambda: (A * x * B).subs(x, P), a * b * p, may)
                    break
                else:
                    n = rngpow(q)
                    self.settle(c, lambda: (A * x ** n).diff(x), a * n * xv ** (n - 1) if (n or True) else 0, may or not fits(n * big ** 2), env)
        elif op == "pi":
            fn, v = c[1], c[2]
            if not fits(v.numerator):
                return
            V = self.build(v, st)
            e, why = self.attempt(lambda: getattr(s, fn)(V * s.pi))
            if why:
                if why != "overflow":
                    self.bad(c, "unexpected exception; " + why)
                ctx.event("reported overflows")
                if fits(v.numerator * 24, v.denominator * 24):
                    self.bad(c, "an arithmetic error reducing a small angle")
                return
            r = v % 2
            src = ("fn", fn, ("mul", lit(r), ("pi",)))
            self.value(c, src, tree.of(e) if not ref.contains(tree.of(e), ("fn",)) else reduce_pi(tree.of(e)))
        elif op == "root":
            b, e = c[1], c[2]
            if not fits(b.numerator, b.denominator) or b <= 0:
                return
            B, E = self.build(b, st), self.build(e, st)
            x, why = self.attempt(lambda: B ** E)
            if why:
                if why != "overflow":
                    self.bad(c, "unexpected exception; " + why)
                ctx.event("reported overflows")
                if fits(b.numerator ** (abs(e.numerator) * 2), b.denominator ** (abs(e.numerator) * 2)):
                    self.bad(c, "an arithmetic error although the powers fit")
                return
            self.value(c, ("pow", lit(b), lit(e)), tree.of(x))
        elif op == "foreign":
            self.foreign(c, c[1], c[2])
        elif op == "big":
            v = int(c[2])
            x = gen.symbol("x")
            f = {"integer": lambda: s.integer(v), "add": lambda: x + v, "radd": lambda: v + x, "mul": lambda: x * v, "sub": lambda: x - v, "rsub": lambda: v - x,
                 "pow": lambda: x ** v, "rat": lambda: s.rational(v, 3), "ratd": lambda: s.rational(3, v), "eq": lambda: s.eq(x, v), "vec": lambda: s.vector(x, v)[1]}[c[1]]
            try:
                e = f()
            except Exception as ex:
                n = type(ex).__name__
                if n not in ("TypeError", "OverflowError", "ArithmeticError", "ValueError", "RuntimeError", "bad_cast", "std::bad_cast"):
                    self.bad(c, "unexpected exception; %s %s" % (n, ex))
                ctx.event("oversized integers rejected")
                return
            # accepted: it must not have become another integer
            t = tree.of(e) if hasattr(e, "expression_tree_str") else ("?",)
            ctx.event("oversized integers accepted")
            self.bad(c, "an integer beyond 64 bits was accepted; %s" % (t,))

    def foreign(self, c, kind, v):
        """Numbers of other types as operands: their value is preserved, or they are rejected."""
        import decimal
        import numpy as np
        import sympy
        s, x = self.s, gen.symbol("x")
        try:
            o, val = [(lambda: (v, v)), (lambda: (decimal.Decimal(v.numerator) / v.denominator, None)), (lambda: (np.float32(float(v)), F(float(np.float32(float(v)))))),
                      (lambda: (np.float64(float(v)), F(float(v)))), (lambda: (np.int32(v.numerator), F(v.numerator))), (lambda: (np.int64(v.numerator), F(v.numerator))),
                      (lambda: (np.uint64(abs(v.numerator)), F(abs(v.numerator)))), (lambda: (sympy.Rational(v.numerator, v.denominator), v)),
                      (lambda: (str(v), v)), (lambda: (bool(v), F(bool(v)))), (lambda: (complex(float(v), 1.0), None)), (lambda: (np.float16(float(v) % 100), F(float(np.float16(float(v) % 100)))))][kind]()
        except (OverflowError, ValueError):
            return
        if val is None and kind == 1:
            val = F(o)
        for nm, f, w in (("expr + n", lambda: x + o, lambda q: 2 + q), ("n * expr", lambda: o * x, lambda q: 2 * q), ("expr - n", lambda: x - o, lambda q: 2 - q),
                         ("vector", lambda: s.vector(x, o)[1], lambda q: q), ("subs", lambda: (x * 3).subs(x, o), lambda q: 3 * q)):
            try:
                e = f()
            except Exception as ex:
                self.ctx.event("foreign operands rejected")
                if type(ex).__name__ not in ("TypeError", "ArithmeticError", "RuntimeError", "OverflowError", "ValueError", "SympifyError", "UFuncTypeError", "_UFuncNoLoopError"):
                    self.bad(c, "unexpected exception; %s %s" % (type(ex).__name__, ex))
                continue
            if not isinstance(e, s.Expr):
                continue
            t = tree.of(e)
            if val is None:
                self.bad(c, "a complex number was accepted; %s" % (t,))
            try:
                got = ref.Evaluator({"x": ref.mpf(2)})(t)
            except ref.Undefined:
                if nm == "subs" and v == 0: continue
                got = None
            want = w(val)
            if got is None or abs(got - ref.mpf(want.numerator) / want.denominator) > abs(ref.mpf(want.numerator) / want.denominator) * 1e-14:
                self.bad(c, "an operand of type %s changed its value; %s: stored %s" % (type(o).__name__, nm, t))
            if kind in (4, 5, 6, 9) and ref.has_float(t):
                self.bad(c, "an integer became a float; %s: stored %s" % (nm, t))
            self.ctx.event("foreign operands preserved")

    def value(self, c, src, out):
        v, why = ref._compare(src, out, {}, float_mode=False)
        if v == ref.Agreement.DIFFER:
            self.bad(c, "wrong value; %s; stored %s" % (why, out))
        if ref.has_float(out):
            self.bad(c, "a float appeared; %s" % (out,))
        self.ctx.event("exact results")


def rngpow(q):
    n = abs(q.numerator) % 9 + 1
    return n


def reduce_pi(t):
    """Reduces the argument of a trigonometric function of a rational multiple of pi modulo 2."""
    if t[0] == "fn" and t[1] in ("cos", "sin", "tan") and t[2][0] == "mul" and ("pi",) in t[2] and len(t[2]) == 3:
        o = [x for x in t[2][1:] if x != ("pi",)][0]
        return ("fn", t[1], ("mul", lit(exact(o) % 2), ("pi",)))
    if isinstance(t, tuple):
        return t[:1] + tuple(reduce_pi(x) if isinstance(x, tuple) else x for x in t[1:])
    return t
