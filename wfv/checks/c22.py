"""C22: comparisons and conditionals select the right value."""
import ast, itertools, math, random
from fractions import Fraction as Fr
import mpmath
from .. import gen, tree
from ..worker import Violation

RULE = ("all ordered pairs of 60 numeric constants (64-bit limits, neighbours of 2**53, rationals, floats next to each other, to integers and to pi and e) under every comparison, reflected comparison, "
        "min, max, indicator and selection, and random conditional expressions (nested conditions, ties, rational and dyadic float values) built symbolically, substituted, numerically evaluated and differentiated, "
        "against exact rational arithmetic; non-trivial if a value or truth was decided; distinct by recipe")
MIN_EVENTS = {"truths decided": 6000, "values decided": 60000, "ties decided": 8000, "derivatives decided": 4000, "substituted values decided": 15000}

mpmath.mp.dps = max(mpmath.mp.dps, 15)
with mpmath.workdps(90):
    PI, EU = [Fr(int(mpmath.floor(mpmath.mpf(v) * mpmath.mpf(10) ** 70)), 10 ** 70) for v in (mpmath.pi(), mpmath.e())]
NAMES = ("ra", "rb", "x", "pa", "na")


class Undefined(Exception):
    pass


class Unsupported(Exception):
    pass


class Exact:
    """Values are (value, derivative) pairs of rationals; the derivative is with respect to env['#var'] (None if undefined)."""

    def __init__(self, env, var=None):
        self.env, self.var = env, var
        self.ties = 0
        self.kink = False
        self.float = False

    def __call__(self, n):
        return getattr(self, "op_" + n[0], self.other)(n)

    def other(self, n): raise Unsupported(n[0])
    def op_int(self, n): return Fr(n[1]), Fr(0)
    def op_rat(self, n): return Fr(n[1], n[2]), Fr(0)
    def op_flt(self, n):
        if math.isnan(n[1]) or math.isinf(n[1]): raise Undefined()
        self.float = True
        return Fr(n[1]), Fr(0)
    def op_pi(self, n): return PI, Fr(0)
    def op_e(self, n): return EU, Fr(0)
    def op_zoo(self, n): raise Undefined()
    op_nan = op_zoo
    def op_sym(self, n): return self.env[n[1]], Fr(int(n[1] == self.var))

    def op_add(self, n):
        vs = [self(a) for a in n[1:]]
        return sum((v for v, _ in vs), Fr(0)), sum((d for _, d in vs), Fr(0))

    def op_mul(self, n):
        v, d = Fr(1), Fr(0)
        for a in n[1:]:
            w, e = self(a)
            v, d = v * w, v * e + d * w
        return v, d

    def op_neg(self, n):
        v, d = self(n[1])
        return -v, -d

    def op_sub(self, n): return self(("add", n[1], ("neg", n[2])))

    def op_div(self, n): return self(("mul", n[1], ("pow", n[2], ("int", -1))))

    def op_pow(self, n):
        (b, db), (e, de) = self(n[1]), self(n[2])
        if e.denominator != 1 or abs(e) > 12 or de: raise Unsupported("power")
        if b == 0 and e <= 0: raise Undefined()
        e = int(e)
        return b ** e, (e * b ** (e - 1) * db if e else Fr(0))

    def op_uneval(self, n): return self(n[1])

    def cmp(self, a, b):
        if a == b: self.ties += 1
        return (a > b) - (a < b)

    def cond(self, n):
        if n[0] == "true": return True
        if n[0] == "false": return False
        if n[0] != "rel": raise Unsupported(n[0])
        c = self.cmp(self(n[2])[0], self(n[3])[0])
        return {"<": c < 0, "<=": c <= 0, "==": c == 0, ">": c > 0, ">=": c >= 0}[n[1]]

    def op_where(self, n): return self(n[2] if self.cond(n[1]) else n[3])
    def op_iverson(self, n): return Fr(int(self.cond(n[1]))), Fr(0)

    def op_max(self, n):
        a, b = self(n[1]), self(n[2])
        c = self.cmp(a[0], b[0])
        if c == 0: self.kink = self.kink or a[1] != b[1]
        return b if c < 0 else a

    def op_min(self, n):
        a, b = self(n[1]), self(n[2])
        c = self.cmp(a[0], b[0])
        if c == 0: self.kink = self.kink or a[1] != b[1]
        return b if c > 0 else a

    def op_fn(self, n):
        v, d = self(n[2])
        f = n[1]
        if f == "abs":
            if v == 0: self.kink = True
            return abs(v), (d if v >= 0 else -d)
        if f in ("sign", "signum"): return Fr((v > 0) - (v < 0)), Fr(0)
        if f == "floor": return Fr(v.numerator // v.denominator), Fr(0)
        raise Unsupported(f)

    def op_deriv(self, n): raise Unsupported("deriv")


def N(k): return ("int", k)


CONST = [N(k) for k in (0, 1, -1, 2, 3, 4, -3, 2 ** 31, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 63 - 1, 2 ** 63 - 512, -2 ** 63 + 1, -2 ** 63)] + \
        [("rat", *t) for t in ((1, 2), (-1, 2), (1, 3), (2, 3), (-7, 3), (22, 7), (355, 113), (19, 7), (2 ** 62 - 1, 2 ** 61), (2 ** 62 + 1, 2 ** 61), (1, 2 ** 62 - 1), (-1, 2 ** 63 - 1), (2 ** 63 - 1, 2), (2 ** 53 + 1, 2))] + \
        [("flt", x) for x in (0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 3.0, 4.0, 2.5, float(2 ** 31), float(2 ** 53), float(2 ** 53 + 2), -float(2 ** 53), float(2 ** 63), -float(2 ** 63), 9223372036854774784.0, -9223372036854777856.0, 1e300, -1e300, 5e-324, -5e-324,
                              1.0 + 2.0 ** -52, 1.0 - 2.0 ** -53, math.pi, math.nextafter(math.pi, 4), math.nextafter(math.pi, 3), math.e, math.nextafter(math.e, 3), math.nextafter(math.e, 2), 1 / 3)] + [("pi",), ("e",)]
PAIRS = [(a, b) for a in CONST for b in CONST]
OPS = ("<", "<=", "==", ">", ">=")
SPECIAL = [("zoo",), ("nan",), ("i",), ("flt", float("inf")), ("flt", float("-inf")), ("flt", float("nan"))]


class Check:
    RANDOM = {"quick": 40000, "thorough": 800000}
    BLOCK = 16

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.s = gen.sym()
        import pywrenfold.exceptions as E
        self.documented = (E.ArithmeticError, E.TypeError, E.DomainError, E.InvalidArgumentError, E.DimensionError)
        self.Arith, self.TypeErr = E.ArithmeticError, E.TypeError
        self.nd = (len(PAIRS) + self.BLOCK - 1) // self.BLOCK

    def total(self):
        return 1 + self.nd + self.RANDOM[self.tier]

    def run(self, i, rng):
        if i == 0:
            return self.special()
        if i <= self.nd:
            for a, b in PAIRS[(i - 1) * self.BLOCK:i * self.BLOCK]:
                self.pair(a, b)
            return
        seed = rng.randint(0, 2 ** 60)
        self.random(seed)

    def replay(self, text):
        t = ast.literal_eval(text)
        if t == "special": self.special()
        elif isinstance(t, tuple): self.pair(*t)
        else: self.random(t)

    def fail(self, key, msg):
        raise Violation(key, msg)

    # ---- constants
    def special(self):
        self.ctx.describe(repr("special"))
        s = self.s
        for a in SPECIAL:
            for b in CONST + SPECIAL + [("sym", "ra")]:
                for x, y in ((a, b), (b, a)):
                    for op in OPS:
                        try:
                            ex, ey = gen.Builder(0)(x), gen.Builder(0)(y)
                        except self.documented:
                            self.ctx.event("documented errors")
                            continue
                        try:
                            r = gen.Builder(0)(("rel", op, x, y))
                        except self.documented:
                            self.ctx.event("documented errors")
                            continue
                        t = tree.of(r)
                        if t[0] in ("true", "false"):
                            if ("i",) in (x, y) and not (op == "==" and t[0] == ("true" if x == y else "false")):
                                self.fail("special: %r %s %r" % (x, op, y), "%r %s %r was resolved to %s" % (x, op, y, t[0]))
                            if any(q in (("zoo",), ("nan",)) or q[0] == "flt" and math.isnan(q[1]) for q in (x, y)):
                                self.fail("special: %r %s %r" % (x, op, y), "%r %s %r was resolved to %s" % (x, op, y, t[0]))

    def pair(self, a, b):
        ctx, s = self.ctx, self.s
        ctx.describe(repr((a, b)))
        va, vb = Exact({})(a)[0], Exact({})(b)[0]
        c = (va > vb) - (va < vb)
        truth = {"<": c < 0, "<=": c <= 0, "==": c == 0, ">": c > 0, ">=": c >= 0}
        for style in range(4):
            for op in OPS:
                what = "%r %s %r" % (a, op, b)
                try:
                    r = gen.Builder(style)(("rel", op, a, b))
                except self.Arith as ex:
                    ctx.event("reported overflows")
                    continue
                except Exception as ex:
                    self.fail("%s raised %s" % (what, type(ex).__name__), "%s raised %s: %s" % (what, type(ex).__name__, str(ex)[:300]))
                t = tree.of(r)
                if t[0] in ("true", "false"):
                    if (t[0] == "true") != truth[op]:
                        self.fail(what, "%s was resolved to %s" % (what, t[0]))
                    ctx.event("truths decided")
                    ctx.distinct(what)
                    if bool(r) != truth[op]: self.fail(what + " bool", "bool(%s) is %r" % (what, bool(r)))
                else:
                    try:
                        w = Exact({}).cond(t)
                    except Unsupported:
                        continue
                    if w != truth[op]:
                        self.fail(what + " stored", "%s is stored as %r" % (what, t))
                    ctx.event("truths left symbolic")
        for n in (("max", a, b), ("min", a, b), ("iverson", ("rel", "<", a, b)), ("iverson", ("rel", "==", a, b)), ("iverson", ("rel", ">=", a, b)),
                  ("where", ("rel", "<=", a, b), a, N(17)), ("where", ("rel", ">", a, b), N(17), b)):
            self.value(n, {}, style=0)
        if a == b:
            for f in ("sign", "floor", "abs"):
                self.value(("fn", f, a), {}, style=0)

    def build(self, n, style):
        try:
            return gen.Builder(style)(n)
        except self.Arith:
            self.ctx.event("reported overflows")
            return None
        except Exception as ex:
            self.fail("build: %s" % repr(n)[:200], "building %r raised %s: %s" % (n, type(ex).__name__, str(ex)[:300]))

    def value(self, n, env, style):
        e = self.build(n, style)
        if e is None: return None
        ev = Exact(env)
        try:
            want = ev(n)[0]
        except Undefined:
            return e
        t = tree.of(e)
        try:
            got = Exact(env)(t)[0]
        except Undefined:
            self.fail("undefined: %s" % repr(n)[:200], "%r is stored as %r, which is undefined; expected %s" % (n, t, want))
        except Unsupported:
            self.ctx.event("unsupported")
            return e
        if got != want:
            self.fail("value: %s" % repr(n)[:200], "%r at %r is %s; expected %s; stored as %r" % (n, env, got, want, t))
        self.ctx.event("values decided")
        if ev.ties: self.ctx.event("ties decided")
        return e

    # ---- random conditional expressions
    def num(self, rng):
        q = rng.random()
        if q < 0.6: return N(rng.choice([0, 0, 1, -1, 2, -2, 3, rng.randint(-6, 6)]))
        if self.dyadic: return rng.choice([("rat", rng.choice([-3, -1, 1, 3, 5]), rng.choice([2, 4])), ("flt", rng.choice([0.0, 0.5, 1.0, -1.0, 2.0, -0.75, 1.5]))])
        return ("rat", rng.choice([-4, -2, -1, 1, 2, 4, 5]), 3)

    def node(self, rng, d):
        if d <= 0 or rng.random() < 0.12:
            return ("sym", rng.choice(NAMES[:self.nsym])) if rng.random() < 0.7 else self.num(rng)
        k = rng.choice(["add", "add", "sub", "mul", "mulc", "pow", "neg", "abs", "floor", "sign", "max", "max", "min", "min", "where", "where", "where", "iverson", "iverson"])
        if k in ("add", "sub", "mul"): return (k, self.node(rng, d - 1), self.node(rng, d - 1))
        if k == "mulc": return ("mul", self.num(rng), self.node(rng, d - 1))
        if k == "pow": return ("pow", self.node(rng, d - 1), N(2))
        if k == "neg": return ("neg", self.node(rng, d - 1))
        if k in ("abs", "floor", "sign"): return ("fn", k, self.node(rng, d - 1))
        if k in ("max", "min"): return (k, self.node(rng, d - 1), self.node(rng, d - 1))
        if k == "iverson": return ("iverson", self.cnode(rng, d - 1))
        c = self.cnode(rng, d - 1)
        a, b = self.node(rng, d - 1), self.node(rng, d - 1)
        if rng.random() < 0.4:      # the same or a related condition again, nested in a branch
            c2 = c if rng.random() < 0.4 else ("rel", rng.choice(OPS), c[2], c[3]) if c[0] == "rel" else c
            if rng.random() < 0.3 and c2[0] == "rel": c2 = ("rel", c2[1], c2[3], c2[2])
            a, b = rng.choice([(("where", c2, a, self.node(rng, d - 1)), b), (a, ("where", c2, b, self.node(rng, d - 1))), (a, ("add", a, ("iverson", c2)))])
        return ("where", c, a, b)

    def cnode(self, rng, d):
        a = self.node(rng, d - 1)
        b = self.node(rng, d - 1) if rng.random() < 0.6 else rng.choice([self.num(rng), a, ("neg", a), ("fn", "abs", a)])
        return ("rel", rng.choice(OPS), a, b)

    def env(self, rng):
        e = {}
        for n in NAMES:
            v = Fr(rng.choice([0, 1, -1, 2, -2, 3])) if rng.random() < 0.6 else Fr(rng.randint(-9, 9), rng.choice([2, 4]) if self.dyadic else rng.choice([1, 2, 3]))
            k = gen.symbol_set(n)
            if k in ("positive", "nonnegative"):
                v = abs(v)
                if k == "positive" and v == 0: v = Fr(1)
            e[n] = v
        return e

    def random(self, seed):
        ctx, s = self.ctx, self.s
        rng = random.Random(seed)
        ctx.describe(repr(seed))
        self.dyadic = rng.random() < 0.5
        self.nsym = rng.choice([1, 2, 2, 3, 5])
        n = self.node(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        if len(repr(n)) > 4000: return
        style = rng.randint(0, 3)
        e = self.build(n, style)
        if e is None: return
        if seed % 499 == 0: ctx.sample(repr(n))
        t = tree.of(e)
        var = rng.choice(NAMES[:self.nsym])
        de = None
        try:
            de = tree.of(e.diff(gen.symbol(var)))
        except self.Arith:
            ctx.event("reported overflows")
        for _ in range(6):
            env = self.env(rng)
            ev = Exact(env, var)
            try:
                want, dwant = ev(n)
            except (Undefined, Unsupported):
                continue
            where = "%r at %r" % (n, {k: str(v) for k, v in env.items() if k in NAMES[:self.nsym]})
            key = repr(n)[:200]
            try:
                got = Exact(env)(t)[0]
            except Undefined:
                self.fail("undefined: " + key, "%s is undefined; expected %s" % (where, want))
            if got != want:
                self.fail("value: " + key, "%s is %s; expected %s; stored as %r" % (where, got, want, t))
            ctx.event("values decided")
            ctx.distinct(key)
            if ev.ties: ctx.event("ties decided")
            if de is not None and not ev.kink:
                try:
                    dg = Exact(env)(de)[0]
                except Unsupported:
                    dg = None
                except Undefined:
                    dg = None
                    if not self.zero_base(n): self.fail("derivative: " + key, "the derivative of %s with respect to %s is undefined; expected %s" % (where, var, dwant))
                if dg is not None:
                    if dg != dwant:
                        self.fail("derivative: " + key, "the derivative of %s with respect to %s is %s; expected %s; it is %r" % (where, var, dg, dwant, de))
                    ctx.event("derivatives decided")
            # substitution, one by one or at once, in any order
            names = [q for q in NAMES[:self.nsym]]
            rng.shuffle(names)
            val = lambda v: (float(v) if self.dyadic and rng.random() < 0.4 else s.rational(v.numerator, v.denominator) if v.denominator != 1 else int(v))
            try:
                if rng.random() < 0.5:
                    r = e
                    for q in names: r = r.subs(gen.symbol(q), val(env[q]))
                else:
                    vs = [val(env[q]) for q in names]
                    r = e.subs([(gen.symbol(q), s.Expr(v) if isinstance(v, (int, float)) else v) for q, v in zip(names, vs)])
            except self.Arith:
                ctx.event("reported overflows")
                continue
            try:
                g = Exact({})(tree.of(r))[0]
            except Undefined:
                self.fail("subs undefined: " + key, "substitution into %s gives %s; expected %s" % (where, r, want))
            except Unsupported:
                g = None
            if g is not None:
                if g != want: self.fail("subs: " + key, "substitution into %s gives %s; expected %s" % (where, r, want))
                ctx.event("substituted values decided")
            try:
                f = r.eval()
                f = Fr(f) if isinstance(f, (int, float)) else None
            except self.documented:
                f = None
            if f is not None:
                if abs(f - want) > Fr(1, 10 ** 11) * max(1, abs(want)): self.fail("eval: " + key, "eval() of %s gives %s; expected %s" % (where, float(f), want))
                ctx.event("evaluated values decided")
        # fixing a condition selects the branch
        if n[0] == "where" and rng.random() < 0.5:
            c, a, b = (gen.Builder(style)(q) for q in n[1:])
            if type(c).__name__ == "BooleanExpr" and tree.of(c)[0] == "rel":
                w = s.where(c, a, b)
                for k, br in ((s.true, a), (s.false, b)):
                    if not w.subs(c, k).is_identical_to(br.subs(c, k)):
                        self.fail("fixed condition: " + repr(n)[:200], "where(%s, %s, %s) with the condition replaced by %s is %s" % (c, a, b, k, w.subs(c, k)))
                    ctx.event("fixed conditions")

    def zero_base(self, n):
        return False
