"""C01: the stored expression has the value of the requested operations."""
import ast, itertools, random
from .. import gen, ref, tree
from ..worker import Violation

RULE = ("recipe trees (random, all binary/unary combinations of a leaf set, trigonometric multiples of pi, numeric powers, "
        "power-of-power shapes, shuffled n-ary sums/products) are built through the API and evaluated at points in the declared "
        "sets by an independent reference; a case is non-trivial if at least one point was decisive; distinct by recipe")
MIN_EVENTS = {"points decided": 3000}
DOC = ("ArithmeticError", "AssertionError", "DimensionError", "DomainError", "InvalidArgumentError", "TypeError")

LEAVES = [("int", k) for k in (0, 1, -1, 2, -2, 3, -3, 4, -4, 6, 8, 9, -8, 12, 27)] + \
         [("rat", 1, 2), ("rat", -1, 2), ("rat", 3, 2), ("rat", -3, 2), ("rat", 2, 3), ("rat", -2, 3), ("rat", 4, 9),
          ("rat", 9, 4), ("rat", 1, 3), ("rat", 5, 4), ("rat", -8, 27)] + \
         [("flt", 0.5), ("flt", 2.0), ("flt", -1.5), ("flt", 0.0), ("flt", 1.0), ("flt", -2.0)] + \
         [("pi",), ("e",), ("i",)] + [("sym", s) for s in ("x", "ra", "pa", "na", "za")]


def N(k):
    return ("int", k)


def R(a, b):
    return ("rat", a, b) if a % b else ("int", a // b)


X, RA, PA, NA, ZA, Y, RB, PB = (("sym", s) for s in ("x", "ra", "pa", "na", "za", "y", "rb", "pb"))


def directed():
    """A fixed systematic list of recipes."""
    out = []
    for op in ("add", "mul", "sub", "div", "pow"):
        for a, b in itertools.product(LEAVES, LEAVES):
            out.append((op, a, b))
    for f in ref.FUNCS:
        if f == "atan2":
            rl = [l for l in LEAVES if l[0] != "i" and l[1:] not in (("x",), ("za",))]
            for a, b in itertools.product(rl, rl):
                out.append(("fn", f, a, b))
            continue
        for a in LEAVES:
            out.append(("fn", f, a))
            out.append(("fn", f, ("neg", a)))
            out.append(("fn", f, ("mul", N(-2), a)))
            out.append(("fn", f, ("mul", ("i",), a)))
        for g in ref.FUNCS:
            if g == "atan2":
                continue
            for s in (X, RA, PA, NA):
                out.append(("fn", f, ("fn", g, s)))
                out.append(("fn", f, ("neg", ("fn", g, s))))
                out.append(("fn", f, ("pow", ("fn", g, s), N(2))))
        out.append(("fn", f, ("sqrt", RA)))
        out.append(("fn", f, ("sqrt", PA)))
        out.append(("fn", f, ("pow", RA, N(2))))
        out.append(("fn", f, ("pow", RA, N(3))))
        out.append(("fn", f, ("pow", PA, RA)))
        out.append(("fn", f, ("pow", RA, ("rat", 1, 3))))
        out.append(("fn", f, ("max", RA, PA)))
        out.append(("fn", f, ("iverson", ("rel", "<", RA, RB))))
    # trigonometric multiples of pi, alone and added to a symbol
    for d in (1, 2, 3, 4, 5, 6, 8, 12, 24):
        for n in range(-3 * d, 3 * d + 1):
            for f in ("cos", "sin", "tan", "exp", "floor", "cosh", "sinh", "tanh"):
                a = ("mul", R(n, d), ("pi",))
                if f in ("exp", "cosh", "sinh", "tanh"):
                    a = ("mul", a, ("i",))
                out.append(("fn", f, a))
            if d in (1, 2, 3, 6):
                for f in ("cos", "sin", "tan"):
                    out.append(("fn", f, ("add", RA, ("mul", R(n, d), ("pi",)))))
    # inverse functions at exact arguments
    vals = [N(0), N(1), N(-1), ("rat", 1, 2), ("rat", -1, 2), ("sqrt", N(2)), ("div", ("sqrt", N(2)), N(2)),
            ("neg", ("div", ("sqrt", N(2)), N(2))), ("div", ("sqrt", N(3)), N(2)), ("neg", ("div", ("sqrt", N(3)), N(2))),
            ("sqrt", N(3)), ("div", ("sqrt", N(3)), N(3)), ("neg", ("sqrt", N(3))), ("i",), ("neg", ("i",)), ("e",),
            ("div", N(1), ("sqrt", N(2))), ("div", N(1), ("sqrt", N(3))), ("mul", N(2), ("i",)), ("mul", ("rat", 1, 2), ("i",))]
    for f in ref.FUNCS:
        for v in vals:
            if f == "atan2":
                for w in vals:
                    if "i" not in repr(v) + repr(w):
                        out.append(("fn", f, v, w))
            elif not (f in ("sign", "floor") and ref.contains(v, ("i",))):
                out.append(("fn", f, v))
    # integer/rational powers of numbers: roots, signs, prime powers
    for b in list(range(-36, 65)) + [72, 81, 100, 108, 125, 128, 144, 200, 216, 225, 243, 256, 343, 512, 625, 720, 1000, 1024, 1296, 2025,
                                     4096, 10007, 65536, 99991, 123456, 999983, -1000, -1024, -46656]:
        for e in ((1, 2), (-1, 2), (3, 2), (1, 3), (-1, 3), (2, 3), (4, 3), (1, 4), (3, 4), (-5, 2), (5, 6), (7, 3), (1, 6), (-7, 4), (3, 1), (-2, 1)):
            out.append(("pow", N(b), R(*e)))
    for p, q in ((1, 2), (2, 3), (4, 9), (9, 4), (8, 27), (3, 4), (5, 12), (12, 5), (50, 49), (16, 81), (7, 8), (100, 3)):
        for s in (1, -1):
            for e in ((1, 2), (-1, 2), (3, 2), (1, 3), (-1, 3), (2, 3), (-4, 3), (1, 4), (-3, 4), (5, 2), (5, 6), (7, 3), (3, 1), (-2, 1), (0, 1)):
                out.append(("pow", ("rat", s * p, q), R(*e)))
    # powers of I and of products
    for k in range(-9, 10):
        out.append(("pow", ("i",), N(k)))
        out.append(("pow", ("neg", ("i",)), N(k)))
        out.append(("pow", ("mul", N(2), ("i",)), N(k)))
        out.append(("pow", ("mul", RA, ("i",)), N(k)))
        out.append(("pow", ("i",), R(k, 2)))
        out.append(("pow", ("i",), R(k, 3)))
        out.append(("pow", ("mul", N(-3), ("i",)), R(k, 2)))
        out.append(("mul", ("i",), ("pow", ("i",), R(k, 2))))
    exps = [N(0), N(1), N(2), N(3), N(-1), N(-2), ("rat", 1, 2), ("rat", -1, 2), ("rat", 1, 3), ("rat", 3, 2), ("rat", 2, 3),
            ("rat", -3, 2), ("flt", 0.5), ("flt", 2.0), ("flt", 1.5), X, RA, PA, NA, ZA, ("neg", RA), ("mul", N(2), RA), ("i",), ("div", RA, N(2)),
            ("mul", ("i",), RA)]
    bases = [X, RA, PA, NA, ZA, ("neg", X), ("neg", RA), ("neg", PA), ("mul", N(2), RA), ("mul", N(-2), PA), ("mul", N(4), PA), ("mul", RA, RB), ("mul", PA, PB),
             ("mul", PA, X), ("mul", X, Y), ("mul", N(-4), X), ("mul", ("i",), PA), ("mul", ("rat", 4, 9), PA), ("fn", "abs", RA), ("fn", "exp", RA),
             ("fn", "exp", X), ("fn", "cosh", RA), ("fn", "log", PA), ("fn", "log", X), ("add", PA, N(1)), ("sub", PA, PB), ("add", RA, N(2)), ("e",), ("pi",), N(2), N(-2), ("i",),
             ("div", N(1), RA), ("div", N(1), PA), ("div", N(1), X), ("div", RA, PA), ("div", N(-1), PA), ("sqrt", N(2)), ("neg", ("sqrt", N(2))), ("max", RA, RB),
             ("iverson", ("rel", "<", RA, RB)), ("fn", "sign", RA), ("flt", 2.5), ("flt", -2.5), ("flt", 0.0), N(0), ("fn", "floor", RA), ("fn", "sin", RA), ("fn", "acos", RA)]
    for b in bases:
        for e in exps:
            out.append(("pow", b, e))
            for e2 in exps[2:17]:
                out.append(("pow", ("pow", b, e), e2))
                out.append(("mul", ("pow", b, e), ("pow", b, e2)))
    # powers of powers: integral, fractional and floating exponents of either sign
    nexp = [k for p in (1, 2, 3) for k in (N(p), N(-p))] + [R(sg * a, b) for a, b in ((1, 2), (1, 3), (2, 3), (3, 2), (4, 3), (3, 4), (5, 2)) for sg in (1, -1)] + \
           [("flt", sg * v) for v in (1.0, 0.5, 2.0, 1.5, 0.25, 3.0, 0.9999999999999999, 1.0000000000000002) for sg in (1, -1)]
    for b in (X, RA, NA, ZA, ("neg", X), ("mul", N(-4), X), ("div", N(1), X), ("mul", X, Y), ("sub", RA, N(3))):
        for e, e2 in itertools.product(nexp, nexp):
            out.append(("pow", ("pow", b, e), e2))
    # products collecting powers with equal bases/exponents and numeric roots
    roots = [("pow", N(b), R(*e)) for b in (2, 3, 6, 12, -2, -1, 8) for e in ((1, 2), (-1, 2), (1, 3), (2, 3), (3, 2), (-1, 3), (1, 4))]
    roots += [("pow", ("rat", a, b), R(*e)) for a, b in ((2, 3), (1, 2), (-1, 2), (3, 4)) for e in ((1, 2), (-1, 2), (1, 3), (2, 3))]
    for a, b in itertools.product(roots, roots):
        out.append(("mul", a, b))
    for a, b in itertools.product(roots[:20], [N(2), N(-2), N(6), N(12), ("rat", 1, 2), ("rat", 3, 4), ("flt", 0.5), ("i",), ("sqrt", ("flt", 2.0))]):
        out.append(("mul", a, b))
        out.append(("div", b, a))
        out.append(("mul", b, a, X))
        out.append(("add", ("mul", b, a), a))
    # sums: collection of equal terms
    terms = [X, ("neg", X), ("mul", N(2), X), ("mul", ("rat", 1, 2), X), ("mul", ("flt", 0.5), X), ("mul", X, Y), ("mul", N(-1), X, Y), N(1), N(-1), ("rat", 1, 2),
             ("rat", -1, 2), ("flt", 1.5), ("flt", -1.5), ("mul", ("i",), X), ("sqrt", N(2)), ("neg", ("sqrt", N(2))), ("div", X, N(3)), ("pi",), ("neg", ("pi",)), ("i",), ("neg", ("i",)),
             ("add", X, N(1)), ("neg", ("add", X, N(1))), ("mul", N(2), ("add", X, N(1))), ("add", X, Y), ("sub", N(1), X), ("flt", 0.0), N(0), ("flt", -1.0)]
    for a, b in itertools.product(terms, terms):
        out.append(("add", a, b))
        out.append(("sub", a, b))
        for c in (X, ("neg", X), N(1), ("rat", 1, 2), ("add", X, N(1)), ("flt", 0.5)):
            out.append(("add", a, b, c))
            out.append(("mul", a, b, c))
            out.append(("mul", ("add", a, b), c))
    for c in [("rel", o, a, b) for o in ("<", "<=", "==", ">", ">=") for a, b in ((RA, RB), (PA, N(0)), (N(0), PA), (NA, N(0)), (RA, N(0)), (N(1), N(2)), (N(2), N(1)),
                                                                                 (("rat", 1, 2), ("flt", 0.5)), (("pi",), N(3)), (("e",), ("pi",)), (("flt", 3.5), ("pi",)), (RA, RA))]:
        out.append(("iverson", c))
        out.append(("where", c, X, Y))
        out.append(("add", ("where", c, N(1), X), ("iverson", c)))
        out.append(("pow", ("iverson", c), N(2)))
        out.append(("fn", "abs", ("where", c, ("neg", PA), RA)))
    for a, b in itertools.product([N(1), N(-1), RA, PA, ("pi",), ("rat", 7, 2), ("flt", 3.5), ("neg", RA), ("mul", N(2), RA), NA, N(0), ("e",), ("sqrt", N(2))], repeat=2):
        out.append(("max", a, b))
        out.append(("min", a, b))
        out.append(("fn", "atan2", a, b))
        out.append(("sub", ("max", a, b), ("min", a, b)))
    return out


_DIRECTED = None


def cases():
    global _DIRECTED
    if _DIRECTED is None:
        _DIRECTED = directed()
        random.Random(4).shuffle(_DIRECTED)
    return _DIRECTED


def documented(e):
    t = type(e)
    return t.__module__.startswith("pywrenfold") and t.__name__ != "AssertionError"


class ValueCheck:
    """Shared by C01 and C21: build, parse, evaluate, compare."""

    def __init__(self, ctx):
        self.ctx = ctx

    def verdict(self, n, rng, npoints=4, style=0, count=True, points=None):
        """None if no difference was seen, else a message."""
        ctx = self.ctx
        try:
            e = gen.Builder(style)(n)
        except Exception as ex:
            name = type(ex).__name__
            if documented(ex):
                if count: ctx.event("construction raised " + name)
                if name in ("ArithmeticError", "DomainError", "TypeError"):
                    return None
            elif isinstance(ex, (OverflowError,)):
                return None
            return "building raised %s: %s" % (name, str(ex)[:400])
        t = tree.of(e)
        return self.judge(n, t, rng, npoints, count, points)

    def judge(self, n, t, rng, npoints=4, count=True, points=None, real=False):
        ctx = self.ctx
        names = sorted(ref.symbols(n))
        extra = ref.symbols(t) - set(names)
        if extra:
            return "the stored expression contains symbols that were not requested: %s" % sorted(extra)
        decided = 0
        for k in range(npoints if names else 1):
            env = gen.real_point(names, rng) if real else gen.point(names, rng, k == 2)
            try:
                v, why = ref.compare(n, t, env)
            except ref.Unsupported as ex:
                if count: ctx.event("unsupported: " + str(ex)[:60])
                return None
            if v == ref.Agreement.EQUAL:
                decided += 1
            elif v == ref.Agreement.DIFFER:
                return "%s at %s; stored: %s" % (why, {a: str(b) for a, b in env.items()}, t if len(repr(t)) < 1500 else repr(t)[:1500])
            elif count:
                ctx.event(("points skipped: " + why) if why.startswith("known") else "points skipped")
        if count:
            ctx.event("points decided", decided)
            if decided:
                ctx.distinct(repr(n))
        return None

    def known(self, entry):
        """Replays a recorded finding, without the tolerance for recorded findings."""
        ref.STRICT = True
        try:
            self.replay(entry["input"])
        finally:
            ref.STRICT = False

    def report(self, n, msg, style, seed, npoints=4, kind="value"):
        def fails(m):
            return any(self.verdict(m, random.Random(seed + j), npoints + 4, style, False) is not None for j in range(2))
        small = gen.shrink(n, fails)
        final = None
        for j in range(3):
            final = final or self.verdict(small, random.Random(seed + j), npoints + 4, style, False)
        self.ctx.violation(kind + ": " + repr(small), (final or msg) + "\n  original: " + msg[:800], repr((style, small)))


class Check(ValueCheck):
    RANDOM = {"quick": 14000, "thorough": 400000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.dir = cases()
        # quick: a rotating third of the systematic list; thorough: all of it
        self.ndir = len(self.dir)

    def total(self):
        return self.ndir + self.RANDOM[self.tier]

    def recipe(self, i, rng):
        if i < self.ndir:
            return self.dir[i], i % 4
        g = gen.Gen(rng, real=rng.random() < 0.3)
        return g.node(rng.choice([2, 2, 3, 3, 4, 5])), rng.randint(0, 3)

    def run(self, i, rng):
        n, style = self.recipe(i, rng)
        if ref.size(n) > 220:
            self.ctx.event("recipes too large")
            return
        self.ctx.describe(repr((style, n)))
        self.ctx.event("directed" if i < self.ndir else "random")
        seed = rng.randint(0, 10 ** 9)
        msg = self.verdict(n, random.Random(seed), 3 if i < self.ndir else 4, style)
        if i % 997 == 0:
            self.ctx.sample(repr(n))
        if msg:
            self.report(n, msg, style, seed)

    def replay(self, text):
        style, n = ast.literal_eval(text)
        self.ctx.describe(text)
        for j in range(4):
            msg = self.verdict(n, random.Random(j), 12, style)
            if msg:
                raise Violation("value: " + repr(n), msg)
