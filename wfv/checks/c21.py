"""C21: assumptions declared on symbols are used soundly."""
import ast, itertools, random
from .. import gen, ref, tree
from ..worker import Violation
from .c01 import ValueCheck, N, documented

RULE = ("inner expressions over symbols of every declared set (all small shapes plus random trees) are wrapped in probes whose "
        "simplification depends on the set of the inner expression (abs, sign, comparisons, square roots of products, powers of powers, "
        "log, floor, min/max, derivatives of abs) and evaluated over the whole declared set, including its boundary and both signs; "
        "a case is non-trivial if at least one point was decisive; distinct by recipe")
MIN_EVENTS = {"points decided": 4000, "set identity checks": 20}

X, RA, RB, PA, PB, NA, NB, ZA = (("sym", s) for s in ("x", "ra", "rb", "pa", "pb", "na", "nb", "za"))
H = ("rat", 1, 2)


def probes(e, real=None):
    out = [("fn", "abs", e), ("fn", "abs", ("neg", e)), ("fn", "abs", ("mul", e, RA)), ("sqrt", ("pow", e, N(2))), ("sqrt", ("mul", e, X)),
           ("sqrt", ("mul", e, RB)), ("sqrt", ("mul", N(-1), e, RB)), ("pow", ("mul", e, X), ("rat", 1, 3)), ("pow", ("mul", e, RB), ("rat", -2, 3)),
           ("pow", ("pow", e, X), ("rat", 1, 2)), ("pow", ("pow", e, RB), ("rat", 1, 2)), ("pow", ("pow", e, N(2)), RB), ("pow", ("pow", e, N(3)), ("rat", 1, 3)),
           ("pow", ("pow", e, H), N(2)), ("pow", ("pow", e, RB), X), ("pow", ("pow", e, N(4)), ("rat", 1, 4)), ("pow", ("pow", e, N(-1)), H),
           ("pow", ("fn", "exp", e), H), ("pow", ("fn", "exp", e), RB), ("fn", "log", ("fn", "exp", e)), ("fn", "exp", ("fn", "log", e)),
           ("fn", "log", ("pow", e, N(2))), ("fn", "abs", ("pow", e, N(2))), ("fn", "abs", ("pow", e, N(3))), ("fn", "abs", ("pow", e, H)),
           ("fn", "abs", ("fn", "exp", e)), ("fn", "abs", ("sqrt", e)), ("pow", N(0), ("fn", "abs", e)), ("sqrt", ("div", PA, e)), ("sqrt", ("div", e, X)),
           ("pow", ("fn", "abs", e), N(2)), ("pow", ("fn", "abs", e), N(4)), ("pow", ("fn", "abs", e), N(3)), ("sqrt", ("mul", ("pow", e, N(2)), X)),
           ("fn", "abs", ("add", e, PA)), ("fn", "abs", ("add", e, NA)), ("fn", "abs", ("mul", e, PA)), ("fn", "abs", ("add", e, N(1))),
           ("sqrt", ("mul", ("add", e, PA), X)), ("sqrt", ("mul", ("fn", "abs", e), X)), ("sqrt", ("mul", ("add", ("pow", e, N(2)), N(1)), X))]
    r = [("fn", "sign", e), ("fn", "sign", ("neg", e)), ("fn", "floor", e), ("fn", "sign", ("fn", "exp", e)), ("max", e, N(0)), ("min", e, N(0)), ("max", e, ("neg", e)),
         ("fn", "abs", ("fn", "sign", e)), ("fn", "abs", ("fn", "floor", e)), ("fn", "sign", ("fn", "abs", e)), ("fn", "sign", ("add", e, PA)),
         ("fn", "abs", ("max", e, RB)), ("fn", "abs", ("where", ("rel", "<", e, RB), e, PA)), ("fn", "atan2", e, PA), ("fn", "atan2", PA, e), ("fn", "atan2", N(0), e),
         ("fn", "atan2", e, N(0)), ("fn", "atan2", e, e), ("sqrt", ("mul", ("fn", "floor", e), X)), ("sqrt", ("mul", ("fn", "sign", e), X)),
         ("sqrt", ("mul", ("max", e, N(0)), X)), ("fn", "abs", ("add", ("fn", "floor", e), NA))]
    r += [("iverson", ("rel", o, a, b)) for o in ("<", "<=", "==", ">", ">=") for a, b in ((e, N(0)), (N(0), e))]
    r += [("iverson", ("rel", o, e, c)) for o in ("<", "<=", "==") for c in (N(-1), H, ("fn", "abs", e))]
    r += [("where", ("rel", "<", e, N(0)), N(1), e), ("where", ("rel", ">=", ("pow", e, N(2)), N(0)), e, N(7)), ("where", ("rel", "==", ("fn", "abs", e), e), N(1), N(2))]
    return out, r


def inners():
    """(expression, may be used where a real argument is required)."""
    at = [RA, PA, NA, ZA, X, N(2), N(-2), N(0), ("rat", -1, 2), ("flt", 1.5), ("flt", -1.5), ("pi",), ("e",), ("i",), ("flt", 0.0)]
    out = [(a, a not in (ZA, X, ("i",))) for a in at]
    base = [RA, PA, NA, ZA, X]
    for a in base:
        real = a in (RA, PA, NA)
        for f in ref.FUNCS:
            if f == "atan2":
                if real:
                    out.append((("fn", f, a, RB), True))
                    out.append((("fn", f, a, PB), True))
            elif real or f not in ("sign", "floor"):
                out.append((("fn", f, a), real))
        for e in (N(2), N(3), N(-1), N(-2), N(4), H, ("rat", -1, 2), ("rat", 1, 3), ("rat", 2, 3), ("rat", 3, 2), ("flt", 2.0), ("flt", 0.5), ("flt", 1.5), RB, PB, NB, ("mul", N(2), RB), X):
            out.append((("pow", a, e), real))
            out.append((("pow", ("neg", a), e), real))
            out.append((("pow", ("add", ("pow", a, e), N(1)), N(2)), real))
        for c in (N(1), N(-1), N(2), H, ("flt", -0.5), ("i",), ("pi",), RB, PB, NB, X):
            re_ = real and c not in (("i",), X)
            out.append((("add", a, c), re_))
            out.append((("mul", a, c), re_))
            out.append((("sub", a, c), re_))
            out.append((("div", a, c), re_))
            out.append((("sub", c, a), re_))
            out.append((("uneval", ("add", a, c)), re_))
        out.append((("stopd", a), real))
        out.append((("where", ("rel", "<", RA, RB), a, PB), real))
        out.append((("where", ("rel", "<", RA, RB), NB, a), real))
        if real:
            out += [(("max", a, PB), True), (("min", a, PB), True), (("max", a, NB), True), (("min", a, N(1)), True), (("iverson", ("rel", "<", a, RB)), True),
                    (("symfn", "f", a), True)]
    return out


_CASES = None


def cases():
    global _CASES
    if _CASES is None:
        cs = []
        for e, real in inners():
            p, r = probes(e)
            cs += p
            if real:
                cs += r
        random.Random(7).shuffle(cs)
        _CASES = cs
    return _CASES


class Check(ValueCheck):
    QUICK_DIRECTED = 16000
    RANDOM = {"quick": 8000, "thorough": 250000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.cases = cases()
        self.nd = len(self.cases)

    def total(self):
        return 40 + self.nd + self.RANDOM[self.tier]

    def recipe(self, i, rng):
        if i < self.nd:
            return self.cases[i]
        g = gen.Gen(rng, real=rng.random() < 0.6, syms=rng.sample(["ra", "pa", "na", "za", "x", "rb", "pb"], 3), cond=0.1, stopd=0.03, uneval=0.04)
        e = g.node(rng.choice([1, 2, 2, 3]))
        p, r = probes(e)
        return rng.choice(p + r if g.real else p)

    def run(self, i, rng):
        if i < 40:
            return self.identity(i, rng)
        n = self.recipe(i - 40, rng)
        if ref.size(n) > 150:
            return
        self.ctx.describe(repr((0, n)))
        seed = rng.randint(0, 10 ** 9)
        msg = self.verdict(n, random.Random(seed), 5, 0)
        if i % 997 == 0:
            self.ctx.sample(repr(n))
        if msg:
            self.report(n, msg, 0, seed, 5)

    def identity(self, i, rng):
        """Two symbols of one name and different sets differ, and neither is replaced for the other."""
        s = gen.sym()
        name = rng.choice(["a", "theta", "q1", "x"])
        kinds = [{}, dict(real=True), dict(positive=True), dict(nonnegative=True), dict(complex=True)]
        self.ctx.describe("identity " + name)
        es = [s.symbols(name, **k) for k in kinds]
        for a, b in itertools.combinations(range(5), 2):
            self.ctx.event("set identity checks")
            A, B = es[a], es[b]
            if A.is_identical_to(B) or s.compare(A, B) == 0:
                raise Violation("identity: %s %s" % (kinds[a], kinds[b]), "symbols of different sets compare identical")
            d = A - B
            if d.type_name != "Addition":
                raise Violation("cancel: %s %s" % (kinds[a], kinds[b]), "%s - %s simplified to %s" % (kinds[a], kinds[b], d))
            if not (A * 3 + s.cos(B)).subs(B, s.integer(2)).is_identical_to(A * 3 + s.cos(2)):
                raise Violation("subs: %s %s" % (kinds[a], kinds[b]), "substituting one symbol replaced the other")
            if not (A + B).diff(A).is_identical_to(s.integer(1)):
                raise Violation("diff: %s %s" % (kinds[a], kinds[b]), "derivative by one symbol sees the other")
            if not s.symbols(name, **kinds[a]).is_identical_to(A):
                raise Violation("same: %s" % kinds[a], "equal declarations give different symbols")

    def replay(self, text):
        style, n = ast.literal_eval(text)
        self.ctx.describe(text)
        for j in range(4):
            msg = self.verdict(n, random.Random(j), 12, style)
            if msg:
                raise Violation("value: " + repr(n), msg)
