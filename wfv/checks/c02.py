"""C02: derivatives and jacobians have the value of the true derivative."""
import ast, itertools, random
from .. import gen, ref, tree
from ..worker import Violation
from .c01 import ValueCheck, N, documented

RULE = ("scalar expressions (all functions over small inner shapes, random trees, conditionals, undefined functions, substitutions, stopped "
        "derivatives) are differentiated (orders 1-4, mixed, by symbols, unique symbols, function invocations; scalar, vector and matrix "
        "jacobians) and the stored result is compared at generic points with a high-precision numerical derivative of the request; "
        "non-trivial if a point was decisive; distinct by request")
MIN_EVENTS = {"points decided": 2000, "jacobian entries": 500, "jacobian entries agree with diff": 500}

RA, RB, RC, PA, PB, X, Y, ZA = (("sym", s) for s in ("ra", "rb", "rc", "pa", "pb", "x", "y", "za"))
H = ("rat", 1, 2)
UNARY = [f for f in ref.FUNCS if f != "atan2"]


def f_(n, *a):
    return ("fn", n) + a


def shapes():
    """(expression, variable) pairs with a real, mostly smooth value."""
    out = []
    inner = [RA, ("mul", N(2), RA), ("add", ("mul", RA, RB), N(1)), ("pow", RA, N(2)), ("div", RA, RB), ("mul", RA, RA, RB), ("sub", RB, RA), ("neg", RA),
             ("pow", RA, N(-1)), ("div", ("flt", 0.5), RA), f_("exp", RA), f_("sin", RA), ("pow", RA, N(3)), ("where", ("rel", "<", RA, RB), RA, ("mul", N(3), RA)),
             ("max", RA, RB), ("min", RA, ("mul", N(2), RB)), ("symfn", "f", RA), ("symfn", "g", RA, RB), ("symfn", "f", ("pow", RA, N(2))), ("stopd", RA), ("mul", RA, ("stopd", RA)), ("mul", ("stopd", RA), RA, RB)]
    for f in UNARY:
        for a in inner:
            out.append(f_(f, a))
            out.append(f_(f, ("mul", RB, a)))
        out.append(("mul", RA, f_(f, RA)))
        out.append(("mul", f_(f, RA), f_(f, RB), RA))
        out.append(("pow", f_(f, RA), N(2)))
        out.append(("div", N(1), f_(f, RA)))
    at = [RA, RB, ("mul", RA, RB), ("pow", RA, N(2)), ("add", RA, PA), N(2), f_("cos", RA), ("neg", RA)]
    for a, b in itertools.product(at, at):
        out.append(f_("atan2", a, b))
        out.append(("mul", a, b, f_("sin", RA)))
        out.append(("div", a, ("add", b, N(3))))
        out.append(("max", a, b))
        out.append(("min", a, b))
        out.append(("where", ("rel", "<", a, b), ("mul", a, RA), ("pow", RA, N(3))))
        out.append(("symfn", "g", a, b))
        out.append(("symfn", "g", ("symfn", "f", a), b))
        out.append(("mul", ("stopd", a), b))
        out.append(("iverson", ("rel", "<=", a, b)))
        out.append(("mul", RA, ("iverson", ("rel", ">", a, b))))
    exps = [N(2), N(3), N(-1), N(-2), N(5), H, ("rat", -1, 2), ("rat", 3, 2), ("rat", 2, 3), ("flt", 2.5), ("flt", -0.5), RA, RB, ("mul", RA, RB), ("neg", RA), ("add", RA, N(1)), ("stopd", RA)]
    bases = [PA, f_("abs", RA), ("add", ("pow", RA, N(2)), N(1)), f_("exp", RA), N(2), ("e",), ("pi",), f_("cosh", RA), ("stopd", PA), ("symfn", "f", RA), ("mul", PA, PB)]
    for b, e in itertools.product(bases, exps):
        out.append(("pow", b, e))
        out.append(("mul", RA, ("pow", b, e)))
    for e in exps[:5]:
        for b in (RA, ("add", RA, RB), ("mul", RA, RB), ("sub", ("mul", N(2), RA), PA), f_("sin", RA)):
            out.append(("pow", b, e))
    for n in range(2, 6):
        out.append(("mul",) + tuple(("add", RA, N(k)) for k in range(n)))
        out.append(("add",) + tuple(("pow", RA, N(k)) for k in range(n + 1) if k != 1))
    for u in (("symfn", "f", RB), ("symfn", "f", ("mul", RA, RB)), ("pow", RB, N(2)), ("mul", RA, f_("sin", RB)), ("symfn", "g", RA, RB)):
        for rep in (RA, ("pow", RA, N(2)), N(3), ("mul", RA, RC), f_("sin", RA), ("symfn", "f", RA)):
            out.append(("subst", u, RB, rep))
            out.append(("mul", RA, ("subst", ("deriv", 1, u, RB), RB, rep)))
    for u in (("symfn", "f", RA), ("symfn", "g", RA, RB), ("symfn", "g", RA, RA)):
        out += [("deriv", 1, u, RA), ("deriv", 2, u, RA), ("mul", RA, ("deriv", 1, u, RA)), ("pow", ("deriv", 1, u, RA), N(2))]
    return out


_C = None


def cases():
    global _C
    if _C is None:
        _C = [(n, v, k) for n in shapes() for v, k in (("ra", 1), ("rb", 1), ("pa", 1), ("ra", 2)) if v in ref.symbols(n) or v == "ra"]
        random.Random(3).shuffle(_C)
    return _C


class Check(ValueCheck):
    RANDOM = {"quick": 6000, "thorough": 150000}
    JAC = {"quick": 500, "thorough": 10000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.s = gen.sym()
        self.cases = cases()
        self.nd = len(self.cases)

    def total(self):
        return self.nd + self.RANDOM[self.tier] + self.JAC[self.tier]

    def run(self, i, rng):
        if i < self.nd:
            n, v, k = self.cases[i]
            return self.check(("d", n, ((v, k),), i % 2, i % 4, "directed"), rng)
        if i < self.nd + self.RANDOM[self.tier]:
            return self.check(self.random(rng), rng)
        self.jac(rng)

    def random(self, rng):
        k = rng.random()
        if k < 0.15:    # analytic functions of complex symbols
            g = gen.Gen(rng, real=False, cond=0.0, funcs=[f for f in UNARY if f not in ("abs", "sign", "floor")], stopd=0.02)
        else:
            g = gen.Gen(rng, real=True, symfn=0.05, cond=0.10, stopd=0.03)
        n = g.node(rng.choice([2, 3, 3, 4]))
        names = sorted(ref.symbols(n)) or ["ra"]
        order = rng.choice([1, 1, 1, 1, 2, 2, 3]) if ref.size(n) < 25 else 1
        seq = ((rng.choice(names), order),)
        if rng.random() < 0.25 and ref.size(n) < 20:
            seq = ((rng.choice(names), 1), (rng.choice(names), 1))
        return ("d", n, seq, rng.random() < 0.3, rng.randint(0, 3))

    def source(self, n, seq):
        for v, k in seq:
            n = ("deriv", k, n, ("sym", v)) if k else n
        return n

    def derive(self, e, seq, abstract, style):
        for v, k in seq:
            if k == 1 and style & 1:
                e = e.diff(gen.symbol(v), use_abstract=bool(abstract))
            elif k == 2 and style & 2:
                e = e.diff(gen.symbol(v), 1, bool(abstract)).diff(gen.symbol(v), use_abstract=bool(abstract))
            else:
                e = e.diff(gen.symbol(v), k, bool(abstract))
        return e

    def outcome(self, case, seed, npoints, count=True):
        _, n, seq, abstract, style = case[:5]
        if ref.size(n) > 60:
            return None
        try:
            e = gen.Builder(style)(n)
        except Exception as ex:
            if documented(ex):
                return None
            return "building raised %s: %s" % (type(ex).__name__, str(ex)[:300])
        try:
            e = self.derive(e, seq, abstract, style)
        except Exception as ex:
            if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError"):
                return None
            if type(ex).__name__ == "TypeError" and ref.contains(n, ("nan", "zoo")):
                return None
            return "differentiating raised %s: %s" % (type(ex).__name__, str(ex)[:300])
        t = tree.of(e)
        if ref.size(t) > 4000:
            return None
        return self.compare_points(self.source(n, seq), t, random.Random(seed), npoints, count, len(case) > 5)

    def compare_points(self, src, t, rng, npoints, count=True, strict=False):
        names = sorted(ref.symbols(src))
        und = dec = 0
        for _ in range(npoints):
            env = gen.real_point(names, rng, generic=True)
            try:
                v, why = ref.compare_deriv(src, t, env)
            except ref.Unsupported as ex:
                u = [s for s in ref.symbols(t) if s not in names and not s.startswith("u")]
                if u:
                    return "the derivative contains foreign symbols %s: %s" % (u, t)
                if count: self.ctx.event("unsupported: " + str(ex)[:50])
                return None
            if v == ref.Agreement.EQUAL:
                dec += 1
            elif v == ref.Agreement.DIFFER:
                if "not finite" in why:
                    und += 1
                    continue
                return "%s at %s; stored: %s" % (why.replace("requested value", "true derivative"), {a: str(b) for a, b in env.items()}, repr(t)[:1500])
            elif count:
                self.ctx.event("points skipped")
        if count:
            self.ctx.event("points decided", dec)
            if dec:
                self.ctx.distinct(repr(src))
        if und and not dec and strict:
            # e.g. abs(x - abs(x)): identically zero on half of the line, where f/|f| is undefined
            if count: self.ctx.event("undefined at every point")
            if not ref.contains(src, ("where", "max", "min", "iverson", "sqrt", "stopd")) and "abs" not in repr(src) and "atan2" not in repr(src) and "sign" not in repr(src) and "floor" not in repr(src):
                return "the derivative is not finite at any of %d points where the function is differentiable: %s" % (und, repr(t)[:800])
        return None

    def check(self, case, rng):
        self.ctx.describe(repr(case))
        if self.ctx.n % 50 == 0:
            self.ctx.sample(repr(case))
        seed = rng.randint(0, 10 ** 9)
        msg = self.outcome(case, seed, 3)
        if msg:
            small = gen.shrink(case[1], lambda m: self.outcome(("d", m) + case[2:], seed, 6, False) is not None)
            final = ("d", small) + case[2:]
            self.ctx.violation("derivative: %r %r" % (small, case[2]), (self.outcome(final, seed, 6, False) or msg), repr(final))

    # -- jacobians of vectors and matrices, derivatives by other kinds of variables
    def jac(self, rng, case=None):
        s = self.s
        if case is None:
            kind = rng.choice(["vec", "list", "mat", "matdiff", "unique", "invocation", "ext"])
            g = gen.Gen(rng, real=True, cond=0.05, symfn=0.03, syms=["ra", "rb", "pa"])
            m = rng.randint(1, 4)
            fs = tuple(g.node(rng.choice([1, 2, 3])) for _ in range(m))
            if rng.random() < 0.3:
                j = rng.randrange(len(fs))
                h = ("fn", rng.choice(["floor", "sign"]), rng.choice([("mul", ("sym", "ra"), ("sym", "rb")), ("add", ("sym", "rc"), ("sym", "pa")), ("fn", "sin", ("sym", "ra"))]))
                fs = fs[:j] + (rng.choice([h, ("mul", h, fs[j])]),) + fs[j + 1:]
            vs = tuple(rng.sample(["ra", "rb", "pa", "rc"], rng.randint(1, 4)))
            case = ("j", kind, fs, vs, rng.randint(0, 1), rng.randint(0, 10 ** 9))
        _, kind, fs, vs, abstract, seed = case
        if any(ref.size(f) > 40 for f in fs):
            return
        self.ctx.describe(repr(case))
        r = random.Random(seed)
        b = gen.Builder(seed % 4)
        try:
            es = [b(f) for f in fs]
        except Exception as ex:
            if documented(ex): return
            raise
        sv = [gen.symbol(v) for v in vs]

        def entry(i, j, e, f, v):
            self.ctx.event("jacobian entries")
            msg = self.compare_points(("deriv", 1, f, ("sym", v)), tree.of(e), r, 2)
            if msg:
                raise Violation("jacobian %s entry" % kind, "entry (%d,%d) = d(%r)/d%s: %s" % (i, j, f, v, msg), repr(case))
        try:
            self.jac_kind(kind, es, fs, vs, sv, abstract, r, case, entry)
        except Violation:
            raise
        except Exception as ex:
            if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError"):
                return
            raise Violation("jacobian %s raised %s" % (kind, type(ex).__name__), "%s: %s" % (type(ex).__name__, str(ex)[:500]), repr(case))

    def shape(self, kind, J, want, case):
        if tuple(J.shape) != want:
            raise Violation("jacobian %s shape" % kind, "shape %s, expected %s" % (J.shape, want), repr(case))

    def jac_kind(self, kind, es, fs, vs, sv, abstract, r, case, entry):
        s = self.s
        ab = bool(abstract)
        m, k = len(es), len(sv)
        if kind == "vec":
            V = s.vector(*es)
            J = V.jacobian(sv, use_abstract=ab) if r.random() < 0.5 else V.jacobian(s.vector(*sv), use_abstract=ab)
        elif kind == "list":
            J = s.jacobian(es, sv, use_abstract=ab) if r.random() < 0.5 else s.jacobian(s.vector(*es), s.row_vector(*sv) if k > 1 else sv, use_abstract=ab)
        elif kind == "mat":
            V = s.row_vector(*es)
            try:
                J = V.jacobian(sv, use_abstract=ab)
            except Exception as ex:
                if type(ex).__name__ == "DimensionError":
                    return
                raise
        if kind in ("vec", "list", "mat"):
            self.shape(kind, J, (m, k), case)
            for i in range(m):
                for j in range(k):
                    entry(i, j, J[i, j], fs[i], vs[j])
                    # what is not differentiable is treated as the caller asked, as by diff
                    d = es[i].diff(sv[j], use_abstract=ab)
                    self.ctx.event("jacobian entries agree with diff" + (" (abstract)" if ab and ref.contains(tree.of(d), ("deriv",)) else ""))
                    if (ref.contains(tree.of(d), ("deriv",)) != ref.contains(tree.of(J[i, j]), ("deriv",))):
                        raise Violation("jacobian %s of a function that is not differentiable" % kind, "entry (%d,%d) of the jacobian of %s by %s (use_abstract=%s) is %s, diff gives %s" % (i, j, es[i], sv[j], ab, J[i, j], d), repr(case))
        elif kind == "matdiff":
            rows = 2 if m == 4 else 1
            M = s.matrix([es[:2], es[2:]]) if m == 4 else s.matrix([es])
            for j in range(k):
                D = M.diff(sv[j], use_abstract=ab)
                self.shape(kind, D, (rows, m // rows), case)
                for i in range(m):
                    entry(i, j, D[i // (m // rows), i % (m // rows)], fs[i], vs[j])
        elif kind == "unique":
            u = s.unique_symbols(2, real=True)
            for i, (e, f) in enumerate(zip(es, fs)):
                w = e.subs(gen.symbol("ra"), u[0]).subs(gen.symbol("rb"), u[1])
                d = w.diff(u[0], use_abstract=ab).subs(u[0], gen.symbol("ra")).subs(u[1], gen.symbol("rb"))
                if ref.contains(f, ("symfn", "deriv", "subst")):
                    continue
                entry(i, 0, d, f, "ra")
                t = tree.of(w)
                if "ra" not in ref.symbols(t):
                    z = tree.of(w.diff(gen.symbol("ra")))
                    env = gen.real_point(sorted(ref.symbols(z)), r, True)
                    try:
                        val = ref.Evaluator(env)(z)
                    except (ref.Undefined, ref.Ambiguous, ref.Unsupported):
                        continue
                    if val != 0:
                        raise Violation("derivative by an absent symbol", "%s by ra is %s" % (w, z), repr(case))
        elif kind == "invocation":
            q = s.Function("q")(gen.symbol("rc"))
            Q = ("symfn", "q", ("sym", "rc"))
            for i, (e, f) in enumerate(zip(es, fs)):
                w = e.subs(gen.symbol("ra"), q)
                if ref.contains(f, ("symfn", "deriv", "subst", "stopd")):
                    continue
                d = w.diff(q, use_abstract=ab).subs(q, gen.symbol("ra"))
                entry(i, 0, d, f, "ra")
                # and by the chain rule through the invocation
                src = ("deriv", 1, put(f, Q), ("sym", "rc"))
                msg = self.compare_points(src, tree.of(w.diff(gen.symbol("rc"), use_abstract=ab)), r, 2)
                if msg:
                    raise Violation("derivative through an invocation", "%r: %s" % (src, msg), repr(case))
        elif kind == "ext":
            # an external function is opaque: zero by default, an abstract derivative on request
            fn = ext_fn()
            z = fn(*[es[0]])
            a = gen.symbol("ra")
            w = z * a + z * z
            d = w.diff(a, use_abstract=False)
            if not d.is_identical_to(z):
                raise Violation("derivative of an external call", "%s by ra is %s" % (w, d), repr(case))
            if "ra" in ref.symbols(fs[0]):
                t = tree.of(w.diff(a, use_abstract=True))
                if not ref.contains(t, ("deriv",)):
                    raise Violation("abstract derivative of an external call", "%s by ra is %s" % (w, t), repr(case))
            dz = (z ** 3 * a).diff(z)
            if not dz.is_identical_to(3 * z ** 2 * a):
                raise Violation("derivative by an external value", "got %s" % dz, repr(case))
            self.ctx.event("external call derivatives")

    def replay(self, text):
        case = ast.literal_eval(text)
        if case[0] == "j":
            return self.jac(None, case)
        self.ctx.describe(text)
        for j in range(3):
            msg = self.outcome(case, j, 8)
            if msg:
                raise Violation("derivative: %r %r" % (case[1], case[2]), msg)


def put(n, q):
    if n == ("sym", "ra"):
        return q
    return tuple(put(c, q) if isinstance(c, tuple) else c for c in n)


_X = None


def ext_fn():
    global _X
    if _X is None:
        import wrenfold as wf
        from wrenfold import external_functions
        _X = external_functions.declare_external_function("extf", [("v", wf.FloatScalar)], wf.FloatScalar)
    return _X
