"""C04: distribute, collect and numerical evaluation preserve value."""
import ast, math, random
from .. import gen, ref, tree
from ..worker import Violation
from .c01 import ValueCheck, N, documented
from .c03 import replace, nodes, occurs

RULE = ("products, powers and quotients of sums (integer, half-integer and symbolic exponents, nested in functions and conditionals) are distributed, sums of products of "
        "powers are collected by one or more terms, closed constant expressions are evaluated; results are compared with the stored input at points of the "
        "declared sets, and checked for unexpanded products and repeated powers; non-trivial if a point was decisive; distinct by request")
MIN_EVENTS = {"points decided": 3000, "distribute": 500, "collect": 500, "eval": 500, "expanded": 300, "regrouped": 200}

S = [("sym", s) for s in ("x", "y", "ra", "pa", "rb", "za", "na")]


def unexpanded(t):
    """The first product of a sum, or positive integer (or half-integer) power of a sum, in t."""
    for m in nodes(t, []):
        if m[0] == "mul" and any(c[0] == "add" for c in m[1:]):
            return m
        if m[0] == "pow" and m[1][0] == "add" and m[2][0] == "int" and m[2][1] > 1:
            return m
        if m[0] == "pow" and m[1][0] == "add" and m[2][0] == "rat" and m[2][2] == 2 and m[2][1] > 1:
            return m
        if m[0] == "mul" and any(c[0] == "pow" and c[1][0] == "add" and c[2][0] == "int" and c[2][1] > 1 for c in m[1:]):
            return m
    return None


def terms_after(n, worst):
    """Upper bound of the number of terms after expansion; worst[0] is the maximum over all nodes."""
    if not gen.is_node(n):
        return 1
    k = [terms_after(c, worst) for c in n[1:] if isinstance(c, tuple)]
    r = 1
    if n[0] in ("add", "sub"):
        r = sum(k)
    elif n[0] in ("mul", "div", "neg"):
        for j in k: r *= j
    elif n[0] == "pow" and n[2][0] in ("int", "rat"):
        e = abs(n[2][1])
        r = 1 if k[0] == 1 else 10 ** 9 if e > 70 else min(k[0] ** e, math.comb(e + k[0] - 1, e))
    elif n[0] == "pow":
        r = k[0]
    worst[0] = max(worst[0], r)
    return r


def factors(t):
    return t[1:] if t[0] == "mul" else (t,)


def repeated(t, terms):
    """An addition in t that holds two terms with the same power of a collected term."""
    for m in nodes(t, []):
        if m[0] != "add":
            continue
        seen = {}
        for c in m[1:]:
            for i, x in enumerate(terms):
                hit = None
                for f in factors(c):
                    if f == x: hit = ("int", 1)
                    elif f[0] == "pow" and f[1] == x: hit = f[2]
                    elif x[0] == "pow" and f[0] == "pow" and f[1] == x[1] and f == x: hit = ("int", 1)
                    if hit: break
                if hit:
                    k = (i, hit)
                    if k in seen:
                        return m, x, hit
                    seen[k] = c
                    break
    return None


class Check(ValueCheck):
    RANDOM = {"quick": 16000, "thorough": 500000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.s = gen.sym()

    def total(self):
        return self.RANDOM[self.tier]

    # ------------------------------------------------------------------ generation
    def summand(self, rng, at, d):
        k = rng.random()
        if k < 0.3: return rng.choice(at)
        if k < 0.45: return N(rng.choice([1, 2, -1, 3, -5]))
        if k < 0.5: return rng.choice([("rat", 1, 2), ("flt", 0.5), ("pi",), ("rat", -2, 3), ("i",)])
        if k < 0.7: return ("mul", rng.choice([N(2), N(-1), ("rat", 1, 2), rng.choice(at)]), rng.choice(at))
        if k < 0.8: return ("pow", rng.choice(at), rng.choice([N(2), N(3), N(-1), ("rat", 1, 2)]))
        if k < 0.88: return ("fn", rng.choice(["sin", "exp", "cos", "abs"]), self.poly(rng, at, d - 1) if d > 0 else rng.choice(at))
        if d > 0: return self.prod(rng, at, d - 1)
        return rng.choice(at)

    def poly(self, rng, at, d):
        return ("add",) + tuple(self.summand(rng, at, d) for _ in range(rng.choice([2, 2, 3])))

    def prod(self, rng, at, d):
        fs = []
        base = self.poly(rng, at, d)
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            b = base if rng.random() < 0.35 else self.poly(rng, at, d) if k < 0.8 else self.summand(rng, at, d)
            e = rng.choice([None, None, None, N(2), N(3), N(-1), N(-2), ("rat", 1, 2), ("rat", 3, 2), ("rat", -1, 2), ("rat", -3, 2), ("rat", 1, 3), ("rat", 5, 2), rng.choice(at)])
            fs.append(b if e is None else ("pow", b, e))
        return fs[0] if len(fs) == 1 else ("mul",) + tuple(fs)

    def combining(self, rng, at):
        """Sums whose products combine into new powers of a sum; exponents that expand to a number."""
        b = ("add", rng.choice(at), rng.choice([N(1), at[1], ("mul", N(-2), at[1])]))
        if rng.random() < 0.3:
            v = rng.choice(at)
            e = ("add", ("mul", ("add", v, N(1)), ("sub", v, N(1))), ("neg", ("pow", v, N(2))), N(rng.choice([1, 1, 2, 3, 0, 4])))
            return ("pow", b, e) if rng.random() < 0.6 else ("mul", at[1], ("pow", b, e))
        k = rng.choice([1, 2, 2, 3])
        h = rng.choice([("rat", 1, 2), ("rat", 3, 2), ("sym", "rc"), ("rat", 1, 3), ("mul", N(2), ("sym", "rc")), N(-1)])
        e2 = ("sub", rng.choice([N(k), ("rat", 3, 2), ("rat", 5, 2)]), h)
        f = lambda e: ("mul", rng.choice([N(1), at[0], N(-2)]), ("pow", b, e))
        return ("mul", ("add", f(h), rng.choice(at)), ("add", f(e2), rng.choice(at + [N(3)])))

    def high(self, rng, at):
        """A sum to a high power, positive or negative, alone or with a half-integer part."""
        k = rng.choice([2, 2, 2, 3])
        ts = [rng.choice(at), rng.choice([N(1), N(-1), at[1], ("neg", at[1]), ("pow", at[1], N(2))])] + ([("pi",)] if k == 3 else [])
        top = 60 if k == 2 else 16
        e = rng.choice([rng.randint(6, top), rng.choice([8, 15, 16, 31, 32, 33, 47, 63, 64]) if k == 2 else 15])
        w = rng.choice([N(e), N(e), N(e), N(-e), ("rat", 2 * min(e, 24) + 1, 2)])
        n = ("pow", ("add",) + tuple(ts), w)
        return n if rng.random() < 0.6 else ("mul", rng.choice(at), n)

    def run(self, i, rng):
        kind = ("dist", "coll", "eval", "dist")[i % 4]
        at = rng.sample(S, rng.choice([2, 2, 3]))
        style = rng.randint(0, 3)
        if kind == "dist":
            q = rng.random()
            if q < 0.06:
                n = self.high(rng, at)
                q = 1 if rng.random() < 0.6 else 0.5
            elif q < 0.16:
                n = self.combining(rng, at)
            elif q < 0.75:
                n = self.prod(rng, at, rng.choice([0, 1, 1, 2]))
            if q < 0.75:
                k = rng.random()
                if k < 0.15: n = ("fn", rng.choice(["sin", "exp"]), n)
                elif k < 0.3: n = ("add", n, self.prod(rng, at, 0))
                elif k < 0.38: n = ("where", ("rel", "<", ("mul", ("sym", "ra"), ("add", ("sym", "rb"), N(1))), ("sym", "pa")), n, self.prod(rng, at, 0))
                elif k < 0.45: n = ("symfn", "f", n)
                elif k < 0.5: n = ("max", ("mul", ("sym", "ra"), ("add", ("sym", "rb"), N(1))), ("pow", ("add", ("sym", "ra"), ("sym", "pa")), N(2)))
            elif q < 1:
                n = gen.Gen(rng, symfn=0.03).node(rng.choice([2, 3, 4]))
            case = ("dist", style, n)
        elif kind == "coll":
            ts = []
            terms = rng.sample(at, rng.choice([1, 1, 2])) if rng.random() < 0.8 else [("fn", rng.choice(["sin", "cosh", "exp"]), at[0])] + ([at[1]] if rng.random() < 0.5 else [])
            if rng.random() < 0.06:
                terms = [("add", at[0], N(1))]
            others = at + [("sym", "rc"), ("fn", "cos", at[0]), ("pi",)]
            for _ in range(rng.randint(2, 7)):
                fs = []
                for x in terms:
                    e = rng.choice([None, N(1), N(1), N(2), N(3), N(-1), ("rat", 1, 2), ("sym", "rc"), ("flt", 0.5)]) if rng.random() < 0.8 else None
                    if e is not None:
                        fs.append(("pow", x, e))
                for _ in range(rng.randint(0, 2)):
                    fs.append(rng.choice(others))
                if rng.random() < 0.4:
                    fs.append(rng.choice([N(2), N(-3), ("rat", 1, 2), N(-1)] + ([("flt", 1.5)] if rng.random() < 0.2 else [])))
                if rng.random() < 0.12:
                    fs.append(self.poly(rng, at, 0))
                ts.append(("mul",) + tuple(fs) if len(fs) > 1 else fs[0] if fs else N(rng.randint(1, 5)))
            n = ("add",) + tuple(ts)
            k = rng.random()
            if k < 0.15: n = ("fn", "sin", n)
            elif k < 0.3: n = ("mul", n, ("symfn", "f", n))
            elif k < 0.35: n = ("where", ("rel", "<", ("sym", "ra"), ("sym", "rb")), n, ("sym", "x"))
            case = ("coll", style, n, tuple(terms))
        else:
            n = gen.Gen(rng, real=rng.random() < 0.5, uneval=0.02, stopd=0, complexi=0.1).node(rng.choice([1, 2, 3, 3]))
            g = gen.Gen(rng, floats=0.15)
            for x in sorted(ref.symbols(n)):
                v = g.number() if rng.random() < 0.7 else rng.choice([("pi",), ("e",), ("sqrt", N(2)), ("mul", N(2), ("pi",))])
                if gen.symbol_set(x) in ("positive", "nonnegative"):
                    v = ("fn", "abs", v)
                n = replace(n, ("sym", x), v)
            case = ("eval", style, n)
        self.go(case, rng)

    # ------------------------------------------------------------------ execution
    def go(self, case, rng):
        w = [1]
        terms_after(case[2], w)
        if ref.size(case[2]) > 110 or w[0] > (250 if self.tier == "quick" else 1500):
            self.ctx.event("too large")
            return
        self.ctx.describe(repr(case))
        if self.ctx.n % 60 == 0:
            self.ctx.sample(repr(case))
        seed = rng.randint(0, 10 ** 9)
        msg = self.outcome(case, seed)
        if msg:
            small = gen.shrink(case[2], lambda m: self.outcome(case[:2] + (m,) + case[3:], seed, 6, False) is not None)
            final = case[:2] + (small,) + case[3:]
            self.ctx.violation("%s: %r" % (case[0], small), self.outcome(final, seed, 6, False) or msg, repr(final))

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        for j in range(4):
            msg = self.outcome(case, j, 8)
            if msg:
                raise Violation("%s: %r" % (case[0], case[2]), msg)

    def known(self, entry):
        ref.STRICT = True
        try:
            self.replay(entry["input"])
        finally:
            ref.STRICT = False

    def outcome(self, case, seed, npoints=3, count=True):
        b = gen.Builder(case[1])
        try:
            e = b(case[2])
            extra = [b(t) for t in case[3]] if len(case) > 3 else []
        except Exception as ex:
            if documented(ex) or isinstance(ex, OverflowError):
                return None
            return "building raised %s: %s" % (type(ex).__name__, str(ex)[:300])
        try:
            return getattr(self, "k_" + case[0])(case, e, extra, random.Random(seed), npoints, count)
        except (ref.Unsupported,):
            return None
        except Exception as ex:
            if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError"):
                return None
            if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError)):
                if type(ex).__name__ == "TypeError" and ref.contains(tree.of(e), ("zoo", "nan")):
                    return None
                return "raised %s: %s" % (type(ex).__name__, str(ex)[:400])
            raise

    def points(self, src, out, rng, npoints, count):
        names = ref.symbols(src)
        extra = ref.symbols(out) - names
        if extra:
            return "the result contains new symbols %s" % sorted(extra)
        dec = 0
        for _ in range(npoints if names else 1):
            env = gen.point(sorted(names), rng)
            v, why = ref.compare(src, out, env)
            if v == ref.Agreement.EQUAL:
                dec += 1
            elif v == ref.Agreement.DIFFER:
                return "%s at %s; stored: %s" % (why, {a: str(c) for a, c in env.items()}, repr(out)[:1200])
            elif count:
                self.ctx.event("points skipped")
        if count:
            self.ctx.event("points decided", dec)
            if dec:
                self.ctx.distinct(repr((src, out)))
        return None

    def k_dist(self, case, e, extra, rng, npoints, count):
        s = self.s
        k = rng.random()
        if k < 0.5: o = e.distribute()
        elif k < 0.8: o = s.distribute(e)
        elif k < 0.9: o = s.vector(e, 1).distribute()[0]
        else: o = s.distribute(s.matrix([[1, e]]))[0, 1]
        t0, out = tree.of(e), tree.of(o)
        if ref.size(out) > 2500:
            return None
        msg = self.points(t0, out, rng, npoints, count)
        if msg:
            return msg
        u = unexpanded(out)
        if u:
            return "not expanded: %s in %s" % (repr(u)[:500], repr(out)[:800])
        if count:
            self.ctx.event("distribute")
            if unexpanded(t0): self.ctx.event("expanded")
        return None

    def k_coll(self, case, e, extra, rng, npoints, count):
        k = rng.random()
        if len(extra) == 1 and k < 0.5: o = e.collect(extra[0])
        elif k < 0.8: o = e.collect(extra)
        else: o = self.s.vector(2, e).collect(extra)[1] if len(extra) > 1 or k < 0.9 else self.s.vector(2, e).collect(extra[0])[1]
        t0, out, tt = tree.of(e), tree.of(o), [tree.of(x) for x in extra]
        msg = self.points(t0, out, rng, npoints, count)
        if msg:
            return msg
        r = repeated(out, tt)
        if r and not ref.contains(out, ("nan", "zoo")) and not self.inside(t0, tt):
            return "two terms with %s to the power %s in %s" % (r[1], r[2], repr(r[0])[:800])
        if count:
            self.ctx.event("collect")
            if repeated(t0, tt): self.ctx.event("regrouped")
        return None

    def inside(self, t, terms):
        """Whether a coefficient of a collected term contains a collected term (or is collected inside another one)."""
        for m in nodes(t, []):
            if m[0] == "mul":
                rest = [f for f in m[1:] if f not in terms and not (f[0] == "pow" and f[1] in terms and not any(occurs(f[2], x) for x in terms))]
                if len(rest) < len(m) - 1 and any(f[0] == "add" and occurs(f, x) for f in rest for x in terms):
                    return True
        return any(occurs(a, b) for a in terms for b in terms if a != b)

    def k_eval(self, case, e, extra, rng, npoints, count):
        t0 = tree.of(e)
        if ref.symbols(case[2]):
            return None
        if ref.contains(t0, ("zoo", "nan")):
            return None
        if ref.contains(t0, ("deriv",)):
            return None
        vals = []
        try:
            vals.append(e.eval())
        except Exception as ex:
            # only expressions that are already numeric are coerced (pinned by test_eval); no partial answers
            if type(ex).__name__ != "TypeError" or t0[0] in ("int", "flt"):
                raise
            if count: self.ctx.event("not coerced")
        try:
            m = self.s.matrix([[e, 1], [2.5, e]]).eval()
        except Exception as ex:
            if type(ex).__name__ != "TypeError":
                raise
            # powers with a complex value stay symbolic; expressions that are real throughout must evaluate
            ev = ref.Evaluator({}, float_mode=True)
            try:
                ev(t0)
            except (ref.Undefined, ref.Ambiguous):
                return None
            safe = all(m[0] not in ("uneval", "i") and (m[0] != "pow" or m[2][0] == "int" or (m[1][0] in ("int", "rat", "flt", "pi", "e") and ref.Evaluator({})(m[1]) > 0))
                       and (m[0] != "fn" or m[1] in ("cos", "sin", "exp", "abs", "sinh", "cosh", "tanh", "atan", "asinh", "floor", "sign")) for m in nodes(t0, []))
            if ev.nonreal or ev.edge or not safe:
                if count: self.ctx.event("complex value not coerced")
                return None
            raise
        if m.shape != (2, 2) or m[0, 1] != 1 or m[1, 0] != 2.5:
            return "matrix evaluated to %s" % m
        vals += [m[0, 0].item(), m[1, 1].item()]
        if count: self.ctx.event("eval")
        for v in vals:
            msg = self.evaluated(case, t0, v, count)
            if msg:
                return msg
        return None

    def evaluated(self, case, t0, v, count):
        if isinstance(v, bool) or not isinstance(v, (int, float, complex)):
            return "eval returned a %s" % type(v).__name__
        if isinstance(v, int):
            out = ("int", v)
        elif isinstance(v, float):
            out = ("flt", v)
        else:
            out = ("add", ("flt", v.real), ("mul", ("flt", v.imag), ("i",)))
        bad = any(not math.isfinite(c) for c in ((v.real, v.imag) if isinstance(v, complex) else (v,)))
        for src in (t0, case[2]):
            if bad:
                try:
                    ev = ref.Evaluator({}, float_mode=True)
                    ev(src)
                    return "eval returned %s" % v
                except (ref.Undefined, ref.Ambiguous):
                    return None
            w, why = ref.compare(src, out, {}, float_mode=True)
            if w == ref.Agreement.DIFFER and abs(v) < 1e-20:
                try:        # the reference takes values below its rounding threshold as zero
                    if abs(ref.Evaluator({}, float_mode=True)(src)) < 1e-20:
                        continue
                except (ref.Undefined, ref.Ambiguous):
                    pass
            if w == ref.Agreement.DIFFER:
                return "%s; eval returned %s" % (why, v)
            if w == ref.Agreement.EQUAL and count:
                self.ctx.event("points decided")
                self.ctx.distinct(repr(src))
        return None
