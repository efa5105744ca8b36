"""C03: substitution equals evaluation at the replaced values."""
import ast, random
from .. import gen, ref, tree
from ..worker import Violation
from .c01 import ValueCheck, N, documented

RULE = ("random expressions (all node kinds, symbolic functions, deferred derivatives and substitutions) with targets drawn from their own sub-expressions, "
        "partial sums/products/powers constructed to match, conditions, function values, symbols and lists of pairs; the stored result is evaluated against the "
        "stored input with the target's value bound to the replacement (fresh symbol), or with the target's sub-trees replaced; non-trivial if a point was "
        "decisive; distinct by request")
MIN_EVENTS = {"points decided": 3000, "target replaced": 1000, "partial matches": 300, "pair lists": 300, "conditions": 100}

W = ("sym", "wq")
KINDS = ["symbol", "sub", "sub", "sub", "general", "pairs", "pairs", "cond", "partial", "partial", "nomatch", "matrix", "func"]


def replace(n, a, b):
    if n == a:
        return b
    if not isinstance(n, tuple):
        return n
    return tuple(replace(c, a, b) if isinstance(c, tuple) else c for c in n)


def occurs(n, a):
    return n == a or (isinstance(n, tuple) and any(occurs(c, a) for c in n if isinstance(c, tuple)))


def nodes(n, acc):
    if gen.is_node(n):
        acc.append(n)
        for c in n[1:]:
            if isinstance(c, tuple):
                nodes(c, acc)
    return acc


NUM = ("int", "rat", "flt", "pi", "e", "i", "true", "false", "nan", "zoo")


class Check(ValueCheck):
    RANDOM = {"quick": 30000, "thorough": 1200000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.s = gen.sym()

    def total(self):
        return self.RANDOM[self.tier]

    # ------------------------------------------------------------------ generation
    def run(self, i, rng):
        kind = KINDS[i % len(KINDS)]
        r = rng.random()
        real = r < 0.45
        g = gen.Gen(rng, real=real, symfn=0.06, cond=0.10 if kind != "cond" else 0.3, stopd=0.02)
        n = g.node(rng.choice([2, 3, 3, 4]))
        style = rng.randint(0, 3)
        names = sorted(ref.symbols(n)) or ["ra"]
        if kind == "symbol":
            if rng.random() < 0.15:
                n = self.deferred(n, rng)
                names = sorted(ref.symbols(n))
            x = rng.choice(names)
            case = ("symbol", n, (("sym", x), self.replacement(g, rng, x)))
        elif kind in ("sub", "general", "nomatch", "matrix", "func"):
            if kind == "func":
                a = ("symfn", rng.choice("fg"), ("sym", rng.choice(names))) if rng.random() < 0.5 else ("fn", rng.choice(["sin", "abs", "log", "exp", "cosh"]), g.node(1))
                n = self.plant(n, a, rng)
                t = a
            else:
                c = [m for m in nodes(n, []) if m[0] not in NUM and m[0] != "rel"]
                if not c:
                    return
                t = rng.choice(c)
            if kind == "nomatch":
                t = self.mutate(t, rng)
            if rng.random() < 0.15 and kind == "sub":
                n = self.deferred(n, rng)
            case = (kind, n, (t, W if kind in ("sub", "nomatch", "matrix") and rng.random() < 0.8 else g.node(rng.choice([0, 1, 2]))))
        elif kind == "cond":
            c = [m for m in nodes(n, []) if m[0] == "rel"]
            if not c:
                c = [("rel", "<", g.node(1, True), g.node(1, True))]
                n = ("add", n, ("where", c[0], g.node(1), ("mul", g.node(0), ("iverson", c[0]))))
            b = rng.choice([("true",), ("false",), ("rel", rng.choice(["<", "<=", "=="]), g.node(1, True), g.node(1, True))])
            case = ("cond", n, (rng.choice(c), b))
        elif kind == "partial":
            n, t, exact = self.partial(g, rng)
            case = ("partial", n, (t, W), exact)
        else:
            k = rng.randint(2, 4)
            pairs = []
            pool = names + ["wq", "ra", "x", "wr"]
            for _ in range(k):
                t = ("sym", rng.choice(pool))
                q = rng.random()
                if q < 0.45:
                    rep = ("sym", rng.choice(pool))
                elif q < 0.6:
                    rep = rng.choice([N(0), N(1), N(2), ("rat", 1, 2), ("flt", 1.5), N(-1), ("pi",)])
                else:
                    rep = gen.Gen(rng, real=real, syms=rng.sample(sorted(set(pool)), min(2, len(set(pool)))), stopd=0, uneval=0).node(rng.choice([1, 2]))
                pairs.append((t, rep))
            case = ("pairs", n) + (tuple(pairs),)
        case = case[:1] + (style,) + case[1:]
        self.go(case, rng)

    def plant(self, n, a, rng):
        k = rng.random()
        if k < 0.4: return ("add", n, ("mul", a, ("sym", "ra")))
        if k < 0.7: return ("mul", a, n)
        return ("fn", "cos", ("add", n, a))

    def deferred(self, n, rng):
        v = ("sym", rng.choice(sorted(ref.symbols(n)) or ["ra"]))
        d = ("deriv", 1, ("symfn", "g", v, ("sym", "rc")), v)
        if rng.random() < 0.5:
            d = ("subst", ("symfn", "g", v, ("sym", "rc")), v, ("add", v, N(1)))
        return ("add", n, d)

    def replacement(self, g, rng, x):
        k = rng.random()
        if k < 0.15: return N(rng.choice([0, 1, -1, 2, 3, -3]))
        if k < 0.25: return rng.choice([("rat", 1, 2), ("flt", 0.5), ("pi",), ("rat", -3, 2), ("flt", -2.0), ("i",)])
        if k < 0.4: return W
        if k < 0.5: return ("neg", ("sym", x))
        if k < 0.6: return ("pow", ("sym", x), N(2))
        return g.node(rng.choice([1, 1, 2]))

    def mutate(self, t, rng):
        """A target similar to a sub-expression, which does not occur."""
        return ("add", ("mul", t, ("sym", "zq")), N(1)) if rng.random() < 0.4 else self.swap(t, rng)

    def swap(self, t, rng):
        syms = sorted(ref.symbols(t))
        if not syms:
            return ("mul", ("sym", "zq"), t)
        return replace(t, ("sym", rng.choice(syms)), ("sym", "zq"))

    def partial(self, g, rng):
        """(input, target, whether the target must be found)."""
        S = [("sym", s) for s in ("x", "y", "ra", "pa", "rb", "za")]
        at = rng.sample(S, 4)
        fs = at[:3] + [("fn", rng.choice(["sin", "cosh", "abs"]), at[0]), ("fn", "cos", ("mul", at[1], at[2])), ("symfn", "f", at[0])]
        rng.shuffle(fs)
        k = rng.random()
        coef = lambda: rng.choice([N(1), N(1), N(2), N(-1), N(3), ("rat", 1, 2), ("rat", -2, 3)])
        if k < 0.35:        # sums
            m = rng.randint(2, 4)
            cs = [coef() for _ in range(m + 2)]
            terms = [("mul", c, f) for c, f in zip(cs, fs)]
            tc = rng.choice([None, None, N(1), N(-3), ("rat", 1, 2), ("flt", 2.5)])
            ec = rng.choice([None, None, N(2), N(3), ("rat", -5, 2), ("flt", 2.5), ("flt", 0.5)])
            t = ("add",) + tuple(terms[:m if m > 2 else 2]) + ((tc,) if tc else ())
            rest = list(terms[max(m, 2):]) + ([ec] if ec else [])
            n = ("add",) + tuple(terms[:max(m, 2)]) + tuple(rest)
            fl = [c for c in (tc, ec) if c and c[0] == "flt"]
            exact = not fl or tc == ec
            return self.wrap(n, rng, at), t, exact
        if k < 0.75:        # products
            m = rng.randint(2, 3)
            ex = [rng.choice([N(1), N(1), N(2), N(3), N(-1), ("rat", 1, 2), ("rat", 3, 2), ("sym", "rc")]) for _ in range(m)]
            tc = rng.choice([N(1), N(1), N(1), N(2), ("rat", 1, 2), ("flt", 2.5), N(6)])
            t = ("mul", tc) + tuple(("pow", f, e) for f, e in zip(fs, ex))
            p = rng.choice([1, 1, 2, 3, -1, -2])
            n = ("mul", ("pow", tc, N(p)) if tc[0] != "flt" else rng.choice([tc, N(3), ("flt", 0.5)])) + tuple(("pow", f, ("mul", e, N(p))) for f, e in zip(fs, ex)) + (("pow", fs[m], N(2)),)
            if rng.random() < 0.3:      # does not divide
                n = n + (("pow", fs[0], rng.choice([("rat", -1, 2), ("rat", 1, 3), N(1), N(-1), N(2)])),)
                return self.wrap(n, rng, at), t, False
            if tc[0] == "flt":
                return self.wrap(n, rng, at), t, False
            return self.wrap(n, rng, at), t, tc == N(1)
        e = rng.choice([N(2), N(3), ("rat", 1, 2), ("sym", "rc"), ("mul", N(2), ("sym", "rc")), N(-1), ("rat", -3, 2), ("flt", 1.5), ("mul", ("sym", "rc"), ("sym", "rb"))])
        b = rng.choice(fs + [("add", fs[0], N(1)), N(2), ("e",)])
        t = ("pow", b, e)
        p = rng.choice([N(1), N(2), N(3), N(-1), N(-2), ("rat", 3, 2), ("rat", 7, 3), ("rat", -5, 2), ("rat", 1, 2)])
        ne = ("mul", e, p)
        exact = p[0] == "int"
        if rng.random() < 0.4:
            ne = ("add", ne, rng.choice([N(5), fs[1], ("rat", 1, 3), ("mul", N(2), at[3])]))
            exact = False
        if b[0] in ("int",) or e[0] == "flt":
            exact = False
        return self.wrap(("pow", b, ne), rng, at), t, exact

    def wrap(self, n, rng, at):
        k = rng.random()
        if k < 0.3: return n
        if k < 0.45: return ("fn", "sin", n)
        if k < 0.6: return ("mul", ("symfn", "h", n), ("sym", "ub"))
        if k < 0.75: return ("add", ("mul", ("sym", "ub"), ("fn", "exp", n)), at[3])
        if k < 0.9: return ("symfn", "h", n, ("sym", "ub"))
        return ("where", ("rel", "<", ("sym", "rb"), ("sym", "pa")), n, ("sym", "ub"))

    # ------------------------------------------------------------------ execution
    def go(self, case, rng):
        if ref.size(case[2]) > 90:
            return
        self.ctx.describe(repr(case))
        if self.ctx.n % 60 == 0:
            self.ctx.sample(repr(case))
        seed = rng.randint(0, 10 ** 9)
        msg = self.outcome(case, seed)
        if msg:
            small = gen.shrink(case[2], lambda m: self.outcome(case[:2] + (m,) + case[3:], seed, 6, False) is not None) if case[0] not in ("partial", "nomatch") else case[2]
            final = case[:2] + (small,) + case[3:]
            self.ctx.violation("substitution %s: %r" % (case[0], small), self.outcome(final, seed, 6, False) or msg, repr(final))

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        for j in range(4):
            msg = self.outcome(case, j, 8)
            if msg:
                raise Violation("substitution %s: %r" % (case[0], case[2]), msg)

    def known(self, entry):
        ref.STRICT = True
        try:
            self.replay(entry["input"])
        finally:
            ref.STRICT = False

    def build(self, style, *ns):
        b = gen.Builder(style)
        try:
            return [b(n) for n in ns]
        except Exception as ex:
            if documented(ex) or isinstance(ex, OverflowError):
                return None
            raise Violation("building", "%s: %s" % (type(ex).__name__, str(ex)[:300]))

    def apply(self, e, t, r, style):
        s = self.s
        k = style % 4
        if k == 0: return e.subs(t, r)
        if k == 1: return e.subs([(t, r)])
        if k == 2: return s.subs(e, t, r)
        return s.subs(e, [(t, r)])

    def outcome(self, case, seed, npoints=3, count=True):
        try:
            return getattr(self, "k_" + case[0])(case, random.Random(seed), npoints, count)
        except Violation as v:
            return "%s: %s" % (v.key, v.msg)
        except (ref.Unsupported, ref.Undefined, ref.Ambiguous) as ex:
            return None
        except Exception as ex:
            if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError"):
                return None
            if documented(ex) and type(ex).__name__ == "TypeError":
                m = str(ex)
                if "Derivatives can only be taken" in m or "Cannot perform a substitution" in m or "not comparable" in m or "undefined" in m or "relational" in m.lower() or "complex" in m.lower():
                    if count: self.ctx.event("TypeError: " + m[:30])
                    return None
            if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError)):
                return "raised %s: %s" % (type(ex).__name__, str(ex)[:400])
            raise

    def points(self, src, out, rng, npoints, count, bind=None, valid=None):
        """bind: (symbol name, node) whose value in env is bound to the symbol."""
        names = set(ref.symbols(src))
        if bind:
            names |= ref.symbols(bind[1])
            names.discard(bind[0])
        extra = ref.symbols(out) - names - ({bind[0]} if bind else set())
        extra = {x for x in extra if not x.startswith("u") or not x[1:].isdigit()}
        if extra and ref.contains(out, ("zoo", "nan")):
            return None
        if extra:
            return "the result contains symbols that occur in neither operand: %s: %s" % (sorted(extra), repr(out)[:800])
        dec = 0
        for _ in range(npoints):
            env = gen.point(sorted(names), rng)
            if valid and not valid(env):
                continue
            if bind:
                try:
                    env[bind[0]] = ref.Evaluator(env, float_mode=ref.has_float(src) or ref.has_float(out))(bind[1])
                except (ref.Undefined, ref.Ambiguous):
                    continue
            v, why = ref.compare(src, out, env)
            if v == ref.Agreement.EQUAL:
                dec += 1
            elif v == ref.Agreement.DIFFER:
                if bind and ((env[bind[0]] == 0 and "not finite" in why) or self.conditioned(src, out, env, bind)):
                    if count: self.ctx.event("points skipped")
                    continue
                return "%s at %s; stored: %s" % (why, {a: str(b) for a, b in env.items()}, repr(out)[:1200])
            elif count:
                self.ctx.event("points skipped")
        if count:
            self.ctx.event("points decided", dec)
            if dec:
                self.ctx.distinct(repr((src, out)))
        return None

    def conditioned(self, src, out, env, bind):
        """Whether the difference is explained by the rounding of the bound value: evaluate it at high precision."""
        old = ref.mp.dps
        ref.mp.dps = 220
        try:
            fm = ref.has_float(src) or ref.has_float(out)
            e2 = dict(env)
            e2[bind[0]] = ref.Evaluator(env, chop=ref.mpf(10) ** -210, float_mode=fm)(bind[1])
            if not ref.STRICT and ref.known_classes(replace(src, bind[1], ("sym", bind[0], "unknown")), e2, fm):
                return True
            return ref.compare(src, out, e2)[0] != ref.Agreement.DIFFER
        except (ref.Undefined, ref.Ambiguous):
            return True
        finally:
            ref.mp.dps = old

    # -- one symbol by an expression
    def k_symbol(self, case, rng, npoints, count):
        _, style, n, (x, r) = case
        b = self.build(style, n, x, r)
        if b is None: return None
        e, xe, re_ = b
        t0, tr = tree.of(e), tree.of(re_)
        tx = tree.of(xe)
        if ref.contains(t0, ("deriv", "subst")):
            # K4: symbols bound by a deferred derivative or substitution may capture those of the replacement
            if not ref.STRICT and not self.unbound(t0, x, tr):
                return None
            return self.points(t0, tree.of(self.apply(e, xe, re_, style)), rng, npoints, count, bind=(x[1], tr))
        out = tree.of(self.apply(e, xe, re_, style))
        if not occurs(tr, tx) and occurs(out, tx):
            return "symbol %s is left behind: %r" % (x, out)
        if not occurs(t0, tx) and out != t0 and not ref.contains(t0, ("zoo", "nan")):
            return "nothing matches but the expression changed: %r" % (out,)
        if count and occurs(t0, tx): self.ctx.event("target replaced")
        return self.points(replace(t0, tx, tr), out, rng, npoints, count)

    def unbound(self, t, x, r):
        """No deferred node of t binds x (unless r is a fresh symbol) or a symbol of r."""
        bound = set()
        for m in nodes(t, []):
            if m[0] == "deriv": bound |= ref.symbols(m[3])
            if m[0] == "subst": bound |= ref.symbols(m[2])
        free = ref.symbols(r)
        return x[1] not in free and not bound & free and (x[1] not in bound or (r[0] == "sym" and not free & ref.symbols(t)))

    # -- a sub-expression by a fresh symbol
    def k_sub(self, case, rng, npoints, count):
        _, style, n, (t, r) = case
        b = self.build(style, n, t, r)
        if b is None: return None
        e, te, re_ = b
        if r != W:
            return self.k_general(case, rng, npoints, count)
        t0, tt = tree.of(e), tree.of(te)
        if tt[0] in NUM:
            return None
        if any(m[0] in ("deriv", "subst") and ref.symbols(tt) & ref.symbols(m[3] if m[0] == "deriv" else m[2]) for m in nodes(t0, [])):
            return None     # the target contains a bound symbol
        o = self.apply(e, te, re_, style)
        out = tree.of(o)
        if occurs(t0, tt):
            if occurs(out, tt) and not ref.contains(t0, ("deriv", "subst")):
                return "target %r still occurs in %r" % (tt, out)
            if count: self.ctx.event("target replaced")
        return self.points(t0, out, rng, npoints, count, bind=("wq", tt))

    # -- a sub-expression by an arbitrary expression
    def k_general(self, case, rng, npoints, count):
        _, style, n, (t, r) = case
        b = self.build(style, n, t, r, W)
        if b is None: return None
        e, te, re_, we = b
        t0, tt, tr = tree.of(e), tree.of(te), tree.of(re_)
        if tt[0] in NUM or ref.contains(t0, ("deriv", "subst")):
            return None
        out = tree.of(self.apply(e, te, re_, style))
        if tt[0] in ("add", "mul", "pow"):
            ow = tree.of(self.apply(e, te, we, style + 1))
            src = replace(ow, tree.of(we), tr)
        else:
            src = replace(t0, tt, tr)
            if count and occurs(t0, tt): self.ctx.event("target replaced")
        if out == ("nan",) and tr in (("int", 0), ("flt", 0.0)):
            return None     # products of powers of zero: 0**0 and zoo arise in an unspecified order
        return self.points(src, out, rng, npoints, count)

    k_func = k_general

    def k_partial(self, case, rng, npoints, count):
        _, style, n, (t, r), exact = case
        b = self.build(style, n, t, r)
        if b is None: return None
        e, te, re_ = b
        t0, tt = tree.of(e), tree.of(te)
        if tt[0] in NUM:
            return None
        out = tree.of(self.apply(e, te, re_, style))
        if "wq" in ref.symbols(out):
            if count: self.ctx.event("partial matches")
        elif exact and tt[0] == "pow" and not any(m[0] == "pow" and m[1] == tt[1] for m in nodes(t0, [])):
            pass        # the exponent became one
        elif exact and tt[0] in ("add", "mul", "pow") and len(tt) == len(t) - (1 if t[0] == "mul" else 0):
            return "target %r was not found in %r" % (tt, t0)
        return self.points(t0, out, rng, npoints, count, bind=("wq", tt))

    def k_nomatch(self, case, rng, npoints, count):
        _, style, n, (t, r) = case
        b = self.build(style, n, t, r)
        if b is None: return None
        e, te, re_ = b
        tt = tree.of(te)
        if tt[0] in NUM or "zq" not in ref.symbols(tt) or ref.contains(tree.of(e), ("zoo", "nan")):
            return None
        o = self.apply(e, te, re_, style)
        if not o.is_identical_to(e):
            return "the target contains a symbol that does not occur, but %s became %s" % (e, o)
        if count:
            self.ctx.event("unchanged")
            self.ctx.distinct(repr(case))
        return None

    # -- conditions
    def k_cond(self, case, rng, npoints, count):
        _, style, n, (t, r) = case
        b = self.build(style, n, t, r)
        if b is None: return None
        e, te, re_ = b
        t0, tt, tr = (tree.of(z) for z in b)
        if tt[0] in NUM:
            return None
        out = tree.of(self.apply(e, te, re_, style))
        if count and occurs(t0, tt): self.ctx.event("conditions")
        msg = self.points(replace(t0, tt, tr), out, rng, npoints, count)
        if msg:
            return msg
        # a symbol inside the condition itself
        x = rng.choice(sorted(ref.symbols(tt)) or ["ra"])
        xe = gen.symbol(x)
        rep = rng.choice([("int", 3), ("rat", -1, 2), ("sym", "rc"), ("mul", N(2), ("sym", "rc"))])
        be = self.build(style, rep)[0]
        out = tree.of(self.apply(te, xe, be, style))
        src = replace(tt, tree.of(xe), tree.of(be))
        return self.points(("iverson", src), ("iverson", out), rng, npoints, count)

    # -- several pairs, in order
    def k_pairs(self, case, rng, npoints, count):
        _, style, n, pairs = case
        b = self.build(style, n, *[z for p in pairs for z in p])
        if b is None: return None
        e, rest = b[0], b[1:]
        ps = list(zip(rest[::2], rest[1::2]))
        t0 = tree.of(e)
        if ref.contains(t0, ("deriv", "subst")):
            return None
        out = (e.subs(ps) if style % 2 else self.s.subs(e, ps))
        src = t0
        for a, c in ps:
            src = replace(src, tree.of(a), tree.of(c))
            if ref.size(src) > 3000:
                return None
        if count: self.ctx.event("pair lists")

        def valid(env):
            # every replacement lies in the declared set of its target
            env = dict(env)
            for a, c in reversed(ps):
                name, c = tree.of(a)[1], tree.of(c)
                try:
                    v = ref.Evaluator(env)(c)
                except (ref.Undefined, ref.Ambiguous, ref.Unsupported):
                    return False
                k = gen.symbol_set(name)
                if k in ("real", "positive", "nonnegative"):
                    if not ref.is_real(v) or (k == "positive" and ref.re(v) <= 0) or (k == "nonnegative" and ref.re(v) < 0):
                        return False
                env[name] = v
            return True
        return self.points(src, tree.of(out), rng, npoints, count, valid=valid)

    # -- element-wise in matrices
    def k_matrix(self, case, rng, npoints, count):
        _, style, n, (t, r) = case
        s = self.s
        b = self.build(style, n, t, r)
        if b is None: return None
        e, te, re_ = b
        if tree.of(te)[0] in NUM:
            return None
        x = gen.symbol("x")
        M = s.matrix([[e, te, e + te], [x, e * te, te ** 2]])
        o = self.apply(M, te, re_, style)
        if tuple(o.shape) != (2, 3):
            return "shape %s" % (o.shape,)
        for i in range(2):
            for j in range(3):
                w = M[i, j].subs(te, re_)
                if not o[i, j].is_identical_to(w):
                    return "element (%d,%d) is %s, expected %s" % (i, j, o[i, j], w)
        if count:
            self.ctx.event("matrices")
            self.ctx.distinct(repr(case))
        return None
