"""C16: SymPy conversion preserves meaning in both directions."""
import random
import signal
import mpmath
from mpmath import mpf
from .. import gen, ref, tree
from ..worker import Violation

RULE = ("random wrenfold scalars, booleans and matrices (all node kinds) converted to SymPy with and without evaluation, random SymPy expressions (including multi-branch Piecewise, Heaviside, multi-variable Derivative and Subs, "
        "relations in all six directions, rationals, floats, functions) converted to wrenfold, and round trips; both sides are read structurally and evaluated at points of the declared sets by the same independent evaluator; "
        "symbol names and sets and matrix layouts compared exactly; non-trivial if a value was decided; distinct by recipe")
MIN_EVENTS = {"to sympy values": 6000, "from sympy values": 5000, "round trip values": 3000, "symbols checked": 4000, "matrix elements": 3000, "booleans": 500, "refusals": 300, "special forms": 600}
SETS = {"unknown": {}, "real": dict(real=True), "positive": dict(positive=True), "nonnegative": dict(nonnegative=True), "complex": dict(complex=True)}
TREESET = {"unknown": "unknown", "real": "real", "positive": "real_positive", "nonnegative": "real_non_negative", "complex": "complex"}


class Slow(BaseException):
    """SymPy (its own simplification, not the conversion) takes too long."""


def slow(*a): raise Slow()


class FromSp:
    """Reads a SymPy object structurally into a node."""

    def __init__(self, sp):
        self.sp = sp
        self.syms = {}
        self.n = 0
        B = {"cos": "cos", "sin": "sin", "tan": "tan", "acos": "acos", "asin": "asin", "atan": "atan", "cosh": "cosh", "sinh": "sinh", "tanh": "tanh", "acosh": "acosh", "asinh": "asinh",
             "atanh": "atanh", "log": "log", "Abs": "abs", "sign": "sign", "floor": "floor", "atan2": "atan2"}
        self.fns = {getattr(sp, k): v for k, v in B.items()}

    def symbol(self, e):
        k = "unknown"
        if e.is_positive: k = "positive"
        elif e.is_nonnegative: k = "nonnegative"
        elif e.is_real: k = "real"
        elif e.is_complex: k = "complex"
        self.syms.setdefault(e.name, set()).add(TREESET[k])
        return ("sym", e.name)

    def __call__(self, e):
        sp = self.sp
        self.n += 1
        if self.n > 3000: raise ref.Unsupported("large")
        if isinstance(e, (bool, int)): e = sp.sympify(e)
        if isinstance(e, float): e = sp.Float(e)
        if e is sp.S.true: return ("true",)
        if e is sp.S.false: return ("false",)
        if e is sp.S.NaN: return ("nan",)
        if e is sp.zoo: return ("zoo",)
        if e is sp.pi: return ("pi",)
        if e is sp.E: return ("e",)
        if e is sp.I: return ("i",)
        if isinstance(e, sp.Integer): return ("int", int(e))
        if isinstance(e, sp.Rational): return ("rat", int(e.p), int(e.q))
        if isinstance(e, sp.Float): return ("flt", float(e))
        if isinstance(e, sp.Symbol): return self.symbol(e)
        a = lambda: tuple(self(x) for x in e.args)
        if isinstance(e, sp.Add): return ("add",) + a() if len(e.args) else ("int", 0)
        if isinstance(e, sp.Mul): return ("mul",) + a() if len(e.args) else ("int", 1)
        if isinstance(e, sp.Pow): return ("pow",) + a()
        if isinstance(e, sp.exp): return ("fn", "exp") + a()
        if e.func in self.fns: return ("fn", self.fns[e.func]) + a()
        if isinstance(e, sp.UnevaluatedExpr): return ("uneval",) + a()
        if isinstance(e, (sp.Max, sp.Min)):
            k = "max" if isinstance(e, sp.Max) else "min"
            v = a()
            r = v[0]
            for x in v[1:]: r = (k, r, x)
            return r
        if isinstance(e, sp.Heaviside):
            x, h = a()
            return ("where", ("rel", ">", x, ("int", 0)), ("int", 1), ("where", ("rel", "<", x, ("int", 0)), ("int", 0), h))
        if isinstance(e, sp.Piecewise):
            r = ("nan",)
            for v, c in reversed(e.args):
                c = self(c)
                r = self(v) if c == ("true",) else ("where", c, self(v), r)
            return r
        for cls, op in ((sp.StrictLessThan, "<"), (sp.LessThan, "<="), (sp.StrictGreaterThan, ">"), (sp.GreaterThan, ">="), (sp.Eq, "==")):
            if isinstance(e, cls): return ("rel", op) + a()
        if isinstance(e, sp.Derivative):
            r = self(e.args[0])
            for v, c in e.args[1:]: r = ("deriv", int(c), r, self(v))
            return r
        if isinstance(e, sp.Subs):       # through fresh names
            if any(v in p.free_symbols for p in e.point for v in e.variables): raise ref.Unsupported("Subs whose values contain its variables")   # the order matters
            r = self(e.expr)
            names = {}
            for v in e.variables:
                n = self(v)
                names[n[1]] = n[1] + "_fresh%d" % len(names)
            def ren(t): return (t[0], names.get(t[1], t[1])) if t[0] == "sym" else tuple(ren(x) if gen.is_node(x) else x for x in t)
            r = ren(r)
            for (o, f), p in zip(names.items(), e.point): r = ("subst", r, ("sym", f), self(p))
            return r
        if isinstance(e, sp.core.function.AppliedUndef): return ("symfn", e.func.__name__) + a()
        raise ref.Unsupported(type(e).__name__)


def treesyms(n, acc):
    if n[0] == "sym": acc.setdefault(n[1], set()).add(n[2])
    for c in n[1:]:
        if gen.is_node(c): treesyms(c, acc)
    return acc


class Check:
    def __init__(self, ctx, tier, seed):
        import sympy
        from wrenfold import sym, sympy_conversion as sc
        self.ctx, self.tier, self.s, self.sp, self.sc = ctx, tier, sym, sympy, sc
        gen.sym()
        self.sps = {}

    def total(self): return 2600 if self.tier == "quick" else 40000

    def fail(self, key, msg): raise Violation(key, msg)

    MODES = ["to", "to", "calc", "round", "from", "from", "from", "matrix", "bool", "special", "names", "refuse"]

    def run(self, i, rng):
        self.go(rng.getrandbits(60), self.MODES[i % len(self.MODES)])

    def replay(self, inp): self.go(*eval(inp, {}))

    def go(self, seed, mode):
        self.ctx.describe(repr((seed, mode)))
        rng = random.Random(seed)
        for _ in range(3):
            old = signal.signal(signal.SIGALRM, slow)
            signal.setitimer(signal.ITIMER_REAL, 10)
            try:
                getattr(self, "m_" + mode)(rng)
            except Slow:
                self.ctx.event("SymPy too slow")
                return
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)

    def read(self, e):
        r = FromSp(self.sp)
        n = r(e)
        return n, r.syms

    def text(self, z):
        try:
            return self.sp.srepr(z)[:800]
        except Exception as ex:
            return "<%s that SymPy cannot print>" % type(z).__name__

    def doc(self, ex): return type(ex).__module__.startswith("pywrenfold") and "ssertion" not in type(ex).__name__

    # ---- building SymPy expressions from recipes
    def spsym(self, name, k=None):
        k = k or gen.symbol_set(name)
        return self.sp.Symbol(name, **SETS[k])

    def tosp(self, n, ev):
        sp = self.sp
        k = n[0]
        c = lambda x: self.tosp(x, ev)
        kw = dict(evaluate=ev)
        if k == "int": return sp.Integer(n[1])
        if k == "rat": return sp.Rational(n[1], n[2])
        if k == "flt": return sp.Float(n[1])
        if k == "sym": return self.spsym(n[1])
        if k in ("pi", "e", "i", "zoo", "nan"): return {"pi": sp.pi, "e": sp.E, "i": sp.I, "zoo": sp.zoo, "nan": sp.nan}[k]
        if k == "add": return sp.Add(*[c(x) for x in n[1:]], **kw)
        if k == "mul": return sp.Mul(*[c(x) for x in n[1:]], **kw)
        if k == "sub": return sp.Add(c(n[1]), sp.Mul(-1, c(n[2]), **kw), **kw)
        if k == "neg": return sp.Mul(-1, c(n[1]), **kw)
        if k == "div": return sp.Mul(c(n[1]), sp.Pow(c(n[2]), -1, **kw), **kw)
        if k == "pow": return sp.Pow(c(n[1]), c(n[2]), **kw)
        if k == "sqrt": return sp.Pow(c(n[1]), sp.Rational(1, 2), **kw)
        if k == "fn": return getattr(sp, {"abs": "Abs"}.get(n[1], n[1]))(*[c(x) for x in n[2:]], **kw)
        if k in ("max", "min"): return getattr(sp, k.title())(c(n[1]), c(n[2]), **kw)
        if k == "rel": return {"<": sp.Lt, "<=": sp.Le, ">": sp.Gt, ">=": sp.Ge, "==": sp.Eq}[n[1]](c(n[2]), c(n[3]), **kw)
        if k == "where": return sp.Piecewise((c(n[2]), c(n[1])), (c(n[3]), True), **kw)
        if k == "iverson": return sp.Piecewise((1, c(n[1])), (0, True), **kw)
        if k == "uneval": return sp.UnevaluatedExpr(c(n[1]))
        if k == "symfn": return sp.Function(n[1])(*[c(x) for x in n[2:]])
        raise ref.Unsupported(k)

    # ---- deciding
    def decide(self, event, key, src, out, rng, what, strict_undefined=False):
        names = sorted(ref.symbols(src) | ref.symbols(out))
        if ref.size(src) > 400 or ref.size(out) > 800: return
        for _ in range(3):
            env = gen.point(names, rng)
            try:
                v, why = ref.compare(src, out, env)
            except ref.Unsupported as ex:
                self.ctx.event("unsupported " + str(ex)[:30])
                return
            if v == ref.Agreement.DIFFER:
                self.fail(key + ": " + repr(src)[:150], "%s at %s: %s" % (what, {k: mpmath.nstr(x, 10) for k, x in env.items()}, why))
            self.ctx.event(event if v == ref.Agreement.EQUAL else "undecided")
            if v == ref.Agreement.EQUAL: self.ctx.distinct(repr(src))

    def symbols_agree(self, a, b, what, subset=False):
        """Every symbol that occurs on both sides has the same assumptions; no symbol is invented."""
        for n, k in b.items():
            if n not in a: self.fail("invented symbol", "%s: symbol %s is not in the input" % (what, n))
            if not k <= a[n]: self.fail("assumptions", "%s: symbol %s is declared %s; the input has %s" % (what, n, sorted(k), sorted(a[n])))
            self.ctx.event("symbols checked")

    def wf(self, rng, depth=None, **kw):
        """A random wrenfold expression."""
        g = gen.Gen(rng, real=rng.random() < 0.4, symfn=0.3, cond=0.12, uneval=0.04, stopd=0.0, **kw)
        n = g.node(depth or rng.choice([1, 2, 2, 3, 4]))
        try:
            e = gen.Builder(rng.randrange(4))(n)
        except Exception as ex:
            if self.doc(ex): return None, None
            raise
        return n, e

    def to(self, e, ev, what):
        try:
            return self.sc.to_sympy(e, evaluate=ev)
        except Exception as ex:
            # SymPy itself rejects some constructions (comparison of non-real numbers)
            if type(ex).__name__ in ("TypeError", "ValueError") and not type(ex).__module__.startswith("pywrenfold"):
                self.ctx.event("rejected by SymPy")
                return None
            if type(ex).__name__ == "TypeError" and ("UniqueVariable" in str(ex) or "StopDerivative" in str(ex)):
                self.ctx.event("refused: no SymPy equivalent")
                return None
            tb = ex.__traceback__
            while tb.tb_next is not None: tb = tb.tb_next
            if type(ex).__name__ in ("RecursionError", "NotImplementedError", "AttributeError", "KeyError", "IndexError") and "/sympy/" in tb.tb_frame.f_code.co_filename:
                self.ctx.event("SymPy failed")
                return None
            self.fail("to_sympy raised: " + type(ex).__name__, "to_sympy(%s) raised %s: %s" % (what, type(ex).__name__, ex))

    def check_to(self, e, rng, what):
        t = tree.of(e)
        if ref.size(t) > 120: return None
        ts = treesyms(t, {})
        for ev in (False, True):
            z = self.to(e, ev, what)
            if z is None: continue
            try:
                n, syms = self.read(z)
            except ref.Unsupported as ex:
                self.ctx.event("unread: " + str(ex)[:30])
                continue
            self.symbols_agree(ts, syms, "to_sympy(%s)" % what)
            if not ev:
                self.decide("to sympy values", "to_sympy", t, n, rng, "to_sympy(%s, evaluate=False) = %s" % (what, self.text(z)))
                plain = n
            else:
                try:
                    self.decide("to sympy values", "to_sympy evaluated", t, n, rng, "to_sympy(%s) = %s" % (what, self.text(z)))
                except Violation:
                    # is it SymPy's own evaluation of the same object?
                    try:
                        same = self.tosp(plain, True) == z
                    except Exception:
                        same = True
                    if not same: raise
                    self.ctx.event("SymPy's own evaluation differs")
        return t

    def m_to(self, rng):
        n, e = self.wf(rng)
        if e is None or type(e).__name__ != "Expr": return
        if rng.random() < 0.003: self.ctx.sample(str(e))
        self.check_to(e, rng, str(e))

    def m_calc(self, rng):
        """Deferred derivatives and substitutions."""
        s = self.s
        x, y = gen.symbol("x"), gen.symbol("ra")
        n, a = self.wf(rng, 1)
        if a is None or type(a).__name__ != "Expr": return
        f = s.Function(rng.choice("fgh"))
        e = f(*rng.choice([(x,), (x, y), (y, x), (x, a)]))
        v = rng.choice([x, y])
        try:
            k = rng.randrange(4)
            if k == 0: e = s.derivative(e, v, rng.choice([1, 1, 2, 3]))
            elif k == 1: e = s.substitution(e, v, a)
            elif k == 2: e = (e * s.sin(x)).diff(v, rng.choice([1, 2]))
            else: e = e.diff(v).subs(v, a)
            e = rng.choice([e, e + x, e * y, e ** 2])
        except Exception as ex:
            if self.doc(ex): return
            raise
        t = tree.of(e)
        what = str(e)
        for ev in (False, True):
            z = self.to(e, ev, what)
            if z is None: continue
            try:
                m, syms = self.read(z)
            except ref.Unsupported as ex:
                self.ctx.event("unread: " + str(ex)[:30])
                continue
            self.decide("calculus values", "to_sympy calculus", t, m, rng, "to_sympy(%s, evaluate=%s) = %s" % (what, ev, z))
            b = self.back(z, "from_sympy(to_sympy(%s))" % what)
            if b is None: continue
            self.decide("calculus values", "round trip calculus", t, tree.of(b), rng, "from_sympy(to_sympy(%s, evaluate=%s)) = %s" % (what, ev, b))

    def back(self, z, what):
        try:
            return self.sc.from_sympy(z)
        except (NotImplementedError, TypeError) as ex:
            self.ctx.event("refused: " + type(ex).__name__)
            return None
        except Exception as ex:
            if type(ex).__name__ in ("ArithmeticError", "TypeError"):
                self.ctx.event("refused: " + type(ex).__name__)
                return None
            self.fail("from_sympy raised: " + type(ex).__name__, "%s raised %s: %s" % (what, type(ex).__name__, ex))

    def m_round(self, rng):
        n, e = self.wf(rng)
        if e is None or type(e).__name__ != "Expr": return
        t = tree.of(e)
        if ref.size(t) > 100: return
        for ev in (False, True):
            z = self.to(e, ev, str(e))
            if z is None: continue
            b = self.back(z, "from_sympy(to_sympy(%s, evaluate=%s))" % (e, ev))
            if b is None: continue
            tb = tree.of(b)
            self.symbols_agree(treesyms(t, {}), treesyms(tb, {}), "round trip of %s" % e)
            try:
                self.decide("round trip values", "round trip", t, tb, rng, "from_sympy(to_sympy(%s, evaluate=%s)) = %s" % (e, ev, b))
            except Violation:
                if not ev: raise
                m, _ = self.read(z)
                self.decide("round trip values", "from_sympy", m, tb, rng, "from_sympy(%s) = %s" % (z, b))

    def spexpr(self, rng, depth=None):
        g = gen.Gen(rng, real=rng.random() < 0.4, symfn=0.3, cond=0.15, uneval=0.03, stopd=0.0)
        n = g.node(depth or rng.choice([1, 2, 2, 3, 3]))
        if ref.size(n) > 60: return None
        ev = rng.random() < 0.5
        try:
            return self.tosp(n, ev)
        except Exception as ex:
            self.ctx.event("not built: " + type(ex).__name__)
            return None

    def check_from(self, z, rng, event="from sympy values"):
        try:
            n, syms = self.read(z)
        except ref.Unsupported as ex:
            # whatever has no counterpart has to be refused
            try:
                b = self.sc.from_sympy(z)
            except Exception:
                self.ctx.event("refusals")
                return None
            self.ctx.event("unread: " + str(ex)[:30])
            return None
        b = self.back(z, "from_sympy(%s)" % self.text(z))
        if b is None: return None
        t = tree.of(b)
        self.symbols_agree(syms, treesyms(t, {}), "from_sympy(%s)" % self.text(z))
        self.decide(event, "from_sympy", n, t, rng, "from_sympy(%s) = %s" % (self.text(z), b))
        return t

    def m_from(self, rng):
        z = self.spexpr(rng)
        if z is not None: self.check_from(z, rng)

    def m_bool(self, rng):
        sp = self.sp
        a, b = self.spexpr(rng, rng.choice([0, 1, 2])), self.spexpr(rng, rng.choice([0, 1]))
        if a is None or b is None: return
        try:
            z = rng.choice([sp.Lt, sp.Le, sp.Gt, sp.Ge, sp.Eq])(a, b, evaluate=False)
        except TypeError:
            return
        # decided through its indicator
        try:
            n, _ = self.read(z)
        except ref.Unsupported:
            return
        c = self.back(z, "from_sympy(%s)" % self.text(z))
        if c is None: return
        if type(c).__name__ != "BooleanExpr": self.fail("boolean type", "from_sympy(%s) is a %s" % (z, type(c).__name__))
        t = tree.of(c)
        self.decide("booleans", "from_sympy relation", ("iverson", n), ("iverson", t), rng, "from_sympy(%s) = %s" % (self.text(z), c))
        w = self.to(c, False, str(c))
        if w is None: return
        m, _ = self.read(w)
        self.decide("booleans", "to_sympy relation", ("iverson", t), ("iverson", m), rng, "to_sympy(%s) = %s" % (c, w))

    def m_matrix(self, rng):
        sp, s = self.sp, self.s
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        if rng.random() < 0.5:
            es = [self.wf(rng, rng.choice([1, 1, 2]))[1] for _ in range(r * c)]
            if any(e is None or type(e).__name__ != "Expr" for e in es): return
            m = s.matrix([es[i * c:(i + 1) * c] for i in range(r)])
            z = self.to(m, rng.random() < 0.5, str(m))
            if z is None: return
            if z.shape != (r, c): self.fail("matrix shape", "to_sympy of a %d x %d matrix has shape %s" % (r, c, z.shape))
            for i in range(r):
                for j in range(c):
                    try:
                        n, syms = self.read(z[i, j])
                    except ref.Unsupported:
                        continue
                    self.decide("matrix elements", "to_sympy matrix", tree.of(m[i, j]), n, rng, "element (%d, %d) of to_sympy(%s) = %s" % (i, j, m, self.text(z)))
            b = self.back(z, "from_sympy(%s)" % self.text(z))
            if b is not None and b.shape != (r, c): self.fail("matrix shape", "from_sympy of a %d x %d matrix has shape %s" % (r, c, b.shape))
        else:
            es = [self.spexpr(rng, rng.choice([1, 1, 2])) for _ in range(r * c)]
            if any(e is None for e in es): return
            z = rng.choice([sp.Matrix, sp.ImmutableMatrix, sp.SparseMatrix, sp.ImmutableSparseMatrix])(r, c, es)
            b = self.back(z, "from_sympy(%s)" % self.text(z))
            if b is None: return
            if type(b).__name__ != "MatrixExpr" or b.shape != (r, c): self.fail("matrix shape", "from_sympy of a %d x %d matrix is %s" % (r, c, b))
            for i in range(r):
                for j in range(c):
                    try:
                        n, syms = self.read(z[i, j])
                    except ref.Unsupported:
                        continue
                    self.decide("matrix elements", "from_sympy matrix", n, tree.of(b[i, j]), rng, "element (%d, %d) of from_sympy(%s) = %s" % (i, j, self.text(z), b))

    def m_special(self, rng):
        sp = self.sp
        x, y = [self.spsym(n) for n in rng.sample(["ra", "rb", "pa", "na"], 2)]
        a = [self.spexpr(rng, 1) for _ in range(4)]
        if any(e is None for e in a): return
        a = [sp.Integer(rng.choice([0, 1, 1, 0, 2])) if rng.random() < 0.5 else e for e in a]
        k = rng.choice(["pw", "pw", "pw", "heaviside", "deriv", "subs", "nary"])
        rels = [sp.Lt, sp.Le, sp.Gt, sp.Ge, sp.Eq]
        cond = lambda: rng.choice(rels)(rng.choice([x, y, x * y, x + 1]), rng.choice([x, y, sp.Integer(0), sp.Integer(1), sp.Rational(1, 2)]), evaluate=False)
        try:
            if k == "pw":
                cs = [cond() for _ in range(rng.choice([1, 2, 3]))]
                br = [(a[i], c) for i, c in enumerate(cs)]
                if rng.random() < 0.6: br.append((a[3], True))
                elif len(br) == 2 and rng.random() < 0.5:
                    br = [(a[0], sp.Lt(x, y, evaluate=False)), (a[1], sp.Gt(x, y, evaluate=False))]
                z = sp.Piecewise(*br, evaluate=rng.random() < 0.3)
            elif k == "heaviside": z = rng.choice([lambda: sp.Heaviside(x), lambda: sp.Heaviside(x, rng.choice([0, 1, sp.Rational(1, 3)])), lambda: sp.Heaviside(x * y + a[0])])()
            elif k == "deriv":
                f = sp.Function(rng.choice("fg"))(x, y)
                z = rng.choice([lambda: sp.Derivative(f, x, y), lambda: sp.Derivative(f, (x, 2)), lambda: sp.Derivative(f, (y, 2), x), lambda: sp.Derivative(f, x) * a[0], lambda: sp.Derivative(f + x * y, x, y)])()
            elif k == "subs":
                f = rng.choice([sp.Function("f")(x, y), sp.Derivative(sp.Function("f")(x, y), x), sp.Function("g")(x * y, y)])
                w = self.spsym("rc")
                z = rng.choice([lambda: sp.Subs(f, x, w), lambda: sp.Subs(f, (x, y), (y, x)), lambda: sp.Subs(f, (x, y), (w, w + 1)), lambda: sp.Subs(f, (x, y), (y, w)), lambda: sp.Subs(f, (x, y), (y + 1, x * w))])()
            else:
                z = rng.choice([sp.Max, sp.Min])(x, y, rng.choice([sp.Integer(0), sp.Rational(1, 2), x * y]), evaluate=False)
        except (TypeError, ValueError, NotImplementedError):
            return
        t = self.check_from(z, rng, "special forms")
        if t is None: return
        if k == "pw":        # where the pieces do not cover a point, the value is undefined
            n, _ = self.read(z)
            for env in ({x.name: mpf(p), y.name: mpf(q)} for p in (0, 1, mpf("0.5"), 2) for q in (0, 1, mpf("0.5"), 2)):
                if any(gen.symbol_set(m) == "positive" and v == 0 for m, v in env.items()): continue
                full = gen.real_point(sorted(ref.symbols(n)), rng)
                full.update(env)
                if not self.uncovered(n, full): continue
                try:
                    v = ref.Evaluator(full)(t)
                except ref.Undefined:
                    self.ctx.event("uncovered points")
                    continue
                except (ref.Ambiguous, ref.Unsupported):
                    continue
                self.fail("uncovered piece", "%s is undefined at %s; from_sympy gives %s there" % (z, {k: mpmath.nstr(q, 5) for k, q in env.items()}, mpmath.nstr(v, 8)))

    def uncovered(self, n, env):
        while n[0] == "where":
            try:
                c = ref.Evaluator(env)(("iverson", n[1]))
            except (ref.Undefined, ref.Ambiguous, ref.Unsupported):
                return False
            n = n[2] if c == 1 else n[3]
            if c == 1: return False
        return n == ("nan",)

    def m_names(self, rng):
        """Symbol and function names survive, whatever they are."""
        sp, s = self.sp, self.s
        name = rng.choice(["x", "alpha_1", "x1", "x_2", "X", "pi", "E", "I", "S", "N", "lambda", "x'", "v_x", "beta", "Gamma", "x:3", "x,y", "a b", "(x)", "x.y", "é", "sin", "zoo", "nan", "oo", "a:c", "x0:2", "\\alpha", "1x", " x"])
        k = rng.choice(list(SETS))
        from wrenfold import enumerations as en
        ns = {"unknown": en.NumberSet.Unknown, "real": en.NumberSet.Real, "positive": en.NumberSet.RealPositive, "nonnegative": en.NumberSet.RealNonNegative, "complex": en.NumberSet.Complex}[k]
        try:
            e = s.symbol(name, set=ns)
        except Exception as ex:
            if self.doc(ex): return
            raise
        z = self.sc.to_sympy(e)
        if not isinstance(z, sp.Symbol) or z.name != name: self.fail("name", "to_sympy of the symbol %r is %s" % (name, sp.srepr(z)))
        if z != sp.Symbol(name, **SETS[k]): self.fail("assumptions", "to_sympy of the %s symbol %r is %s" % (k, name, sp.srepr(z)))
        b = self.sc.from_sympy(sp.Symbol(name, **SETS[k]))
        if not b.is_identical_to(e): self.fail("name", "from_sympy of the %s symbol %r is %s, a %s symbol" % (k, name, b, tree.of(b)[2]))
        for kw, want in ((dict(integer=True), "real"), (dict(negative=True), "real"), (dict(zero=True), "nonnegative"), (dict(imaginary=True), "complex"), (dict(positive=True, integer=True), "positive"), (dict(commutative=True), "unknown"), (dict(nonzero=True), "unknown"),
                         (dict(finite=True), "complex"), (dict(rational=True), "real"), (dict(nonpositive=True), "real"), (dict(even=True), "real"), (dict(algebraic=True), "complex"), (dict(extended_real=True), "unknown")):
            try:
                q = sp.Symbol(name, **kw)
            except Exception:
                continue
            b = self.sc.from_sympy(q)
            got = tree.of(b)[2]
            # only assumptions that SymPy knows to hold may be declared
            known = {"unknown": True, "complex": q.is_complex, "real": q.is_real, "real_non_negative": q.is_nonnegative, "real_positive": q.is_positive}
            if not known[got]: self.fail("assumptions", "from_sympy(Symbol(%r, %s)) is declared %s" % (name, kw, got))
            if TREESET[want] != got and q.is_real is not None and (want in ("real", "positive", "nonnegative")): self.fail("assumptions", "from_sympy(Symbol(%r, %s)) is declared %s instead of %s" % (name, kw, got, want))
            self.ctx.event("symbols checked")
        fn = rng.choice(["f", "g_1", "sin2", "F", "foo", "Heavy"])
        f = s.Function(fn)(e, 2)
        z = self.sc.to_sympy(f)
        if z.func.__name__ != fn or len(z.args) != 2 or z.args[1] != 2: self.fail("function name", "to_sympy(%s) is %s" % (f, sp.srepr(z)))
        if not self.sc.from_sympy(z).is_identical_to(f): self.fail("function name", "from_sympy(to_sympy(%s)) is %s" % (f, self.sc.from_sympy(z)))
        # two symbols with one name and different assumptions remain different
        e2 = s.symbol(name, set=en.NumberSet.Unknown if k != "unknown" else en.NumberSet.Real)
        d = e * 2 + e2 * 3
        z = self.sc.to_sympy(d)
        if len(z.free_symbols) != 2: self.fail("merged symbols", "to_sympy(%s) merges the %s and %s symbols of the same name: %s" % (d, k, tree.of(e2)[2], sp.srepr(z)))
        if not self.sc.from_sympy(z).is_identical_to(d): self.fail("merged symbols", "from_sympy(to_sympy(%s)) is %s" % (d, self.sc.from_sympy(z)))

    def m_refuse(self, rng):
        """What has no counterpart is refused."""
        sp, s = self.sp, self.s
        x, y = self.spsym("ra"), self.spsym("x")
        bad = rng.choice([lambda: sp.oo, lambda: -sp.oo, lambda: sp.ceiling(x), lambda: sp.sec(x), lambda: sp.gamma(x), lambda: sp.Integral(x, x), lambda: sp.Sum(x, (x, 1, 3)), lambda: sp.Ne(x, y), lambda: sp.And(x > 1, x < 3), lambda: sp.Or(x > 4, x < 3),
                          lambda: sp.Not(sp.Eq(x, y)), lambda: sp.conjugate(y), lambda: sp.re(y), lambda: sp.im(y), lambda: sp.arg(y), lambda: sp.Mod(x, 3), lambda: sp.GoldenRatio, lambda: sp.EulerGamma, lambda: sp.Catalan, lambda: sp.Dummy("x"), lambda: sp.erf(x),
                          lambda: sp.LambertW(x), lambda: sp.cot(x), lambda: sp.factorial(y), lambda: sp.DiracDelta(x), lambda: sp.MatrixSymbol("A", 2, 2), lambda: sp.FiniteSet(1, 2), lambda: sp.Tuple(x, y), lambda: sp.Interval(0, 1), lambda: sp.Wild("w"), lambda: "x + y",
                          lambda: None, lambda: sp.O(x ** 2), lambda: sp.Xor(x > 1, y > 3), lambda: sp.ITE(x > 1, x < 3, x > 2), lambda: sp.acot(x), lambda: sp.frac(x), lambda: sp.Function("f", real=True)(x), lambda: sp.Limit(x, x, 0), lambda: sp.Product(x, (x, 1, 3)), lambda: sp.RootSum(x ** 3 + x + 1)])()
        wrap = rng.choice([lambda e: e, lambda e: e + x, lambda e: sp.Matrix([[e, x]]), lambda e: sp.cos(e), lambda e: sp.Piecewise((e, x > 1), (x, True)), lambda e: sp.Piecewise((x, e), (y, True)), lambda e: sp.Derivative(sp.Function("f")(x, e), x), lambda e: 2 * e])
        try:
            z = wrap(bad)
        except Exception:
            z = bad
        if z is None or isinstance(z, str) or not self.contains_bad(z): z = bad
        if not self.contains_bad(z): return      # SymPy has evaluated it away
        try:
            b = self.sc.from_sympy(z)
        except Exception as ex:
            if isinstance(ex, (TypeError, NotImplementedError, ValueError, AttributeError)) or self.doc(ex):
                self.ctx.event("refusals")
                return
            self.fail("refusal", "from_sympy(%r) raised %s: %s" % (z, type(ex).__name__, ex))
        self.fail("converted", "from_sympy(%s) is %s, although %s has no counterpart" % (z, b, bad))

    def contains_bad(self, z):
        try:
            if isinstance(z, self.sp.MatrixBase):
                for e in z: FromSp(self.sp)(e)
            else: FromSp(self.sp)(z)
        except ref.Unsupported:
            return True
        except Exception:
            return True
        return False
