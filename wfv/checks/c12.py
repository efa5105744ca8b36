"""C12: identity, hashing and ordering are coherent."""
import itertools, math, random
from dataclasses import dataclass
from .. import gen, tree
from ..worker import Violation

RULE = ("pools of related expressions (a random recipe, equal constructions of it, and single-component mutations of it: number, symbol, assumption set, operation, function, index, branch, order, "
        "external function, argument) compared pairwise and in triples under ==, is_identical_to, hash, str, compare, sorting and dictionary lookup, against the printed expression trees; shuffled and regrouped sums and products; "
        "float neighbours; unique symbols in contexts; non-trivial if the pool had at least two distinct trees; distinct by recipe")
MIN_EVENTS = {"pairs": 400000, "identical pairs": 40000, "triples": 10000000, "regroupings": 4000, "equal constructions": 7000, "matrix pairs": 30000, "float pairs": 500000, "contexts": 50000}
N = lambda k: ("int", k)
SETSN = ["unknown", "real", "positive", "nonnegative", "complex"]
FNS1 = ["sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "abs", "sign", "floor"]


class Builder(gen.Builder):
    ext = None

    def b_symset(self, n):
        return self.s.symbols(n[1], **({} if n[2] == "unknown" else {n[2]: True}))

    def b_uniq(self, n): return Check.uniq[n[1]]

    def b_ext(self, n):
        f = Check.externals[n[1]]
        r = f(*[self(a) for a in n[3:]])
        k = n[2]
        if n[1] in ("ext_s", "ext_s2"): return r
        if n[1] in ("ext_m", "ext_m2"): return r[k % 2, k // 2]
        return [r.u, r.v, r.w[0], r.w[1]][k % 4]


class Check:
    uniq = None
    externals = None

    def __init__(self, ctx, tier, seed):
        from wrenfold import sym, type_annotations as ta, external_functions as ef
        from pywrenfold import exceptions
        self.ctx, self.tier, self.s = ctx, tier, sym
        self.documented = (exceptions.ArithmeticError,)
        gen.sym()
        Check.uniq = sym.unique_symbols(4) + sym.unique_symbols(2, real=True) if hasattr(sym, "unique_symbols") else []
        @dataclass
        class Pair:
            u: ta.FloatScalar
            v: ta.FloatScalar
            w: ta.Vector2
        F = ta.FloatScalar
        M22 = ta.Matrix2
        Check.externals = {
            "ext_s": ef.declare_external_function("ext_s", [("a", F), ("b", F)], F),
            "ext_s2": ef.declare_external_function("ext_s2", [("a", F), ("b", F)], F),
            "ext_m": ef.declare_external_function("ext_m", [("a", F), ("b", F)], M22),
            "ext_m2": ef.declare_external_function("ext_m2", [("a", F), ("b", F)], M22),
            "ext_c": ef.declare_external_function("ext_c", [("a", F), ("b", F)], Pair),
        }

    def total(self): return 6400 if self.tier == "quick" else 90000

    def fail(self, key, msg): raise Violation(key, msg)

    def run(self, i, rng):
        self.go(rng.getrandbits(60), ["pool", "pool", "pool", "group", "group", "float", "matrix", "bool"][i % 8])

    def replay(self, inp):
        seed, mode = eval(inp, {})
        self.go(seed, mode)

    def go(self, seed, mode):
        self.ctx.describe(repr((seed, mode)))
        self.key = mode
        getattr(self, "m_" + mode)(random.Random(seed))

    # ---- recipes
    def leaf(self, rng):
        k = rng.random()
        if k < 0.6: return ("symset", rng.choice(["x", "y", "z", "xx", "x1"][:rng.choice([2, 3, 5])]), rng.choice(SETSN) if rng.random() < 0.4 else "unknown")
        if k < 0.66: return ("uniq", rng.randrange(6))
        if k < 0.8: return N(rng.choice([0, 1, -1, 2, 3, -2, 7]))
        if k < 0.9: return ("rat", rng.choice([1, -1, 2, 3, 5]), rng.choice([2, 3, 4]))
        if k < 0.95: return ("flt", rng.choice([0.5, 1.0, 2.0, -1.5, 0.25]))
        return rng.choice([("pi",), ("e",), ("i",), ("zoo",), ("nan",)] if rng.random() < .3 else [("pi",), ("e",), ("i",)])

    def cnode(self, rng, d):
        return ("rel", rng.choice(["<", "<=", "==", ">", ">="]), self.node(rng, d - 1), self.node(rng, d - 1))

    def node(self, rng, d):
        if d <= 0 or rng.random() < 0.1: return self.leaf(rng)
        c = lambda: self.node(rng, d - 1)
        k = rng.choice(["add", "add", "mul", "mul", "sub", "div", "neg", "pow", "pow", "sqrt", "fn", "fn", "atan2", "max", "where", "iverson", "uneval", "stopd", "symfn", "symfn", "deriv", "subst", "ext"])
        if k in ("add", "mul"): return (k,) + tuple(c() for _ in range(rng.choice([2, 2, 3, 4])))
        if k in ("sub", "div", "pow"): return (k, c(), c())
        if k in ("neg", "sqrt", "uneval", "stopd"): return (k, c())
        if k == "fn": return ("fn", rng.choice(FNS1), c())
        if k == "atan2": return ("fn", "atan2", c(), c())
        if k == "max": return (rng.choice(["max", "min"]), c(), c())
        if k == "where": return ("where", self.cnode(rng, d), c(), c())
        if k == "iverson": return ("iverson", self.cnode(rng, d))
        if k == "symfn": return ("symfn", rng.choice(["f", "g"]),) + tuple(c() for _ in range(rng.choice([1, 2, 3])))
        if k == "deriv":
            v = ("symset", rng.choice(["x", "y"]), "unknown")
            return ("deriv", rng.choice([1, 2, 3]), ("symfn", rng.choice(["f", "g"]), v, c()), v)
        if k == "subst":
            v = ("symset", rng.choice(["x", "y"]), "unknown")
            return ("subst", ("symfn", rng.choice(["f", "g"]), v, c()), v, c())
        return ("ext", rng.choice(["ext_s", "ext_s2", "ext_m", "ext_m2", "ext_c"]), rng.randrange(4), c(), c())

    def mutate(self, n, rng):
        """Changes one component."""
        paths = []

        def walk(t, p):
            paths.append((p, t))
            for i, c in enumerate(t[1:], 1):
                if gen.is_node(c): walk(c, p + (i,))
        walk(n, ())
        for _ in range(20):
            p, t = rng.choice(paths)
            m = self.mut1(t, rng)
            if m is not None and m != t:
                def put(t, p):
                    return m if not p else t[:p[0]] + (put(t[p[0]], p[1:]),) + t[p[0] + 1:]
                return put(n, p)
        return n

    def mut1(self, t, rng):
        k = t[0]
        if k == "int": return rng.choice([N(t[1] + 1), N(-t[1]), ("rat", 2 * t[1] + 1, 2), ("flt", float(t[1]))])
        if k == "rat": return rng.choice([("rat", t[1] + t[2], t[2]), ("rat", -t[1], t[2]), ("rat", t[1], t[2] + 1), ("flt", t[1] / 4)])
        if k == "flt": return rng.choice([("flt", t[1] + 0.5), ("flt", -t[1]), ("flt", math.nextafter(t[1], 9)), N(1)])
        if k == "symset": return rng.choice([(k, t[1], rng.choice(SETSN)), (k, rng.choice("xyz"), t[2]), (k, t[1] + "x", t[2])])
        if k == "uniq": return (k, rng.randrange(6))
        if k in ("pi", "e", "i", "zoo", "nan"): return rng.choice([("pi",), ("e",), ("i",), N(1)])
        if k in ("add", "mul"):
            if len(t) > 3 and rng.random() < 0.4: return t[:-1]
            if rng.random() < 0.4: return t + (self.leaf(rng),)
            return ("mul" if k == "add" else "add",) + t[1:]
        if k in ("sub", "div", "pow"): return (k, t[2], t[1]) if rng.random() < 0.6 else (rng.choice(["sub", "div", "pow"]),) + t[1:]
        if k in ("neg", "sqrt", "uneval", "stopd"): return rng.choice([t[1], (rng.choice(["neg", "sqrt", "uneval", "stopd"]), t[1])])
        if k == "fn": return ("fn", "atan2", t[3], t[2]) if t[1] == "atan2" else ("fn", rng.choice(FNS1), t[2])
        if k in ("max", "min"): return (rng.choice(["max", "min"]), t[2], t[1])
        if k == "where": return ("where", t[1], t[3], t[2])
        if k == "rel": return ("rel", rng.choice(["<", "<=", "=="]), *rng.choice([(t[2], t[3]), (t[3], t[2])]))
        if k == "symfn":
            q = rng.random()
            if q < 0.35: return (k, {"f": "g", "g": "f"}[t[1]]) + t[2:]
            if q < 0.65 or len(t) == 3: return t + (self.leaf(rng),)
            a = list(t[2:])
            rng.shuffle(a)
            return t[:2] + tuple(a)
        if k == "deriv": return (k, t[1] % 3 + 1) + t[2:]
        if k == "subst": return t[:3] + (self.leaf(rng),)
        if k == "ext":
            q = rng.random()
            if q < 0.4: return t[:2] + (rng.randrange(4),) + t[3:]
            if q < 0.7: return t[:3] + (t[4], t[3])
            return (k, {"ext_s": "ext_s2", "ext_s2": "ext_m", "ext_m": "ext_m2", "ext_m2": "ext_m", "ext_c": "ext_m"}[t[1]]) + t[2:]
        return None

    def build(self, n, style=0):
        try:
            return Builder(style)(n)
        except self.documented:
            self.ctx.event("reported overflows")
        except Exception as e:
            if type(e).__module__.startswith("pywrenfold") and "nternal" not in str(e) and "ssert" not in type(e).__name__:
                self.ctx.event("refused: " + type(e).__name__)
                return None
            raise
        return None

    # ---- checks
    def pair(self, a, b, ta, tb, kind=""):
        """One ordered pair; `ta`, `tb` are canonical texts that determine the expressions."""
        same = ta == tb
        ident = a.is_identical_to(b)
        what = lambda: "%s\n  and\n  %s\n  (trees\n%s\n and\n%s)" % (a, b, ta, tb)
        if ident != b.is_identical_to(a): self.fail("symmetry", "identity is not symmetric for " + what())
        if (a == b) != ident: self.fail("==", "== and is_identical_to disagree for " + what())
        if (a != b) == ident: self.fail("!=", "!= and is_identical_to disagree for " + what())
        if ident and not same: self.fail("identical though different", "identical, but different expressions: " + what())
        if same and not ident: self.fail("not identical", "equal trees, but not identical: " + what())
        if ident:
            if hash(a) != hash(b): self.fail("hash", "identical, but their hashes differ: " + what())
            if str(a) != str(b) or repr(a) != repr(b): self.fail("str", "identical, but they print differently: " + what())
            self.ctx.event(kind + "identical pairs")
        self.ctx.event(kind + "pairs")
        return ident

    def m_pool(self, rng):
        base = self.node(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        if len(repr(base)) > 3000: return
        recipes = [base]
        if rng.random() < 0.5: recipes.append(self.node(rng, 2))
        size = rng.choice([8, 14, 20])
        while len(recipes) < size: recipes.append(self.mutate(rng.choice(recipes), rng) if rng.random() < 0.9 else self.node(rng, rng.choice([0, 1, 1, 2])))
        es = []
        for n in recipes:
            st = rng.randrange(4)
            e = self.build(n, st)
            if e is None or type(e).__name__ != "Expr": continue
            es.append((e, n))
            if rng.random() < 0.4:
                f = self.build(n, st)
                es.append((f, n))
                if not e.is_identical_to(f) or e.expression_tree_str() != f.expression_tree_str():
                    self.fail("equal construction", "building %r twice gives %s and %s" % (n, e, f))
                self.ctx.event("equal constructions")
        ts = [(e.expression_tree_str()) for e, _ in es]
        if len(set(ts)) > 1: self.ctx.distinct(repr(base))
        if rng.random() < 0.02: self.ctx.sample(repr(recipes[:3]))
        # exact float values are not always visible in the text
        ts = [t + "|" + repr(sorted(self.floats(n))) if "FloatConstant" in t and self.inexact(n) else t for t, (_, n) in zip(ts, es)]
        k = len(es)
        cmp = [[0] * k for _ in range(k)]
        for a in range(k):
            for b in range(k):
                if self.inexact(es[a][1]) or self.inexact(es[b][1]):
                    ident = es[a][0].is_identical_to(es[b][0])
                    if ident and hash(es[a][0]) != hash(es[b][0]): self.fail("hash", "identical, but their hashes differ: %s" % es[a][0])
                else:
                    ident = self.pair(es[a][0], es[b][0], ts[a], ts[b])
                cmp[a][b] = c = self.s.compare(es[a][0], es[b][0])
                if c not in (-1, 0, 1) or (c == 0) != ident:
                    self.fail("compare", "compare(%s, %s) is %d; identical: %s; trees\n%s\n%s" % (es[a][0], es[b][0], c, ident, ts[a], ts[b]))
        for a in range(k):
            for b in range(k):
                if cmp[a][b] != -cmp[b][a]: self.fail("antisymmetry", "compare(%s, %s) is %d, reversed it is %d" % (es[a][0], es[b][0], cmp[a][b], cmp[b][a]))
        for a, b, c in itertools.product(range(k), repeat=3):
            if cmp[a][b] < 0 and cmp[b][c] < 0 and cmp[a][c] >= 0 or cmp[a][b] == 0 and cmp[b][c] == 0 and cmp[a][c] != 0:
                self.fail("transitivity", "compare is not transitive on %s, %s, %s (trees\n%s\n%s\n%s)" % (es[a][0], es[b][0], es[c][0], ts[a], ts[b], ts[c]))
        self.ctx.event("triples", k ** 3)
        d = {}
        for e, _ in es: d.setdefault(e, []).append(e)
        for (e, _), t in zip(es, ts):
            if e not in d or not d[e][0].is_identical_to(e): self.fail("dictionary", "%s is not found in a dictionary that contains it" % e)
        # expressions composed of distinct parts differ; of identical parts agree
        for _ in range(6 if es else 0):
            (a, na), (b, nb) = rng.choice(es), rng.choice(es)
            if self.inexact(na) or self.inexact(nb): continue
            for w in (lambda e: self.s.Function("wrap")(e, 1), lambda e: self.s.unevaluated(self.s.Function("k")(e) + 1), lambda e: Check.externals["ext_s"](e, 2), lambda e: Check.externals["ext_m"](2, e)[1, 0], lambda e: Check.externals["ext_c"](e, e).w[1],
                      lambda e: self.s.stop_derivative(self.s.Function("k")(e)), lambda e: self.s.iverson(self.s.Function("k")(e) < 3), lambda e: self.s.derivative(self.s.Function("k")(e, self.s.symbols("t")), self.s.symbols("t")),
                      lambda e: self.s.substitution(self.s.Function("k")(e, self.s.symbols("t")), self.s.symbols("t"), 3)):
                try:
                    u, v = w(a), w(b)
                except self.documented:
                    continue
                except Exception as ex:
                    if type(ex).__module__.startswith("pywrenfold"):
                        self.ctx.event("refused: " + type(ex).__name__)
                        continue
                    raise
                if u.is_identical_to(v) != a.is_identical_to(b):
                    self.fail("context", "%s and %s are%s identical, but in the same context: %s and %s are%s" % (a, b, "" if a.is_identical_to(b) else " not", u, v, "" if u.is_identical_to(v) else " not"))
                if u.is_identical_to(v) and hash(u) != hash(v): self.fail("hash", "identical, but their hashes differ: %s" % u)
                self.ctx.event("contexts")

    def floats(self, n):
        if n[0] == "flt": return [n[1]]
        return [f for c in n[1:] if gen.is_node(c) for f in self.floats(c)]

    def inexact(self, n):
        return bool(self.floats(n))

    def numeric(self, n):
        return n[0] in ("int", "rat", "flt") or n[0] not in ("sym", "symset") and any(self.numeric(c) for c in n[1:] if gen.is_node(c))

    def m_group(self, rng):
        """Sums and products from the same operands in any order and grouping."""
        op = rng.choice(["add", "mul"])
        k = rng.choice([2, 3, 3, 4, 5, 6, 8])
        fl = rng.random() < 0.4
        # floats that cancel to zero vanish from a sum: they are kept positive
        num = lambda: (rng.choice([N(rng.choice([1, 2, 3, 5, 6])), ("rat", rng.choice([1, 3, 5]), rng.choice([2, 4])), ("flt", rng.choice([0.5, 2.0, 1.5, 4.0]))]) if fl else
                       rng.choice([N(rng.choice([1, 2, 3, -1, -2, 5, 6])), ("rat", rng.choice([1, -1, 3, 5]), rng.choice([2, 3, 4]))]))
        syms = [("symset", v, "unknown") for v in "xyz"] + [("symset", "p", "positive"), ("symset", "r", "real")]

        def operand():
            q = rng.random()
            v = rng.choice(syms)
            if q < 0.25: return v
            if q < 0.35: return num()
            if q < 0.5: return ("mul", num(), v) if op == "add" else ("pow", v, N(rng.choice([2, -1, 3, -2])))
            if q < 0.6: return ("mul", v, rng.choice(syms)) if op == "add" else ("add", v, rng.choice(syms))
            if q < 0.7: return ("pow", v, rng.choice([("rat", 1, 2), N(2), N(-1), rng.choice(syms), ("rat", -2, 3)]))
            if q < 0.8: return ("fn", rng.choice(["sin", "cos", "abs"]), v)
            if q < 0.85 and op == "mul": return rng.choice([("sqrt", N(rng.choice([2, 3, 6, 8]))), ("i",), ("pi",), ("pow", N(2), v), ("pow", N(3), ("rat", 2, 3))])
            return self.node(rng, 1) if rng.random() < 0.3 and not fl else ("add", v, num())
        ops = [operand() for _ in range(k)]
        if any(f in repr(ops) for f in ("'zoo'", "'nan'")): return
        if len(self.floats(("add",) + tuple(ops))) > 3: return
        if op == "mul" and any(o[0] in ("add", "sub") for o in ops) and any(self.numeric(o) for o in ops):
            return      # a number times one sum is distributed
        es = [self.build(o) for o in ops]
        if any(e is None or type(e).__name__ != "Expr" for e in es): return
        # rounding depends on the order unless all the float arithmetic is exact: keep dyadic operands away from thirds
        if self.floats(("add",) + tuple(ops)) and ("3)" in repr(ops) or "'pi'" in repr(ops) or "'sqrt'" in repr(ops) or "'pow'" in repr(ops)): return
        f2 = (lambda a, b: a + b) if op == "add" else (lambda a, b: a * b)
        fn = self.s.addition if op == "add" else self.s.multiplication

        def combine(items):
            items = list(items)
            mode = rng.randrange(4)
            if mode == 0: return fn(items)
            while len(items) > 1:
                if mode == 1: items[:2] = [f2(items[0], items[1])]
                elif mode == 2: items[-2:] = [f2(items[-2], items[-1])]
                else:
                    i = rng.randrange(len(items) - 1)
                    j = rng.randint(i + 2, len(items))
                    items[i:j] = [fn(items[i:j])] if rng.random() < 0.5 else [combine(items[i:j])] if j - i < len(items) else [fn(items[i:j])]
            return items[0]
        try:
            first = combine(es)
        except self.documented:
            return
        for _ in range(8):
            p = list(range(k))
            rng.shuffle(p)
            g = combine([es[i] for i in p])
            if not first.is_identical_to(g) or first.expression_tree_str() != g.expression_tree_str() or str(first) != str(g):
                self.fail("grouping: %s" % op, "the %s of %s depends on order or grouping: %s and %s; trees\n%s\n%s" % (
                    "sum" if op == "add" else "product", ", ".join(str(e) for e in es), first, g, first.expression_tree_str(), g.expression_tree_str()))
            self.ctx.event("regroupings")
        self.ctx.distinct(repr(ops))

    def m_float(self, rng):
        base = [rng.choice([0.0, 1.0, -1.0, 0.1, 1e-300, 5e-324, 1e300, 3.0, 2.0 ** 53, rng.uniform(-10, 10), rng.uniform(-1, 1) * 10.0 ** rng.randint(-300, 300)]) for _ in range(4)]
        fs = sorted(set(f for b in base for f in (b, math.nextafter(b, math.inf), math.nextafter(b, -math.inf), -b)))
        x = self.s.symbols("x")
        for wrap in (lambda e: e, lambda e: e * x, lambda e: self.s.Function("f")(e), lambda e: e + x, lambda e: x ** e, lambda e: self.s.where(x < e, 1, 0)):
            es = []
            for f in fs:
                e = wrap(self.s.float_constant(f))
                es.append((f, e))
            if wrap(x).is_identical_to(x):
                es += [(None, self.s.integer(0)), (None, self.s.integer(1)), (None, self.s.rational(1, 3))]
            for (f, a), (g, b) in itertools.product(es, es):
                same = f == g and f is not None or f is None and g is None and str(a) == str(b)
                if f is not None and g is not None and not same and a.expression_tree_str() == b.expression_tree_str() and "Float" not in a.expression_tree_str(): continue      # e.g. 0.0 * x
                if a.is_identical_to(b) != same and not (f is not None and g is not None and min(abs(f), abs(g)) == 0):
                    self.fail("float identity", "%s (%r) and %s (%r) are%s identical" % (a, f, b, g, "" if a.is_identical_to(b) else " not"))
                if a.is_identical_to(b) and hash(a) != hash(b): self.fail("float hash", "%s (%r) and %s (%r) are identical, but have different hashes" % (a, f, b, g))
                c = self.s.compare(a, b)
                if (c == 0) != a.is_identical_to(b) or c != -self.s.compare(b, a): self.fail("float compare", "compare(%r, %r) is %d in %s; reversed %d" % (f, g, c, a, self.s.compare(b, a)))
                self.ctx.event("float pairs")
        self.ctx.distinct(repr(fs))

    def m_matrix(self, rng):
        r, c = rng.randint(1, 3), rng.randint(1, 3)
        els = [self.node(rng, rng.choice([0, 1, 1, 2])) for _ in range(r * c)]
        mats = []

        def make(r, c, els, style):
            bs = [self.build(e) for e in els]
            if any(b is None or type(b).__name__ != "Expr" for b in bs) or self.inexact(("add",) + tuple(els)): return
            rows = [bs[i * c:(i + 1) * c] for i in range(r)]
            m = self.s.matrix(rows)
            if style == 1: m = self.s.vstack([self.s.row_vector(*q) for q in rows])
            elif style == 2: m = self.s.hstack([self.s.vector(*[rows[i][j] for i in range(r)]) for j in range(c)])
            elif style == 3: m = m.transpose().transpose()
            mats.append(m)
        for _ in range(10):
            q = rng.random()
            if q < 0.35: make(r, c, els, rng.randrange(4))
            elif q < 0.55:
                if len(els) > 1: make(c, r, els, rng.randrange(4))
            elif q < 0.7:
                e2 = list(els)
                rng.shuffle(e2)
                make(r, c, e2, 0)
            else:
                e2 = list(els)
                k = rng.randrange(len(e2))
                e2[k] = self.mutate(e2[k], rng)
                make(r, c, e2, rng.randrange(4))
        ts = [m.expression_tree_str() for m in mats]
        for (a, ta), (b, tb) in itertools.product(zip(mats, ts), repeat=2): self.pair(a, b, ta, tb, "matrix ")
        if len(set(ts)) > 1: self.ctx.distinct(repr(els))

    def m_bool(self, rng):
        base = self.cnode(rng, rng.choice([1, 2, 3]))
        pool = []
        for _ in range(10):
            n = base if rng.random() < 0.3 else self.mutate(base, rng)
            if self.inexact(n): continue
            e = self.build(n, rng.randrange(4))
            if e is not None and type(e).__name__ == "BooleanExpr": pool.append(e)
        ts = [e.expression_tree_str() for e in pool]
        for (a, ta), (b, tb) in itertools.product(zip(pool, ts), repeat=2): self.pair(a, b, ta, tb, "boolean ")
        if len(set(ts)) > 1: self.ctx.distinct(repr(base))
