"""C19: the printed form of an expression denotes that expression."""
import ast, hashlib, random, re
import mpmath
from mpmath import mpc, mpf
from .. import gen, tree
from ..worker import Violation
from . import c12

RULE = ("str() of random scalar, boolean, matrix and compound expressions (all node kinds, nested powers, quotients, negative and fractional coefficients, floats of every magnitude, function arguments, matrix arguments, struct fields, "
        "external calls, deferred derivatives and substitutions) read back by Python's own grammar and evaluated against the stored expression tree at random complex points, functions being arbitrary but fixed mixing functions of their "
        "arguments; non-trivial if a value was decided; distinct by text")
MIN_EVENTS = {"values decided": 25000, "argument texts": 400, "matrix texts": 500, "boolean texts": 500, "external texts": 800}
mpmath.mp.dps = 40


class Undecided(Exception):
    pass


class BadText(Exception):
    pass


def coef(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=16).digest()
    a, b = int.from_bytes(h[:8], "big"), int.from_bytes(h[8:], "big")
    return mpc(mpf(a) / 2 ** 63 - 1, mpf(b) / 2 ** 63 - 1)


def mix(name, *v):
    """An arbitrary fixed function of the arguments, sensitive to each of them and to their order."""
    r = coef(name, len(v))
    for i, x in enumerate(v):
        r += coef(name, i, len(v)) * x
        if abs(x) < 1e6: r += coef(name, i, len(v), 2) * x * x / 8
    return r


def power(a, b):
    if b == 0: return mpf(1)
    if a == 0: raise Undecided()
    if a.real < 0 and a.imag != 0 and abs(a.imag) < mpf(10) ** -20 * abs(a): raise Undecided()      # rounding noise next to the branch cut
    if abs(b) * (abs(mpmath.log(a)) + 1) > 3000: raise Undecided()
    return mpmath.power(a, b)


def finite(v):
    if not (mpmath.isfinite(v.real) and mpmath.isfinite(v.imag)) or abs(v) > mpf(10) ** 2000: raise Undecided()
    return v


class TreeEval:
    def __init__(self, salt, shapes):
        self.salt, self.shapes = salt, shapes

    def __call__(self, n): return finite(mpmath.mpmathify(getattr(self, "op_" + n[0])(n)))

    def leaf(self, name): return coef("leaf", self.salt, name) * 2
    def op_int(self, n): return mpf(n[1])
    def op_rat(self, n): return mpf(n[1]) / n[2]
    def op_flt(self, n):
        return mpf(n[1])
    def op_pi(self, n): return self.leaf("pi")
    def op_e(self, n): return self.leaf("E")
    def op_i(self, n): return self.leaf("I")
    def op_zoo(self, n): return self.leaf("zoo")
    def op_nan(self, n): return self.leaf("nan")
    def op_true(self, n): return self.leaf("True")
    def op_false(self, n): return self.leaf("False")
    def op_True(self, n): return self.leaf("True")
    def op_False(self, n): return self.leaf("False")
    def op_sym(self, n): return self.leaf(n[1])
    def op_uniq(self, n): return self.leaf("$u_%d" % n[1])
    def op_farg(self, n): return self.leaf(n[1] + self.shapes[n[1]][n[2]])
    def op_add(self, n): return mpmath.fsum([self(a) for a in n[1:]])
    def op_mul(self, n): return mpmath.fprod([self(a) for a in n[1:]])
    def op_pow(self, n): return power(self(n[1]), self(n[2]))
    def op_fn(self, n): return mix("log" if n[1] == "ln" else n[1], *[self(a) for a in n[2:]])
    def op_where(self, n): return mix("where", *[self(a) for a in n[1:]])
    def op_iverson(self, n): return mix("iverson", self(n[1]))
    def op_rel(self, n): return mix(n[1], self(n[2]), self(n[3]))
    def op_uneval(self, n): return self(n[1])
    def op_stopd(self, n): return mix("StopDerivative", self(n[1]))
    def op_symfn(self, n): return mix(n[1], *[self(a) for a in n[2:]])
    op_ext = op_symfn
    def op_ctarg(self, n): return self.leaf(n[1])
    def op_subst(self, n): return mix("Subs", *[self(a) for a in n[1:]])
    def op_deriv(self, n): return mix("Derivative", self(n[2]), self(n[3]), mpf(n[1]))
    def op_elem(self, n):
        s = self.shapes[n[2][1]][n[1]]
        return mix("access" + s, self(n[2])) if s else self(n[2])


class TextEval:
    """Ordinary precedence: Python's own grammar."""
    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Eq: "==", ast.Gt: ">", ast.GtE: ">="}

    def __init__(self, salt, text):
        self.salt = salt
        try:
            self.t = ast.parse(text.replace("$u_", "uniq__"), mode="eval").body
        except (SyntaxError, ValueError) as e:
            raise BadText("not an expression: %s" % e)
        except RecursionError:
            raise Undecided()

    def __call__(self, t): return finite(mpmath.mpmathify(getattr(self, "n_" + type(t).__name__, self.bad)(t)))
    def bad(self, t): raise BadText("unexpected %s" % ast.dump(t)[:200])
    def leaf(self, name): return coef("leaf", self.salt, name.replace("uniq__", "$u_")) * 2
    def n_Name(self, t): return self.leaf(t.id)

    def n_Constant(self, t):
        if isinstance(t.value, bool): return self.leaf(str(t.value))
        if not isinstance(t.value, (int, float)): self.bad(t)
        return mpf(t.value)

    def n_UnaryOp(self, t):
        if not isinstance(t.op, ast.USub): self.bad(t)
        return -self(t.operand)

    def n_BinOp(self, t):
        a, b = self(t.left), self(t.right)
        if isinstance(t.op, ast.Add): return a + b
        if isinstance(t.op, ast.Sub): return a - b
        if isinstance(t.op, ast.Mult): return a * b
        if isinstance(t.op, ast.Div):
            if b == 0: raise Undecided()
            return a / b
        if isinstance(t.op, ast.Pow): return power(a, b)
        self.bad(t)

    def n_Compare(self, t):
        if len(t.ops) != 1: self.bad(t)
        return mix(self.OPS[type(t.ops[0])], self(t.left), self(t.comparators[0]))

    def n_Call(self, t):
        if not isinstance(t.func, ast.Name) or t.keywords: self.bad(t)
        v = [self(a) for a in t.args]
        if t.func.id == "Derivative" and len(v) == 2: v.append(mpf(1))
        return mix(t.func.id, *v)

    def path(self, t):
        s = ""
        while True:
            if isinstance(t, ast.Attribute): s, t = "." + t.attr + s, t.value
            elif isinstance(t, ast.Subscript):
                i = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                if not all(isinstance(k, ast.Constant) for k in i): self.bad(t)
                s, t = "[%s]" % ", ".join(str(k.value) for k in i) + s, t.value
            else: break
        if isinstance(t, ast.Name): return self.leaf(t.id + s)
        return mix("access" + s, self(t))

    n_Attribute = n_Subscript = path


EXT = {"ext_s": [""], "ext_s2": [""], "ext_m": ["[%d, %d]" % (i, j) for i in (0, 1) for j in (0, 1)], "ext_c": [".u", ".v", ".w[0, 0]", ".w[1, 0]"]}
EXT["ext_m2"] = EXT["ext_m"]


X, Y = ("symset", "x", "unknown"), ("symset", "y", "unknown")
LIMITS = []
for _m in (("int", -2 ** 63), ("int", 2 ** 63 - 1), ("int", -2 ** 63 + 1), ("rat", -2 ** 63, 3), ("rat", 2 ** 63 - 1, 2), ("rat", 1, 2 ** 63 - 1), ("rat", -1, 2 ** 63 - 1), ("rat", -2 ** 63, 2 ** 63 - 1), ("flt", -1e308), ("flt", -5e-324), ("int", -1)):
    _p = ("pow", X, _m)
    _q = ("pow", X, ("mul", _m, Y))
    LIMITS += [_m, ("mul", _m, X), ("add", Y, ("mul", _m, X)), ("add", Y, _m), _p, ("mul", Y, _p), ("add", Y, ("mul", ("int", -1), _p)), _q, ("mul", Y, _q), ("add", ("mul", _m, _q), Y), ("pow", _m, Y), ("mul", Y, ("pow", _m, X)),
               ("pow", ("mul", _m, X), Y), ("div", Y, _m), ("div", ("add", X, Y), ("mul", _m, Y)), ("rel", "<", ("mul", _m, X), Y), ("symfn", "f", ("mul", _m, X), _m), ("pow", ("add", X, _m), ("rat", -1, 2)), ("mul", _m, ("pow", Y, ("int", -1)), _p),
               ("add", ("mul", _m, X), ("mul", _m, Y)), ("where", ("rel", "<", X, _m), ("mul", _m, X), _q)]


class Check(c12.Check):
    def __init__(self, ctx, tier, seed):
        super().__init__(ctx, tier, seed)
        self.shapes = dict(EXT)

    def total(self): return 9000 if self.tier == "quick" else 130000

    def run(self, i, rng):
        if i < len(LIMITS):
            return self.go(i, "limits")
        self.go(rng.getrandbits(60), ["expr", "expr", "expr", "arith", "arith", "arith", "matrix", "bool", "args", "ext"][i % 10])

    # ---- recipes with many signs, quotients and powers
    def arith(self, rng, d):
        if d <= 0 or rng.random() < 0.1:
            q = rng.random()
            if q < 0.45: return ("symset", rng.choice(["x", "y", "z"]), rng.choice(["unknown", "unknown", "real", "positive"]))
            if q < 0.65: return ("int", rng.choice([1, -1, 2, -2, 3, -3, 10, -10, 0, 2 ** 40, -2 ** 62]))
            if q < 0.8: return ("rat", rng.choice([1, -1, 2, -2, 3, -7]), rng.choice([2, 3, 5, 12]))
            if q < 0.92: return ("flt", rng.choice([0.5, -0.5, 1e-7, -1e-7, 1e20, -1e20, 1e16, 123456789.0, 1.5e300, 1e-300, 5e-324, 0.1, -0.1, 2.0, -3.0, 0.30000000000000004, rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)]))
            return rng.choice([("pi",), ("e",), ("i",)])
        c = lambda: self.arith(rng, d - 1)
        k = rng.choice(["add", "sub", "mul", "mul", "div", "div", "neg", "pow", "pow", "powr", "fn", "uneval"])
        if k in ("add", "mul"): return (k,) + tuple(c() for _ in range(rng.choice([2, 2, 3])))
        if k in ("sub", "div", "pow"): return (k, c(), c())
        if k == "powr": return ("pow", c(), rng.choice([("rat", 1, 2), ("rat", -1, 2), ("int", -1), ("int", 2), ("int", -2), ("rat", 2, 3), ("neg", c())]))
        if k == "fn": return ("fn", rng.choice(["sin", "abs", "log", "exp"]), c())
        return (k, c())

    def decide(self, text, trees, shapes=None, kind=""):
        """The text denotes the tree."""
        shapes = shapes or self.shapes
        for salt in (1, 2):
            try:
                want = TreeEval(salt, shapes)(trees)
                got = TextEval(salt, text)
                got = got(got.t)
            except (Undecided, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence):
                self.ctx.event("undecided")
                continue
            except BadText as e:
                self.fail("unreadable: " + str(e)[:60], "%r cannot be read: %s; the tree is %r" % (text, e, trees))
            if abs(got - want) > mpf(10) ** -15 * max(abs(want), abs(got)) and not self.cancelled(trees):
                self.fail("value: " + text[:150], "%r does not denote %r (%s, not %s, at point %d)" % (text, trees, mpmath.nstr(got, 10), mpmath.nstr(want, 10), salt))
            self.ctx.event("values decided")
            self.ctx.distinct(text)
        if kind: self.ctx.event(kind)

    def cancelled(self, n):
        """Catastrophic cancellation (the two evaluations at 40 digits disagree by rounding alone): decided at 400 digits instead."""
        return False

    def text(self, e):
        try:
            return str(e)
        except Exception as ex:
            self.fail("unprintable: " + type(ex).__name__, "an expression cannot be printed: %s: %s; its tree is\n%s" % (type(ex).__name__, ex, e.expression_tree_str()))

    def scalar(self, e, kind=""):
        text = self.text(e)
        if repr(e) != text: self.fail("repr", "repr %r differs from str %r" % (repr(e), text))
        if len(text) > 3000: return
        self.decide(text, tree.of(e), kind=kind)

    def m_expr(self, rng):
        e = self.build(self.node(rng, rng.choice([1, 2, 3, 4])), rng.randrange(4))
        if e is not None and type(e).__name__ == "Expr": self.scalar(e)

    def m_arith(self, rng):
        n = self.arith(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        e = self.build(n, rng.randrange(4))
        if e is not None:
            if rng.random() < 0.005: self.ctx.sample(str(e))
            self.scalar(e)

    def m_limits(self, rng):
        pass

    def go(self, seed, mode):
        if mode != "limits": return super().go(seed, mode)
        self.ctx.describe(repr((seed, mode)))
        e = self.build(LIMITS[seed], 0)
        if e is not None: self.scalar(e, "limit texts")

    def m_ext(self, rng):
        n = ("ext", rng.choice(list(EXT)), rng.randrange(4), self.arith(rng, 1), self.node(rng, 1))
        n = rng.choice([n, ("add", n, self.arith(rng, 1)), ("pow", n, self.arith(rng, 1)), ("div", self.arith(rng, 1), n), ("mul", self.arith(rng, 1), n)])
        e = self.build(n, 0)
        if e is not None and type(e).__name__ == "Expr": self.scalar(e, "external texts")

    def m_bool(self, rng):
        a, b = self.build(self.arith(rng, 2)), self.build(self.node(rng, 2))
        if a is None or b is None or type(a).__name__ != "Expr" or type(b).__name__ != "Expr": return
        for f in (self.s.lt, self.s.le, self.s.eq):
            try:
                e = f(a, b)
            except Exception as ex:
                if type(ex).__module__.startswith("pywrenfold"): continue
                raise
            t = tree.of(e)
            self.decide(self.text(e), t, kind="boolean texts")
            if t[0] == "rel":
                w = self.s.where(e, a, self.s.iverson(e) * b)
                self.scalar(w)

    def m_matrix(self, rng):
        r, c = rng.randint(1, 4), rng.randint(1, 4)
        es = [self.build(self.arith(rng, rng.choice([0, 1, 2]))) for _ in range(r * c)]
        if any(e is None for e in es): return
        m = self.s.matrix([es[i * c:(i + 1) * c] for i in range(r)])
        text = self.text(m)
        t = tree.of(m)
        if t[:3] != ("matrix", r, c): self.fail("matrix tree", "the tree of a %d x %d matrix is %r" % (r, c, t[:3]))
        try:
            p = ast.parse(text, mode="eval").body
            rows = [[ast.unparse(x) for x in row.elts] for row in p.elts]
        except (SyntaxError, AttributeError) as e:
            self.fail("matrix unreadable", "%r cannot be read: %s" % (text, e))
        if len(rows) != r or any(len(q) != c for q in rows): self.fail("matrix shape", "%r is not a %d x %d matrix" % (text, r, c))
        for k, e in enumerate(es):
            if not m[k // c, k % c].is_identical_to(e): self.fail("matrix element", "element (%d, %d) of %s is %s; it was %s" % (k // c, k % c, m, m[k // c, k % c], e))
            self.decide(rows[k // c][k % c], tree.of(e))
            self.decide(rows[k // c][k % c], t[3 + k])
        self.ctx.event("matrix texts")

    def m_args(self, rng):
        """Function arguments: scalars, matrices, structs with scalar, matrix and struct fields."""
        from .. import fd
        types, args, shapes = {}, [], dict(EXT)

        def paths(t):
            if t[0] in ("f", "i", "float", "int"): return [""]
            if t[0] in ("mat", "m"): return ["[%d, %d]" % (i, j) for i in range(t[1]) for j in range(t[2])]
            return ["." + f + q for f, x in t[2] for q in paths(x)]
        self.nstruct = 0

        def mk(d):
            q = rng.random()
            if q < 0.3: return ("f",)
            if q < 0.4: return ("i",)
            if q < 0.75 or d == 0: return ("mat", rng.randint(1, 4), rng.randint(1, 4))
            self.nstruct += 1
            return ("struct", "S%d" % self.nstruct, tuple(("f%d" % k, mk(d - 1)) for k in range(rng.randint(1, 3))))
        from wrenfold import code_generation as cg, type_annotations as ta
        import dataclasses, typing
        from wrenfold import sym

        def ann(t):
            if t[0] == "f": return ta.FloatScalar
            if t[0] == "i": return ta.IntScalar
            if t[0] == "mat": return typing.Annotated[sym.MatrixExpr, ta.Shape(rows=t[1], cols=t[2])]
            return dataclasses.make_dataclass(t[1], [(f, ann(x)) for f, x in t[2]])

        def elems(t, v):
            if t[0] in ("f", "i"): return [v]
            if t[0] == "mat": return [v[i, j] for i in range(t[1]) for j in range(t[2])]
            return [e for f, x in t[2] for e in elems(x, getattr(v, f))]
        args = [("arg%d" % k, mk(3)) for k in range(rng.randint(1, 3))]
        for a, t in args: shapes[a] = paths(t)
        seen = []

        def body(*vals):
            seen.extend(e for (a, t), v in zip(args, vals) for e in elems(t, v))
            return [cg.ReturnValue(seen[0])]
        ns = {"body": body}
        exec("def func(%s): return body(%s)" % (", ".join(a for a, _ in args), ", ".join(a for a, _ in args)), ns)
        func = ns["func"]
        func.__annotations__ = {a: ann(t) for a, t in args}
        cg.create_function_description(func)
        want = [a + p for a, t in args for p in shapes[a]]
        if len(seen) != len(want): raise RuntimeError("harness: %d elements, %d paths" % (len(seen), len(want)))
        for e, w in zip(seen, want):
            if str(e) != w: self.fail("argument", "%s of the arguments %r prints %r" % (w, args, str(e)))
            self.ctx.event("argument texts")
        # a struct argument's elements are elements of a compound expression in the tree
        es = list(seen)
        rng.shuffle(es)
        e = es[0]
        for f in es[1:6]: e = rng.choice([lambda: e + f * 2, lambda: e / f, lambda: self.s.sin(e) * f, lambda: e ** f, lambda: -e - f])()
        self.arg_shapes = shapes
        t = tree.of(e)
        self.decide(self.text(e), self.flatten(t, {a: paths(t) for a, t in args}), shapes)

    def flatten(self, n, shapes):
        """Elements of struct arguments become leaves named by their path."""
        if not gen.is_node(n): return n
        if n[0] == "elem" and n[2][0] == "ctarg": return ("sym", self.ctname(n[2][1]) + shapes[self.ctname(n[2][1])][n[1]])
        return (n[0],) + tuple(self.flatten(c, shapes) if gen.is_node(c) else c for c in n[1:])

    def ctname(self, p):
        m = re.match(r"^(?:.*\b)?(arg\d+)\b", p)
        return m.group(1)
