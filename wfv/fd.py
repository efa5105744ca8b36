"""Function descriptions for the code-generation checks: random specifications, construction through the
public Python API, a real-valued reference of the outputs with an error estimate, and executors.

Types:  ("f",) ("i",) ("m", rows, cols) ("s", name, ((field, type), ...))
Spec:   dict(name, args=((name, type), ...), outputs=((kind, name, type, nodes), ...), exts=((name, args, ret), ...))
        kind is "ret", "out" or "opt"; nodes are flattened row-major / in field order.
Leaves of output nodes are ("sym", "<arg>#<k>") for the k-th flattened element of an argument, and
("extcall", name, args, k) for element k of the result of an external function; args are
("scalar", node) | ("mat", r, c, nodes) | ("struct", type, nodes) | ("arg", name) | ("result", extcall-tuple).
"""
import dataclasses, keyword, math, random, typing
import mpmath
from mpmath import mpf, mp
from . import gen, ref, tree

F, I = ("f",), ("i",)


def flat(t):
    if t[0] in "fi": return 1
    if t[0] == "m": return t[1] * t[2]
    return sum(flat(x) for _, x in t[2])


def flat_types(t):
    """'f' or 'i' per flattened element."""
    if t[0] in "fi": return [t[0]]
    if t[0] == "m": return ["f"] * (t[1] * t[2])
    return [y for _, x in t[2] for y in flat_types(x)]


# ------------------------------------------------------------------------------------ the reference
EPS64, EPS32 = 2.3e-16, 1.2e-7
MPF0 = mpf(0)


def ext_weights(name, i, j):
    h = sum((k + 1) * ord(c) for k, c in enumerate(name))
    return ((3 * i + 5 * j + h) % 7 - 3) / 4.0


def ext_value(name, i, flat_args):
    s = 0.125 * (i + 1)
    for j, a in enumerate(flat_args):
        s = s + ext_weights(name, i, j) * a
    return s


class Real(ref.Evaluator):
    """Evaluates in the reals; anything complex or undefined raises Undefined; noise models rounding."""

    def __init__(self, env, eps=EPS64, delta=0, seed=0, imax=2 ** 31):
        super().__init__(env, delta, seed, chop=0, float_mode=True)
        self.eps = eps
        self.imax = imax        # integral arithmetic of the target is only defined below this
        self.itypes = {}
        self.exact = 2 ** 40 if eps < 1e-10 else 2 ** 23
        self.small = 1e-100 if eps < 1e-10 else 1e-12
        self.large = 1e100 if eps < 1e-10 else 1e12
        self.calls = []

    def fin(self, z, scale=None):
        self.events += 1
        if isinstance(z, mpmath.mpc):
            if z.imag != 0:
                raise ref.Undefined("complex")
            z = z.real
        if not mpmath.isfinite(z):
            raise ref.Undefined("nonfinite")
        az = abs(z)
        if az > self.large or (az != 0 and az < self.small):
            raise ref.Ambiguous("range")
        if self.delta and z != 0 and not (az < self.exact and z == mpmath.floor(z)):
            z = z * (1 + self.delta * (2 * self.rng.random() - 1))
        return z

    def noise(self, z, scale):
        if self.delta and not (abs(z) < self.exact and z == mpmath.floor(z)):
            z = z + scale * self.delta * (2 * self.rng.random() - 1)
        return z

    def op_int(self, n):
        if abs(n[1]) >= self.imax:
            raise ref.Ambiguous("integer literal")
        return mpf(n[1]) if abs(n[1]) < 2 ** 53 else self.fin(mpf(n[1]))

    def integral(self, n):
        """Whether the target may compute this node with integral arithmetic."""
        if not gen.is_node(n):
            return False
        r = self.itypes.get(id(n))
        if r is None:
            k = n[0]
            if k in ("int", "iverson"): r = True
            elif k == "sym": r = n[1] in self.env.get("#ints", ())
            elif k == "farg": r = "%s#%d" % (n[1], n[2]) in self.env.get("#ints", ())
            elif k == "fn": r = n[1] in ("floor", "sign", "signum") or (n[1] == "abs" and self.integral(n[2]))
            elif k in ("add", "mul", "pow", "neg", "sub"): r = all(self.integral(a) for a in n[1:])
            elif k in ("max", "min"): r = any(self.integral(a) for a in n[1:])
            elif k == "where": r = any(self.integral(a) for a in n[2:])
            else: r = k == "elem"
            self.itypes[id(n)] = r
        return r

    def op_i(self, n):
        raise ref.Undefined("complex")

    def op_sym(self, n):
        v = self.env.get(n[1])
        if v is None:
            raise ref.Unsupported("unknown symbol " + str(n[1]))
        return v

    def op_farg(self, n):
        return self.op_sym(("sym", "%s#%d" % (n[1], n[2])))

    def op_add(self, n):
        s, m, w = MPF0, MPF0, MPF0
        for a in n[1:]:
            v = self(a)
            s = s + v
            m = m + abs(v)
            if v == mpmath.floor(v) or self.integral(a): w = w + abs(v)
        if w >= self.imax: raise ref.Ambiguous("integral overflow")
        return self.fin(self.noise(s, m) if len(n) > 2 else s)

    def op_mul(self, n):
        w = mpf(1)
        for a in n[1:]:
            v = self(a)
            if v == mpmath.floor(v) or self.integral(a): w = w * max(1, abs(v))
        if w >= self.imax: raise ref.Ambiguous("integral overflow")
        return super().op_mul(n)

    def op_sub(self, n):
        a, b = self(n[1]), self(n[2])
        return self.fin(self.noise(a - b, abs(a) + abs(b)))

    def cmp(self, a, b):
        d = a - b
        if d == 0:
            return 0
        if abs(d) <= self.eps * 1e4 * max(abs(a), abs(b), mpf(1e-30)):
            raise ref.Ambiguous("comparison within rounding")
        return -1 if d < 0 else 1

    def power(self, b, e):
        if b == 0:
            if e > 0: return MPF0
            raise ref.Undefined("0**e")
        if e == mpmath.floor(e) and abs(e) <= 1024:
            if abs(e) * abs(mpmath.log(abs(b))) > 400: raise ref.Ambiguous("range")
            z = b ** int(e)
            if abs(z) >= self.imax and b == mpmath.floor(b) : raise ref.Ambiguous("integral overflow")
            return self.fin(self.noise(z, abs(z) * abs(e)))
        if b < 0:
            raise ref.Undefined("complex power")
        if abs(e * mpmath.log(b)) > 400: raise ref.Ambiguous("range")
        return self.fin(mpmath.power(b, e))

    def _small(self, x, lim=None):
        if abs(x) > (1e6 if self.eps < 1e-10 else 1e3):
            raise ref.Ambiguous("argument too large")

    def fn_tan(self, x):
        self._small(x)
        if abs(mpmath.cos(x)) < 1e-4: raise ref.Ambiguous("pole")
        return self.fin(mpmath.tan(x))

    def fn_log(self, x):
        if x <= 0: raise ref.Undefined("log")
        return self.fin(mpmath.log(x))

    def fn_exp(self, x):
        if abs(x) > (300 if self.eps < 1e-10 else 60): raise ref.Ambiguous("range")
        return self.fin(mpmath.exp(x))

    def fn_cosh(self, x):
        if abs(x) > (300 if self.eps < 1e-10 else 60): raise ref.Ambiguous("range")
        return self.fin(mpmath.cosh(x))

    def fn_sinh(self, x):
        if abs(x) > (300 if self.eps < 1e-10 else 60): raise ref.Ambiguous("range")
        return self.fin(mpmath.sinh(x))

    def fn_tanh(self, x):
        return self.fin(mpmath.tanh(x)) if abs(x) < 300 else self.fin(mpf(1) if x > 0 else mpf(-1))

    def _unit(self, x):
        if abs(x) > 1: raise ref.Undefined("domain")
        if abs(x) != 1 and 1 - abs(x) < self.eps * 1e4: raise ref.Ambiguous("edge of the domain")

    def fn_acos(self, x):
        self._unit(x)
        return self.fin(mpmath.acos(x))

    def fn_asin(self, x):
        self._unit(x)
        return self.fin(mpmath.asin(x))

    def fn_atanh(self, x):
        self._unit(x)
        if abs(x) == 1: raise ref.Undefined("pole")
        return self.fin(mpmath.atanh(x))

    def fn_acosh(self, x):
        if x < 1: raise ref.Undefined("domain")
        if x != 1 and x - 1 < self.eps * 1e4: raise ref.Ambiguous("edge of the domain")
        return self.fin(mpmath.acosh(x))

    def fn_floor(self, x):
        f, r = mpmath.floor(x), mpmath.nint(x)
        if abs(x) > self.imax / 2 ** 10: raise ref.Ambiguous("beyond integers")
        if x != r and abs(x - r) <= self.eps * 1e5 * max(1, abs(x)):
            raise ref.Ambiguous("floor near integer")
        return f

    def fn_sign(self, x):
        if x != 0 and abs(x) < self.eps * 10: raise ref.Ambiguous("sign near zero")
        return mpf(self.cmp(x, MPF0))

    def fn_atan2(self, y, x):
        if x == 0 and y == 0: raise ref.Undefined("atan2(0,0)")
        if x < 0 and abs(y) < abs(x) * self.eps * 1e4: raise ref.Ambiguous("cut")
        return self.fin(mpmath.atan2(y, x))

    # compound values are lists
    def op_ctarg(self, n):
        name = n[1].rsplit(":", 1)[0].strip()
        return [self.env["%s#%d" % (name, k)] for k in range(self.env["#" + name])]

    def op_elem(self, n):
        return self(n[2])[n[1]]

    def op_matrix(self, n):
        return [self(a) for a in n[3:]]

    def op_ctcons(self, n):
        return [self(a) for a in n[2:]]

    def op_ext(self, n):
        a = []
        for x in n[2:]:
            v = self(x)
            a += v if isinstance(v, list) else [v]
        k = self.env["#" + n[1] + "()"]     # types of the elements of the result
        self.calls.append((n[1], tuple(a)))
        out = []
        for i in range(len(k)):
            if k[i] == "i":
                out.append(mpf(7 * i + 3))
                continue
            z = mpf(0.125 * (i + 1))
            m = abs(z)
            for j, x in enumerate(a):
                z = z + ext_weights(n[1], i, j) * x
                m = m + abs(x)
            out.append(self.fin(self.noise(z, m)))
        return out


def expected(node, env, eps=EPS64, imax=2 ** 31):
    """(value, tolerance) or None if the point does not decide the node."""
    old = mp.dps
    mp.dps = 30
    try:
        a = Real(env, eps, imax=imax)(node)
        spread = MPF0
        for k in range(3):
            spread = max(spread, abs(Real(env, eps, eps * 2, 11 + k, imax)(node) - a))
        tol = spread * 40 + abs(a) * eps * 30
        if tol > (1e-5 if eps < 1e-10 else 2e-2) * max(abs(a), mpf(1e-3)):
            return None
        return float(a), float(tol) + (1e-300 if eps < 1e-10 else 1e-30)
    except (ref.Undefined, ref.Ambiguous, ZeroDivisionError, OverflowError):
        return None
    finally:
        mp.dps = old


def agrees(got, exp):
    return math.isfinite(got) and abs(got - exp[0]) <= exp[1]


# ------------------------------------------------------------------------------------ random specifications
NAMES = ["rx", "ry", "rtheta", "rq", "ra_b", "rX", "rlong_name", "rw2", "rT", "rM"]


class FGen(gen.Gen):
    def __init__(self, rng, fsyms, isyms, ext=None, **kw):
        super().__init__(rng, real=True, syms=list(fsyms) + list(isyms) or None, calculus=False, **kw)
        self.ext = ext

    def leaf(self, real):
        if self.ext and self.rng.random() < 0.12:
            return self.ext(self)
        return super().leaf(real)


def tame(n, rng):
    """Keeps arguments of inverse functions inside their domains most of the time."""
    if not gen.is_node(n):
        return n
    k = tuple(tame(c, rng) if gen.is_node(c) else c for c in n[1:])
    n = (n[0],) + k
    if n[0] == "fn" and rng.random() < 0.75:
        if n[1] in ("acos", "asin"): return ("fn", n[1], ("fn", rng.choice(["sin", "tanh"]), n[2]))
        if n[1] == "atanh": return ("fn", n[1], ("mul", ("rat", 9, 10), ("fn", "sin", n[2])))
        if n[1] == "acosh": return ("fn", n[1], ("add", ("rat", 3, 2), ("pow", n[2], ("int", 2))))
        if n[1] == "log": return ("fn", n[1], ("add", ("rat", 1, 4), ("fn", "abs", n[2])))
        if n[1] in ("exp", "cosh", "sinh", "tan"): return ("fn", n[1], ("fn", rng.choice(["sin", "tanh", "atan"]), n[2]))
    return n


def random_type(rng, structs, depth=0, scalar=0.5):
    k = rng.random()
    if k < scalar * 0.75: return F
    if k < scalar: return I
    if structs and k > 0.75: return rng.choice(structs)
    return ("m",) + rng.choice([(1, 1), (2, 1), (3, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 2), (3, 3), (4, 1), (1, 4)])


def random_structs(rng):
    out = []
    for k in range(rng.randint(1, 3)):
        fields = []
        for j in range(rng.randint(1, 3)):
            fields.append(("%s%d" % (rng.choice(["a", "pos", "v_", "Q"]), j), random_type(rng, out, scalar=0.55)))
        out.append(("s", "S%d%s" % (k, rng.choice(["", "tate", "_t"])), tuple(fields)))
    return out


def random_spec(rng, name="fn0", structs=False, exts=False, matrices=True, depth=(1, 2, 3), cond=0.22, max_nodes=260, ints=True, sharing=0.35):
    st = random_structs(rng) if structs else []
    args = []
    pool = list(NAMES)
    rng.shuffle(pool)
    for _ in range(rng.randint(1, 4)):
        t = random_type(rng, st, scalar=0.6) if matrices else rng.choice([F, F, I])
        if t == I and not ints: t = F
        args.append((pool.pop(), t))
    fs, is_ = [], []
    for a, t in args:
        for k, y in enumerate(flat_types(t)):
            (fs if y == "f" else is_).append("%s#%d" % (a, k))
    ext_decl = []
    if exts:
        for k in range(rng.randint(1, 2)):
            ret = random_type(rng, st, scalar=0.5)
            if ret == I: ret = F
            ext_decl.append(("ext_%s" % rng.choice("abcd") + str(k), tuple(("p%d" % j, t if t != I else F) for j, t in enumerate(random_type(rng, st, scalar=0.55) for _ in range(rng.randint(1, 3)))), ret))

    calls = []

    def ext_leaf(g):
        if calls and rng.random() < 0.6:
            c = rng.choice(calls)
        else:
            d = rng.choice(ext_decl)
            a = []
            for _, t in d[1]:
                same = [x for x, u in args if u == t and t[0] == "s"]
                res = [c for c in calls if next(e[2] for e in ext_decl if e[0] == c[1]) == t and t[0] in "sm"]
                if same and rng.random() < 0.5: a.append(("arg", rng.choice(same)))
                elif res and rng.random() < 0.5: a.append(("result", rng.choice(res)))
                elif t == I: a.append(("scalar", ("sym", rng.choice(is_)) if is_ and rng.random() < 0.7 else ("int", rng.randint(-3, 3))))
                elif t == F: a.append(("scalar", small(g)))
                else:
                    nodes = tuple(small(g) if y == "f" else (("sym", rng.choice(is_)) if is_ else ("int", rng.randint(-3, 3))) for y in flat_types(t))
                    a.append(("mat", t[1], t[2], nodes) if t[0] == "m" else ("struct", t, nodes))
            c = ("extcall", d[0], tuple(a))
            calls.append(c)
        ret = next(e[2] for e in ext_decl if e[0] == c[1])
        return c + (rng.randrange(flat(ret)),)

    def small(g):
        k = rng.random()
        if k < 0.5 and fs: return ("sym", rng.choice(fs))
        if k < 0.7: return ("flt", rng.choice([0.5, 1.25, -2.0]))
        a = ("sym", rng.choice(fs)) if fs else ("flt", 0.75)
        return ("fn", rng.choice(["sin", "cos", "atan"]), ("add", a, g.number()))

    g = FGen(rng, fs, is_, ext=ext_leaf if ext_decl else None, floats=0.1, cond=cond, uneval=0.03, stopd=0.01)
    outs = []
    shared = []

    def node(t, d=None):
        d = rng.choice(depth) if d is None else d
        if t == "i":
            k = rng.random()
            if is_ and k < 0.8:
                n = ("sym", rng.choice(is_))
                for _ in range(rng.randint(0, 2)):
                    b = rng.choice([("sym", rng.choice(is_)), ("int", rng.randint(-5, 9))])
                    n = rng.choice([("add", n, b), ("mul", n, b), ("sub", n, b), ("neg", n), ("add", b, n), ("where", ("rel", "<", n, b), n, b)])
                return n
            return ("int", rng.randint(-4, 9))
        if rng.random() < 0.06:
            return rng.choice([("int", 0), ("int", 1), ("int", -3), ("rat", 1, 3), ("flt", 2.5), ("pi",), ("iverson", ("rel", "<", ("int", 0), ("sym", rng.choice(fs or is_)))) if fs or is_ else ("int", 2)])
        n = tame(g.node(d, True), rng)
        if shared and rng.random() < sharing:
            b = rng.choice(shared)
            n = rng.choice([("add", n, b), ("mul", n, b), ("where", ("rel", rng.choice(["<", "<=", "=="]), b, n), n, ("mul", b, n)), ("sub", ("mul", b, n), b)])
        if ref_size(n) > 70:
            n = g.leaf(True)
        shared.append(n)
        return n
    kinds = []
    if rng.random() < 0.7: kinds.append("ret")
    for _ in range(rng.randint(0 if kinds else 1, 3)):
        kinds.append(rng.choice(["out", "out", "opt"]))
    total = 0
    rng.shuffle(kinds)
    cond_shared = None
    for k in kinds:
        t = random_type(rng, st, scalar=0.55) if matrices else F
        if t == I and k != "ret" and rng.random() < 0.5: t = F
        if t == I: t = F        # scalar outputs are floating point
        nodes = tuple(node(y) for y in flat_types(t))
        if rng.random() < 0.15 and t != I and "i" not in flat_types(t):
            # all elements under one condition
            c = g.cond_node(2)
            nodes = tuple(("where", c, a, node("f", 1)) for a in nodes)
        outs.append((k, "ret" if k == "ret" else "o_%d" % len(outs), t, nodes))
    spec = dict(name=name, args=tuple(args), outputs=tuple(outs), exts=tuple(ext_decl), structs=tuple(st))
    if sum(ref_size(n) for o in outs for n in o[3]) > max_nodes:
        return None
    return spec


def ref_size(n):
    return 1 + sum(ref_size(c) for c in n[1:] if isinstance(c, tuple)) if isinstance(n, tuple) else 0


# ------------------------------------------------------------------------------------ construction
class Bld(gen.Builder):
    def __init__(self, style, leaves, fns, spec, argobjs, types):
        super().__init__(style)
        self.leaves, self.fns, self.spec, self.argobjs, self.types = leaves, fns, spec, argobjs, types
        self.results = {}

    def b_sym(self, n):
        return self.leaves[n[1]]

    def result(self, c):
        """The object returned by an external call."""
        hit = self.results.get(id(c[2]))
        if hit is not None and hit[0] is c[2]:
            return hit[1]
        decl = next(e for e in self.spec["exts"] if e[0] == c[1])
        vals = []
        for (pname, t), a in zip(decl[1], c[2]):
            if a[0] == "scalar": v = self(a[1])
            elif a[0] == "arg": v = self.argobjs[a[1]]
            elif a[0] == "result": v = self.result(a[1])
            elif a[0] == "mat": v = self.s.matrix([[self(x) for x in a[3][r * a[2]:(r + 1) * a[2]]] for r in range(a[1])])
            else:
                v = make_object(self, a[1], [self(x) for x in a[2]])
            vals.append((pname, v))
        npos = self.style % (len(vals) + 1)
        kw = list(vals[npos:])
        if self.style % 2: kw.reverse()
        r = self.fns[c[1]](*[v for _, v in vals[:npos]], **dict(kw))
        self.results[id(c[2])] = (c[2], r)
        return r

    def b_extcall(self, n):
        decl = next(e for e in self.spec["exts"] if e[0] == n[1])
        return elements(self, decl[2], self.result(n[:3]))[n[3]]

    # what the C++ API is asked to do to an expression without changing its value (C23)
    def b_cxx(self, n): return self(n[2])
    def b_cxxsubs(self, n): return self(n[4])
    def b_cxxdiff(self, n): return self(n[1]).diff(self(n[2]))


def annotation(t, types):
    import wrenfold as wf
    if t == F: return wf.FloatScalar
    if t == I: return wf.IntScalar
    if t[0] == "m":
        return typing.Annotated[gen.sym().MatrixExpr, wf.Shape(rows=t[1], cols=t[2])]
    c = types.get(t[1])
    if c is None and opaque(t):
        c = types[t[1]] = type(t[1], (wf.Opaque,), {})
    if c is None:
        c = dataclasses.make_dataclass(t[1], [(f, annotation(x, types)) for f, x in t[2]])
        types[t[1]] = c
    return c


def make_object(b, t, vals):
    """An object of type t from flattened expressions."""
    if t[0] in "fi": return vals[0]
    if t[0] == "m":
        return b.s.matrix([vals[r * t[2]:(r + 1) * t[2]] for r in range(t[1])])
    kw, k = {}, 0
    for f, x in t[2]:
        m = flat(x)
        kw[f] = make_object(b, x, vals[k:k + m])
        k += m
    annotation(t, b.types)
    return b.types[t[1]](**kw)


def opaque(t):
    """Opaque types look like structs with one field to the executors and have no elements in expressions."""
    return t[0] == "s" and t[1].startswith("Opq")


def elements(b, t, obj):
    if opaque(t): return []
    if t[0] in "fi": return [obj]
    if t[0] == "m": return [obj[r, c] for r in range(t[1]) for c in range(t[2])]
    return [e for f, x in t[2] for e in elements(b, x, getattr(obj, f))]


def make_function(spec, style=0):
    """A python function with annotations, as a user would write it; after a call .trees holds the outputs' trees."""
    import wrenfold as wf
    from wrenfold import external_functions
    types = {}
    fns = {}
    for e in spec["exts"]:
        fns[e[0]] = external_functions.declare_external_function(e[0], arguments=[(p, annotation(t, types)) for p, t in e[1]], return_type=annotation(e[2], types))
    state = {}

    def impl(objs):
        leaves = {}
        b = Bld(style, leaves, fns, spec, objs, types)
        for a, t in spec["args"]:
            for k, e in enumerate(elements(b, t, objs[a])):
                leaves["%s#%d" % (a, k)] = e
        res, exprs = [], []
        for kind, name, t, nodes in spec["outputs"]:
            vals = [b(n) for n in nodes]
            vals = [v if not isinstance(v, (int, float)) else b.s.expr(v) if hasattr(b.s, "expr") else v for v in vals]
            exprs.append([tree.of(v) for v in vals])
            o = make_object(b, t, vals)
            res.append(wf.ReturnValue(o) if kind == "ret" else wf.OutputArg(o, name=name, is_optional=kind == "opt"))
        state["trees"] = exprs
        return res
    ns = {"impl": impl}
    a = [x for x, _ in spec["args"]]
    exec("def %s(%s):\n    return impl(dict(%s))\n" % (spec["name"], ", ".join(a), ", ".join("%s=%s" % (x, x) for x in a)), ns)
    f = ns[spec["name"]]
    f.__annotations__.update({x: annotation(t, types) for x, t in spec["args"]})
    f.types, f.state = types, state
    return f


UNSUPPORTED = ("i", "zoo", "nan", "deriv", "subst", "symfn")


def unsupported(trees):
    return any(ref.contains(t, UNSUPPORTED) for ts in trees for t in ts)


# ------------------------------------------------------------------------------------ points
def random_inputs(spec, rng):
    env = {}
    style = rng.random()
    for a, t in spec["args"]:
        env["#" + a] = flat(t)
        for k, y in enumerate(flat_types(t)):
            if y == "i":
                v = float(rng.choice([0, 1, -1, 2, 3, -2, 5, -7, 10]))
            elif style < 0.2:
                v = rng.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, -2.0])
            else:
                v = round(rng.uniform(-1, 1) * rng.choice([1, 1, 2, 5]), 3) + rng.randint(1, 99) / 8192.0
            env["%s#%d" % (a, k)] = mpf(v)
    for e in spec["exts"]:
        env["#" + e[0] + "()"] = flat_types(e[2])
    env["#ints"] = int_names(spec)
    return env


def large_inputs(spec, rng, trees, width=64):
    """A point with one argument far beyond 32-bit integers at which every sub-expression is well defined and far below
    2 ** 63, or None."""
    floored = sorted({m[2][1] for o in spec["outputs"] for x in o[3] for m in subnodes(x) if m[:2] == ("fn", "floor") and m[2][0] == "sym"})
    for _ in range(3 if not floored else 5):
        env = random_inputs(spec, rng)
        names = [n for n in env if isinstance(n, str) and "#" in n[1:] and not n.endswith("()")]
        if not names: return None
        n = rng.choice(floored if floored and rng.random() < 0.8 else names)
        if n in env["#ints"]:
            v = rng.choice([1, -1]) * (rng.choice([2 ** 31, 2 ** 32, 2 ** 33, 2 ** 36]) + rng.randint(0, 9))
        else:
            v = rng.choice([1, -1]) * (rng.choice([2.0 ** 31, 2.0 ** 32, 2.0 ** 33, 1e11]) + (rng.randint(0, 999) + 0.375 if width == 64 else 0))
        env[n] = mpf(v)
        for k in names:
            if k != n and k not in env["#ints"] and rng.random() < 0.5: env[k] = mpf(round(float(env[k])) + rng.choice([0.25, 0.5, 0.75]))
        if all(settled(t, env, width) for ts in trees for t in ts):
            return env
    return None


def subnodes(n):
    yield n
    for c in n[1:]:
        if gen.is_node(c): yield from subnodes(c)


def with_floor(spec, rng):
    """The specification with a floating-point argument rounded down in one of its outputs."""
    fs = [("sym", "%s#%d" % (a, k)) for a, t in spec["args"] for k, y in enumerate(flat_types(t)) if y == "f"]
    outs = list(spec["outputs"])
    at = [(i, j) for i, o in enumerate(outs) for j, y in enumerate(flat_types(o[2])) if y == "f"]
    if not fs or not at: return spec
    i, j = rng.choice(at)
    x = rng.choice(fs)
    n = ("fn", "floor", x)
    n = rng.choice([n, ("add", n, ("int", rng.randint(1, 9))), ("sub", x, n), ("mul", n, ("flt", 0.5)), ("sub", n, ("fn", "floor", rng.choice(fs)))])
    outs[i] = outs[i][:3] + (outs[i][3][:j] + (n,) + outs[i][3][j + 1:],)
    return dict(spec, outputs=tuple(outs))


def with_power(spec, rng):
    """The specification with one of its outputs replaced by a power of an argument: every integer and small fraction as an exponent, and symbolic ones."""
    leaves = {y: [("sym", "%s#%d" % (a, k)) for a, t in spec["args"] for k, z in enumerate(flat_types(t)) if z == y] for y in "fi"}
    outs = list(spec["outputs"])
    at = [(i, j) for i, o in enumerate(outs) for j, y in enumerate(flat_types(o[2])) if y == "f"]
    if not leaves["f"] or not at: return spec
    x, d = rng.choice(leaves["f"]), rng.choice([1, 1, 1, 2, 2, 2, 3, 4, 4, 6])
    k = rng.choice([1, 1, 1, -1]) * rng.randint(1, 19)
    up = ("add", ("fn", "abs", x), rng.choice([("rat", 1, 2), ("int", 1), ("flt", 0.25)]))
    y = rng.random()
    if y < 0.15 and leaves["i"]:
        n = ("pow", up, rng.choice([("sym",), ("neg", ("sym",)), ("mul", ("int", 2), ("sym",)), ("add", ("sym",), ("rat", 1, 2))]))
        z = rng.choice(leaves["i"])
        n = n[:2] + (_put(n[2], z),)
    elif y < 0.25:
        n = ("pow", up, rng.choice([x, ("mul", ("rat", -1, 2), rng.choice(leaves["f"])), ("fn", "floor", rng.choice(leaves["f"])), ("neg", rng.choice(leaves["f"]))]))
    elif y < 0.35 and leaves["i"]:
        n = ("pow", rng.choice(leaves["i"]), ("int", abs(k))) if abs(k) < 8 else ("pow", ("add", ("pow", rng.choice(leaves["i"]), ("int", 2)), ("int", 1)), ("rat", k, 2))
    elif d == 1:
        n = ("pow", rng.choice([x, up, ("add", x, ("int", 2))]), ("int", k))
    else:
        n = ("pow", up, ("rat", k, d))
    i, j = rng.choice(at)
    old = outs[i][3][j]
    n = rng.choice([n, n, ("mul", n, x), ("add", n, old) if old[0] in ("sym", "int") else n, ("add", n, ("pow", up, ("rat", k + 2, d)))])
    outs[i] = outs[i][:3] + (outs[i][3][:j] + (n,) + outs[i][3][j + 1:],)
    return dict(spec, outputs=tuple(outs))


def _put(n, z):
    return z if n == ("sym",) else (n[0],) + tuple(_put(c, z) if gen.is_node(c) else c for c in n[1:])


def settled(t, env, width):
    """Every sub-expression has a definite value and integral arithmetic stays far from its limits."""
    old = mp.dps
    mp.dps = 30
    try:
        r = Real(env, EPS64 if width == 64 else EPS32, imax=2 ** 50)
        stack, seen = [t], set()
        while stack:
            n = stack.pop()
            if id(n) in seen: continue
            seen.add(id(n))
            if n[0] not in ("rel", "ctarg", "true", "false"): r(n)
            stack += [c for c in n[1:] if gen.is_node(c)]
        return True
    except (ref.Undefined, ref.Ambiguous, ref.Unsupported, ZeroDivisionError, OverflowError):
        return False
    finally:
        mp.dps = old


def int_names(spec):
    return {"%s#%d" % (a, k) for a, t in spec["args"] for k, y in enumerate(flat_types(t)) if y == "i"}


def flat_inputs(spec, env):
    return [float(env["%s#%d" % (a, k)]) for a, t in spec["args"] for k in range(flat(t))]
