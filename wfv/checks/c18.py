"""C18: quaternion and rotation routines satisfy the algebra of rotations."""
import math, random
from fractions import Fraction as Fr
import mpmath
from mpmath import mpf, matrix as M
from .. import gen, tree
from ..worker import Violation

RULE = ("every routine of the geometry module over symbolic, mixed and constant components, evaluated in 60-digit arithmetic at generic, near-zero, near-half-turn, exact half-turn, axis-aligned, tied-trace and negative-w rotations, "
        "against quaternion algebra written independently (rotation matrices, matrix exponential series, polar form); random products of the operations; non-trivial if a value was decided; distinct by routine and input")
MIN_EVENTS = {"algebra": 600, "from rotation vector": 300, "from angle axis": 300, "to rotation vector": 200, "to angle axis": 250, "from rotation matrix": 600, "so3 jacobians": 150, "tangent derivatives": 300, "half turns": 250, "near zero": 250, "round trips": 150, "rotation matrices converted in double precision": 250}
mpmath.mp.dps = 60
EPS = mpf(10) ** -40


class Undefined(Exception):
    pass


class RealEval:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, n):
        k = id(n)
        r = self.memo.get(k)
        if r is None:
            v = getattr(self, "op_" + n[0])(n)
            r = self.memo[k] = (n, v)
        return r[1]

    def op_int(self, n): return mpf(n[1])
    def op_rat(self, n): return mpf(n[1]) / n[2]
    def op_flt(self, n): return mpf(n[1])
    def op_pi(self, n): return +mpmath.pi
    def op_e(self, n): return +mpmath.e
    def op_zoo(self, n): raise Undefined("zoo")
    def op_nan(self, n): raise Undefined("nan")
    def op_sym(self, n): return self.env[n[1]]
    def op_add(self, n): return mpmath.fsum(self(a) for a in n[1:])

    def op_mul(self, n):
        r = mpf(1)
        for a in n[1:]: r *= self(a)
        return r

    def op_sub(self, n): return self(n[1]) - self(n[2])
    def op_neg(self, n): return -self(n[1])
    def op_div(self, n):
        d = self(n[2])
        if d == 0: raise Undefined("division")
        return self(n[1]) / d

    def op_sqrt(self, n): return self.op_pow(("pow", n[1], ("rat", 1, 2)))

    def op_pow(self, n):
        a, b = self(n[1]), self(n[2])
        if a == 0:
            if b > 0: return mpf(0)
            raise Undefined("0 ** %s" % mpmath.nstr(b, 5))
        if a < 0 and b != int(b):
            if a > -EPS and b > 0: return mpf(0)       # rounding below zero
            raise Undefined("negative base")
        return mpmath.power(a, b)

    def op_fn(self, n):
        a = [self(x) for x in n[2:]]
        f = n[1]
        if f == "atan2":
            if a[0] == 0 and a[1] == 0: raise Undefined("atan2(0, 0)")
            return mpmath.atan2(*a)
        if f == "abs": return abs(a[0])
        if f in ("acos", "asin"):
            if abs(a[0]) > 1 + EPS: raise Undefined(f)
            return getattr(mpmath, f)(max(mpf(-1), min(mpf(1), a[0])))
        if f == "sign": return mpmath.sign(a[0])
        return getattr(mpmath, {"ln": "log"}.get(f, f))(a[0])

    def truth(self, n):
        if n[0] in ("true", "True"): return True
        if n[0] in ("false", "False"): return False
        a, b = self(n[2]), self(n[3])
        if abs(a - b) < EPS: a = b
        return {"<": a < b, "<=": a <= b, "==": a == b}[n[1]]

    def op_where(self, n): return self(n[2]) if self.truth(n[1]) else self(n[3])
    def op_iverson(self, n): return mpf(int(self.truth(n[1])))
    def op_uneval(self, n): return self(n[1])


# ---- independent algebra
def qmul(a, b):
    """Through 2x2 complex matrices (Pauli representation)."""
    def su(q): return M([[mpmath.mpc(q[0], q[1]), mpmath.mpc(q[2], q[3])], [mpmath.mpc(-q[2], q[3]), mpmath.mpc(q[0], -q[1])]])
    p = su(a) * su(b)
    return [p[0, 0].real, p[0, 0].imag, p[0, 1].real, p[0, 1].imag]


def conj(q): return [q[0], -q[1], -q[2], -q[3]]
def norm2(q): return sum(x * x for x in q)


def skew(v): return M([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])


def rot(q):
    """Rotation matrix of a unit quaternion: columns are q e_i q*."""
    cols = [qmul(qmul(q, [mpf(0)] + [mpf(int(i == j)) for j in range(3)]), conj(q))[1:] for i in range(3)]
    return M([[cols[j][i] for j in range(3)] for i in range(3)])


def expm(v):
    """Rodrigues."""
    t = mpmath.sqrt(sum(x * x for x in v))
    K = skew(v)
    I = mpmath.eye(3)
    if t == 0: return I
    return I + K * (mpmath.sin(t) / t) + K * K * ((1 - mpmath.cos(t)) / t ** 2)


def jac_left(v):
    K = skew(v)
    r, term = mpmath.eye(3), mpmath.eye(3)
    for k in range(1, 200):
        term = term * K / (k + 1)
        r = r + term
        if mpmath.mnorm(term, 1) < mpf(10) ** -58: break
    return r


def dist(a, b):
    return max(abs(a[i, j] - b[i, j]) for i in range(a.rows) for j in range(a.cols))


def unit(q):
    n = mpmath.sqrt(norm2(q))
    return [x / n for x in q]


S2 = [("sqrt", ("int", 2)), ("div", ("sqrt", ("int", 2)), ("int", 2)), ("rat", 1, 2), ("div", ("sqrt", ("int", 3)), ("int", 2))]
CONST_UNIT = [[("int", a), ("int", b), ("int", c), ("int", d)] for a, b, c, d in ((1, 0, 0, 0), (-1, 0, 0, 0), (0, 1, 0, 0), (0, -1, 0, 0), (0, 0, 1, 0), (0, 0, -1, 0), (0, 0, 0, 1), (0, 0, 0, -1))]
CONST_UNIT += [[("rat", s * 1, 2), ("rat", t, 2), ("rat", u, 2), ("rat", v, 2)] for s in (1, -1) for t in (1, -1) for u in (1, -1) for v in (1, -1)]


class Check:
    def __init__(self, ctx, tier, seed):
        from wrenfold import sym, geometry
        from pywrenfold import exceptions
        self.ctx, self.tier, self.s, self.g = ctx, tier, sym, geometry
        self.Q = geometry.Quaternion
        self.documented = (exceptions.ArithmeticError,)
        gen.sym()
        self.cache = {}

    def total(self): return 1300 if self.tier == "quick" else 24000

    def fail(self, key, msg): raise Violation(key, msg)

    MODES = ["algebra", "algebra", "fromvec", "fromangle", "tovec", "toaxis", "frommat", "frommat", "so3", "tangent", "roundtrip"]

    def run(self, i, rng):
        self.go(rng.getrandbits(60), self.MODES[i % len(self.MODES)])

    def replay(self, inp):
        self.go(*eval(inp, {}))

    def go(self, seed, mode):
        self.ctx.describe(repr((seed, mode)))
        rng = random.Random(seed)
        for k in range(4):
            try:
                getattr(self, "m_" + mode)(rng)
            except self.documented:
                self.ctx.event("reported overflows")

    # ---- inputs: lists of (recipe, value)
    def build(self, recipes): return [gen.Builder(0)(r) for r in recipes]

    def value(self, e, env):
        return RealEval(env)(tree.of(e))

    def vals(self, es, env): return [self.value(e, env) for e in es]

    def tiny(self, rng): return mpf(rng.choice([1, 3, -2, -7])) * mpf(10) ** -rng.choice([3, 6, 9, 15, 20])

    def rvec(self, rng):
        """A rotation vector: value only."""
        q = rng.random()
        d = [mpf(rng.uniform(-1, 1)) for _ in range(3)]
        if q < 0.25: d = [mpf(rng.choice([0, 0, 1, -1])) for _ in range(3)]
        if all(x == 0 for x in d): d[rng.randrange(3)] = mpf(rng.choice([1, -1]))
        n = mpmath.sqrt(sum(x * x for x in d))
        k = rng.random()
        if k < 0.2:
            t = abs(self.tiny(rng))
            self.ctx.event("near zero")
        elif k < 0.4:
            t = mpmath.pi + (0 if rng.random() < 0.4 else self.tiny(rng))
            self.ctx.event("half turns")
        elif k < 0.5: t = mpf(rng.uniform(3.2, 6.2))
        elif k < 0.55: t = mpf(rng.uniform(6.3, 15))
        else: t = mpf(rng.uniform(0.01, 3.1))
        return [x / n * t for x in d]

    def uquat(self, rng):
        q = rng.random()
        if q < 0.15:
            r = [mpf(rng.choice([0, 0, 1, -1])) for _ in range(4)]
            if all(x == 0 for x in r): r[0] = mpf(-1)
            return unit(r)
        if q < 0.3:       # half turn and next to it
            r = [mpf(0) if rng.random() < 0.5 else self.tiny(rng)] + [mpf(rng.uniform(-1, 1)) for _ in range(3)]
            if rng.random() < 0.4: r[rng.randrange(1, 4)] = mpf(0)
            self.ctx.event("half turns")
            return unit(r)
        if q < 0.45:
            r = [mpf(rng.choice([1, -1]))] + [self.tiny(rng) if rng.random() < 0.7 else mpf(0) for _ in range(3)]
            self.ctx.event("near zero")
            return unit(r)
        if q < 0.55:
            r = [mpf(rng.randint(-3, 3)) for _ in range(4)]
            if all(x == 0 for x in r): r[0] = mpf(-1)
            return unit(r)
        return unit([mpf(rng.gauss(0, 1)) for _ in range(4)])

    def symbols(self, names, rng, values=None):
        """Expressions for values: symbols, with some exact constants among them."""
        out, env = [], {}
        kind = rng.choice(["unknown", "unknown", "real"])
        fixed = rng.random() < 0.4
        for i, n in enumerate(names):
            v = values[i]
            if fixed and rng.random() < 0.5 and v == int(v) and abs(v) < 100: out.append(("int", int(v)))
            elif fixed and rng.random() < 0.3 and v * 4 == int(v * 4): out.append(("rat", int(v * 4), 4))
            else:
                out.append(("sym", ("r" if kind == "real" else "") + n))
                env[("r" if kind == "real" else "") + n] = v
        return self.build(out), env, tuple(out)

    def cached(self, key, make):
        r = self.cache.get(key)
        if r is None:
            r = make()
            r = self.cache[key] = [tree.of(e) for e in r]
            if len(self.cache) > 300: self.cache.clear()
        return r

    def evalall(self, trees, env, what):
        ev = RealEval(env)
        try:
            return [ev(t) for t in trees]
        except Undefined as e:
            self.fail("undefined: " + what.split(" at ")[0], "%s is undefined (%s)" % (what, e))

    def show(self, env): return {k: mpmath.nstr(v, 12) for k, v in env.items()}

    def close(self, name, got, want, what, tol=None):
        tol = mpf(10) ** -30 if tol is None else tol
        if len(got) != len(want): self.fail(name, "%s has %d components, not %d" % (what, len(got), len(want)))
        sc = max([mpf(1)] + [abs(w) for w in want])
        for i, (g, w) in enumerate(zip(got, want)):
            if not abs(g - w) <= tol * sc: self.fail(name, "component %d of %s is %s; expected %s" % (i, what, mpmath.nstr(g, 20), mpmath.nstr(w, 20)))
        self.ctx.distinct(what)

    def flat(self, m): return [m[i, j] for i in range(m.shape[0]) for j in range(m.shape[1])]
    def fm(self, m): return [m[i, j] for i in range(m.rows) for j in range(m.cols)]

    def same_rotation(self, name, q, R, what, tol=None):
        if abs(norm2(q) - 1) > (tol or mpf(10) ** -30): self.fail(name + " norm", "%s is not a unit quaternion: %s" % (what, [mpmath.nstr(x, 10) for x in q]))
        d = dist(rot(q), R)
        if d > (tol or mpf(10) ** -30): self.fail(name, "%s is %s: its rotation differs from the intended one by %s" % (what, [mpmath.nstr(x, 12) for x in q], mpmath.nstr(d, 5)))
        self.ctx.distinct(what)

    # ---- algebra
    def m_algebra(self, rng):
        Q, s = self.Q, self.s
        kind = rng.choice(["sym", "sym", "const", "mixed"])
        env = {n: mpf(round(rng.uniform(-2, 2), 3)) for n in ("x", "y", "w", "ra", "rb", "pa")}
        env["pa"] = abs(env["pa"]) + mpf("0.1")

        def elem():
            q = rng.random()
            if kind == "sym" or kind == "mixed" and q < 0.4:
                return rng.choice([("sym", rng.choice(list(env))), ("add", ("sym", rng.choice(list(env))), ("int", rng.randint(-2, 2))), ("mul", ("sym", rng.choice(list(env))), ("sym", rng.choice(list(env)))), ("fn", "sin", ("sym", rng.choice(list(env))))])
            return rng.choice([("int", rng.randint(-3, 3)), ("rat", rng.randint(-3, 3), rng.choice([2, 3, 5])), ("int", 0), ("flt", rng.choice([0.5, -1.25, 2.0]))] + S2)
        ev = RealEval(env)

        def leaf():
            r = [elem() for _ in range(4)]
            v = [ev(t) for t in r]
            self.flt = self.flt or "'flt'" in repr(r)
            e = self.build(r)
            q = rng.randrange(6)
            if q == 0: return Q.from_wxyz(s.vector(*e)), v
            if q == 1: return Q.from_xyzw(s.vector(*e[1:], e[0])), v
            if q == 2: return Q.from_wxyz(list(e)), v
            if q == 3: return Q.from_xyzw(e[1:] + e[:1]), v
            return Q(*e), v
        desc = []
        self.flt = False
        q, v = leaf()
        for _ in range(rng.choice([1, 2, 3])):
            op = rng.choice(["mul", "mul", "rmul", "conj", "inv", "norm", "square"])
            desc.append(op)
            if op in ("mul", "rmul"):
                p, w = leaf()
                q, v = (q * p, qmul(v, w)) if op == "mul" else (p * q, qmul(w, v))
            elif op == "conj": q, v = q.conjugate(), conj(v)
            elif op == "square": q, v = q * q, qmul(v, v)
            else:
                n2 = norm2(v)
                if n2 < mpf("0.01"): return
                if op == "inv": q, v = q.inverse(), [x / n2 for x in conj(v)]
                else: q, v = q.normalized(), unit(v)
            if sum(len(str(e)) for e in q.to_list()) > 20000: return
        what = "%s of %s components at %s" % ("/".join(desc), kind, self.show(env))
        # floats are rounded by every operation: cancellation among up to degree-16 terms is allowed for
        tol = mpf(10) ** -8 if self.flt else None
        try:
            got = [ev(tree.of(e)) for e in q.to_list()]
        except Undefined as e:
            self.fail("algebra undefined", "%s is undefined (%s): %s" % (what, e, q))
        self.close("algebra: " + desc[-1], got, v, what + ": " + str(q)[:500], tol)
        self.close("wxyz", [ev(tree.of(q.to_vector_wxyz()[i])) for i in range(4)], v, what, tol)
        self.close("xyzw", [ev(tree.of(q.to_vector_xyzw()[i])) for i in range(4)], v[1:] + v[:1], what, tol)
        self.close("members", [ev(tree.of(e)) for e in (q.w, q.x, q.y, q.z)], v, what, tol)
        self.close("norms", [ev(tree.of(q.squared_norm())), ev(tree.of(q.norm()))], [norm2(v), mpmath.sqrt(norm2(v))], what, tol)
        # the conversion formula presumes a unit quaternion; on others it is 1 - (|q|^2 - ...): only units are decided
        if norm2(v) > mpf("0.01"):
            u, uv = q.normalized(), unit(v)
            R = u.to_rotation_matrix()
            if R.shape != (3, 3): self.fail("shape", "rotation matrix of shape %s" % (R.shape,))
            self.close("to_rotation_matrix", [ev(tree.of(e)) for e in self.flat(R)], self.fm(rot(uv)), "rotation matrix of " + what, tol)
            c = [mpf(rng.randint(-3, 3)) for _ in range(3)]
            r = q.rotate(s.vector(*[int(x) for x in c]))
            self.close("rotate", [ev(tree.of(r[i])) for i in range(3)], qmul(qmul(v, [mpf(0)] + c), conj(v))[1:], "rotate(%s) by %s" % (c, what), tol)
            i = q * q.inverse()
            self.close("inverse", [ev(tree.of(e)) for e in i.to_list()], [1, 0, 0, 0], "q * q.inverse() of " + what, tol)
        if kind == "const":
            try:
                f = [float(x) for x in q.eval()]
            except Exception as ex:
                if not type(ex).__module__.startswith("pywrenfold") and not isinstance(ex, TypeError): raise
                f = None
            if f is not None:
                self.close("eval", [mpf(x) for x in f], v, "eval() of " + what, mpf(10) ** -8)
                self.ctx.event("evaluated")
        if rng.random() < 0.1:
            i, p = Q(), Q.with_name("p")
            if [str(e) for e in i.to_list()] != ["1", "0", "0", "0"]: self.fail("identity", "Quaternion() is %s" % i)
            if [str(e) for e in p.to_list()] != ["p_w", "p_x", "p_y", "p_z"]: self.fail("from_name", "with_name('p') is %s" % p)
            z = s.symbols("x")
            t = Q(z, z * 2, 3, z * z).subs(z, 5)
            if [str(e) for e in t.to_list()] != ["5", "10", "3", "25"]: self.fail("subs", "substitution gives %s" % t)
        self.ctx.event("algebra")

    # ---- exponential map
    def epsilon(self, rng): return rng.choice([None, 0, 0, ("rat", 1, 10 ** 6), 1e-8, ("rat", 1, 100)])

    def eps_expr(self, e): return e if e is None or not isinstance(e, tuple) else self.s.rational(e[1], e[2])

    def eps_val(self, e): return None if e is None else mpf(e[1]) / e[2] if isinstance(e, tuple) else mpf(e)

    def m_fromvec(self, rng):
        v = self.rvec(rng)
        eps = self.epsilon(rng)
        if eps == 0 and rng.random() < 0.2: v = [mpf(0)] * 3
        es, env, key = self.symbols(["x", "y", "w"], rng, v)
        t = mpmath.sqrt(sum(x * x for x in v))
        if eps is None and t == 0: return
        form = rng.randrange(2)
        f = (lambda: self.Q.from_rotation_vector(*es, epsilon=self.eps_expr(eps)).to_list()) if form else (lambda: self.Q.from_rotation_vector(self.s.vector(*es), epsilon=self.eps_expr(eps)).to_list())
        tr = self.cached(("fromvec", key, eps, form), f)
        what = "from_rotation_vector(%s, epsilon=%r) at %s" % (key, eps, self.show(env))
        got = self.evalall(tr, env, what)
        small = eps is not None and t <= self.eps_val(eps) and t > 0
        self.same_rotation("from_rotation_vector", got, expm(v), what, t ** 3 + mpf(10) ** -30 if small else None)
        if not small:
            self.close("from_rotation_vector components", got, [mpmath.cos(t / 2)] + [x / t * mpmath.sin(t / 2) if t else mpf(0) for x in v], what)
        else: self.close("from_rotation_vector sign", got, [1] + [x / 2 for x in v], what, t * t + mpf(10) ** -30)
        self.ctx.event("from rotation vector")

    def m_fromangle(self, rng):
        a = mpf(rng.choice([0, 1, -2, rng.uniform(-7, 7)]))
        which = rng.randrange(5)
        if rng.random() < 0.4:
            p, q = rng.randint(-6, 6), rng.choice([1, 2, 3, 4, 6])
            ar = ("mul", ("pi",), ("rat", p, q))
            av = mpmath.pi * p / q
            env = {}
        else:
            ar, av = ("sym", "x"), a
            env = {"x": a}
        ae = self.build([ar])[0]
        if which < 3:
            qn = [self.Q.from_x_angle, self.Q.from_y_angle, self.Q.from_z_angle][which](ae)
            ax = [mpf(int(i == which)) for i in range(3)]
        else:
            ax = [mpf(rng.uniform(-1, 1)) for _ in range(3)] if rng.random() < 0.6 else [mpf(rng.choice([0, 0, 1, -1])) for _ in range(3)]
            if all(x == 0 for x in ax): ax[1] = mpf(1)
            n = mpmath.sqrt(sum(x * x for x in ax))
            ax = [x / n for x in ax]
            es, env2, key = self.symbols(["y", "w", "z"], rng, ax)
            env.update(env2)
            qn = self.Q.from_angle_axis(ae, *es) if which == 3 else self.Q.from_angle_axis(ae, self.s.vector(*es))
        what = "quaternion of angle %s about %s (form %d)" % (mpmath.nstr(av, 12), [mpmath.nstr(x, 8) for x in ax], which)
        got = self.evalall([tree.of(e) for e in qn.to_list()], env, what)
        self.same_rotation("from_angle", got, expm([x * av for x in ax]), what)
        self.close("from_angle components", got, [mpmath.cos(av / 2)] + [x * mpmath.sin(av / 2) for x in ax], what)
        self.ctx.event("from angle axis")

    # ---- logarithm
    def quat_inputs(self, rng):
        """A unit quaternion as expressions."""
        if rng.random() < 0.25:
            r = rng.choice(CONST_UNIT)
            if rng.random() < 0.3:
                c = mpf(0)
                a, b, c, d = rng.choice([(1, 2, 2, 4), (2, 4, 5, 6), (1, 1, 7, 7), (4, 4, 7, 0), (0, 3, 4, 0), (3, 0, 0, 4), (1, 1, 1, 1), (2, 3, 6, 0)])
                n = math.isqrt(a * a + b * b + c * c + d * d)
                if n * n == a * a + b * b + c * c + d * d:
                    r = [("rat", rng.choice([1, -1]) * int(x), n) for x in rng.sample([a, b, c, d], 4)]
            e = self.build(r)
            return e, {}, tuple(r), [RealEval({})(t) for t in r]
        v = self.uquat(rng)
        es, env, key = self.symbols(["w", "x", "y", "z"], rng, v)
        return es, env, key, v

    def m_tovec(self, rng):
        es, env, key, q = self.quat_inputs(rng)
        eps = self.epsilon(rng)
        at = rng.random() < 0.6
        n = mpmath.sqrt(norm2(q[1:]))
        if n == 0 and eps is None: return
        try:
            tr = self.cached(("tovec", key, eps, at), lambda: self.flat(self.Q(*es).to_rotation_vector(epsilon=self.eps_expr(eps), use_atan2=at)))
        except Exception as ex:
            self.fail("to_rotation_vector raised", "to_rotation_vector(epsilon=%r, use_atan2=%s) of %s raised %s: %s" % (eps, at, key, type(ex).__name__, ex))
        what = "to_rotation_vector(epsilon=%r, use_atan2=%s) of %s at %s" % (eps, at, key, self.show(env))
        if not at and eps is None and 1 - abs(q[0]) < mpf(10) ** -25: return
        # the square root of 1 - w^2 has lost half of the digits near zero
        noisy = not at and n < mpf(10) ** -18
        if noisy and eps in (None, 0): return
        got = self.evalall(tr, env, what)
        t = mpmath.sqrt(sum(x * x for x in got))
        if t > mpmath.pi + mpf(10) ** -25: self.fail("to_rotation_vector range", "%s is %s, longer than pi" % (what, [mpmath.nstr(x, 10) for x in got]))
        small = eps is not None and n <= self.eps_val(eps) + mpf(10) ** -17
        d = dist(expm(got), rot(q))
        tol = (n ** 3 if small else 0) + (mpf(10) ** -28 if at or n > mpf("0.001") else mpf(10) ** -22)
        if d > tol: self.fail("to_rotation_vector: atan2 %s" % at, "%s is %s: its rotation differs by %s" % (what, [mpmath.nstr(x, 12) for x in got], mpmath.nstr(d, 5)))
        self.ctx.distinct(what)
        self.ctx.event("to rotation vector")

    def m_toaxis(self, rng):
        es, env, key, q = self.quat_inputs(rng)
        eps = self.epsilon(rng)
        n = mpmath.sqrt(norm2(q[1:]))
        if n == 0 and eps is None: return
        tr = self.cached(("toaxis", key, eps), lambda: (lambda r: [r[0]] + self.flat(r[1]))(self.Q(*es).to_angle_axis(epsilon=self.eps_expr(eps))))
        what = "to_angle_axis(epsilon=%r) of %s at %s" % (eps, key, self.show(env))
        got = self.evalall(tr, env, what)
        a, ax = got[0], got[1:]
        if a < 0 or a > mpmath.pi + mpf(10) ** -30: self.fail("to_angle_axis range", "%s: angle %s" % (what, mpmath.nstr(a, 15)))
        if abs(sum(x * x for x in ax) - 1) > mpf(10) ** -30: self.fail("to_angle_axis axis", "%s: axis %s is not a unit vector" % (what, [mpmath.nstr(x, 12) for x in ax]))
        small = eps is not None and n <= self.eps_val(eps)
        d = dist(expm([x * a for x in ax]), rot(q))
        if d > (3 * n if small else 0) + mpf(10) ** -28: self.fail("to_angle_axis", "%s is %s: its rotation differs by %s" % (what, [mpmath.nstr(x, 12) for x in got], mpmath.nstr(d, 5)))
        self.ctx.distinct(what)
        self.ctx.event("to angle axis")

    # ---- rotation matrices
    def m_frommat(self, rng):
        if rng.random() < 0.35:       # exact constants: signed permutations and rational rotations
            for _ in range(30):
                q = [rng.choice([0, 0, 1, -1, 2, 3, -2]) for _ in range(4)]
                if any(q): break
            n = sum(x * x for x in q)
            w, x, y, z = [Fr(v) for v in q]
            R = [[1 - 2 * (y * y + z * z) / n, 2 * (x * y - w * z) / n, 2 * (x * z + w * y) / n],
                 [2 * (x * y + w * z) / n, 1 - 2 * (x * x + z * z) / n, 2 * (y * z - w * x) / n],
                 [2 * (x * z - w * y) / n, 2 * (y * z + w * x) / n, 1 - 2 * (x * x + y * y) / n]]
            key = tuple(("rat", e.numerator, e.denominator) if e.denominator != 1 else ("int", e.numerator) for r in R for e in r)
            env = {}
            vals = [mpf(e.numerator) / e.denominator for r in R for e in r]
            es = self.build(key)
        else:
            q = self.uquat(rng)
            R = rot(q)
            vals = [R[i, j] for i in range(3) for j in range(3)]
            if rng.random() < 0.25:       # a tie on the diagonal or a vanishing trace
                a = mpf(rng.choice([1, -1]))
                k = rng.randrange(3)
                q = unit([[mpf(0), mpf(1), a, mpf(0)], [mpf(1), a, a, a], [mpf("0.5"), a, mpf(1), mpf("0.5")]][k])
                R = rot(q)
                vals = [R[i, j] for i in range(3) for j in range(3)]
            es, env, key = self.symbols(["m%d" % i for i in range(9)], rng, vals)
        tr = self.cached(("frommat", key), lambda: self.Q.from_rotation_matrix(self.s.matrix([es[0:3], es[3:6], es[6:9]])).to_list())
        Rm = M(3, 3)
        for i in range(9): Rm[i // 3, i % 3] = vals[i]
        what = "from_rotation_matrix(%s)" % [mpmath.nstr(v, 8) for v in vals]
        got = self.evalall(tr, env, what)
        self.same_rotation("from_rotation_matrix", got, Rm, what, mpf(10) ** -25)
        self.ctx.event("from rotation matrix")
        if env:
            # and in double precision: the branch that is taken must be a well conditioned one
            if rng.random() < 0.7:
                k, t = rng.randrange(1, 4), 10.0 ** rng.uniform(-9, -1)
                q = [mpf(0) if rng.random() < 0.4 else mpf(t * rng.uniform(-1, 1)) for _ in range(4)]
                q[k] = mpf(rng.choice([-1, 1]))
                q = unit(q)
                R = rot(q)
            with mpmath.workprec(53):
                env2 = {a: +R[int(a[-1]) // 3, int(a[-1]) % 3] for a in ["rm%d" % i if any(x.startswith("r") for x in env) else "m%d" % i for i in range(9)]}
                if set(env2) - set(env): return          # some entries are constants
                q2 = self.evalall(tr, env2, "from_rotation_matrix in double precision")
            Rm = M(3, 3)
            for n, v in env2.items(): Rm[int(n[-1]) // 3, int(n[-1]) % 3] = v
            self.same_rotation("from_rotation_matrix in double precision", q2, Rm, "from_rotation_matrix(%s) in double precision" % [mpmath.nstr(v, 17) for v in Rm], mpf(10) ** -8)
            self.ctx.event("rotation matrices converted in double precision")

    # ---- jacobians
    def m_so3(self, rng):
        v = self.rvec(rng)
        eps = self.epsilon(rng)
        t = mpmath.sqrt(sum(x * x for x in v))
        if t > 12: return
        if eps == 0 and rng.random() < 0.2: v, t = [mpf(0)] * 3, mpf(0)
        if eps is None and t == 0: return
        es, env, key = self.symbols(["x", "y", "w"], rng, v)
        J = jac_left(v)
        small = eps is not None and t <= self.eps_val(eps) and t > 0
        loss = mpf(10) ** -28 + (t ** 3 if small else 0) + (0 if small or t > mpf("0.001") or t == 0 else mpf(10) ** -50 / t ** 2)
        vec = self.s.vector(*es)
        what = "left_jacobian_of_so3(%s, epsilon=%r) at %s" % (key, eps, self.show(env))
        tr = self.cached(("jl", key, eps), lambda: self.flat(self.g.left_jacobian_of_so3(vec, epsilon=self.eps_expr(eps))))
        self.close("left_jacobian_of_so3", self.evalall(tr, env, what), self.fm(J), what, loss)
        if abs(t - 2 * mpmath.pi) > mpf("0.05") and abs(t - 4 * mpmath.pi) > mpf("0.05"):
            if abs(mpmath.sin(t)) < mpf(10) ** -30 and t > 1:       # the formula is 0/0 at exact half turns
                return
            if abs(t - mpmath.pi) < mpf(10) ** -18 : return
            what = "inverse_" + what
            tr = self.cached(("jli", key, eps), lambda: self.flat(self.g.inverse_left_jacobian_of_so3(vec, epsilon=self.eps_expr(eps))))
            self.close("inverse_left_jacobian_of_so3", self.evalall(tr, env, what), self.fm(J ** -1), what, loss + mpf(10) ** -20)
        self.ctx.event("so3 jacobians")

    def m_tangent(self, rng):
        es, env, key, q = self.quat_inputs(rng)
        qe = self.Q(*es)
        what = "right_retract_derivative of %s at %s" % (key, self.show(env))
        try:
            D = qe.right_retract_derivative()
            L = qe.right_local_coordinates_derivative()
        except Exception as ex:
            self.fail("tangent raised", "%s raised %s: %s" % (what, type(ex).__name__, ex))
        if D.shape != (4, 3) or L.shape != (3, 4): self.fail("tangent shape", "shapes %s and %s" % (D.shape, L.shape))
        e = [[mpf(int(i == j)) for j in range(4)] for i in range(4)]
        cols = [[x / 2 for x in qmul(q, e[j + 1])] for j in range(3)]
        self.close("right_retract_derivative", self.evalall([tree.of(x) for x in self.flat(D)], env, what), [cols[j][i] for i in range(4) for j in range(3)], what)
        what = what.replace("right_retract_derivative", "right_local_coordinates_derivative")
        cols = [[2 * x for x in qmul(conj(q), e[j])[1:]] for j in range(4)]
        self.close("right_local_coordinates_derivative", self.evalall([tree.of(x) for x in self.flat(L)], env, what), [cols[j][i] for i in range(3) for j in range(4)], what)
        self.ctx.event("tangent derivatives")

    def m_roundtrip(self, rng):
        """Chains of conversions, built symbolically end to end."""
        es, env, key, q = self.quat_inputs(rng)
        if not env and rng.random() < 0.5: return
        Q = self.Q
        n = mpmath.sqrt(norm2(q[1:]))
        if n < mpf(10) ** -12: return
        k = rng.randrange(4)
        if k == 0: f = lambda: Q.from_rotation_vector(Q(*es).to_rotation_vector(epsilon=0), epsilon=0).to_list()
        elif k == 1: f = lambda: Q.from_rotation_matrix(Q(*es).to_rotation_matrix()).to_list()
        elif k == 2: f = lambda: (lambda r: Q.from_angle_axis(r[0], r[1]).to_list())(Q(*es).to_angle_axis(epsilon=0))
        else: f = lambda: (Q(*es) * Q.from_rotation_vector(Q(*es).conjugate().to_rotation_vector(epsilon=0), epsilon=0)).to_list()
        what = "round trip %d of %s at %s" % (k, key, self.show(env))
        tr = self.cached(("round", k, key), f)
        got = self.evalall(tr, env, what)
        self.same_rotation("round trip %d" % k, got, rot(q) if k != 3 else mpmath.eye(3), what, mpf(10) ** -20)
        self.ctx.event("round trips")
