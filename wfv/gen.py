"""Recipes (nodes of wfv.ref), their construction through the public API, random generators and points."""
import random
from mpmath import mpf, mpc
from . import ref

SETS = {"r": "real", "p": "positive", "n": "nonnegative", "z": "complex"}  # by first letter; else unknown


def symbol_set(name):
    return SETS.get(name[0], "unknown")


_syms = {}
S = None


def sym():
    global S
    if S is None:
        from wrenfold import sym as s
        S = s
    return S


def symbol(name):
    e = _syms.get(name)
    if e is None:
        s = sym()
        k = symbol_set(name)
        e = s.symbols(name, **({} if k == "unknown" else {k: True}))
        _syms[name] = e
    return e


class Builder:
    """Builds a recipe through wrenfold's public API. `uniq` maps index -> unique symbol."""

    def __init__(self, style=0):
        self.s = sym()
        self.memo = {}
        self.style = style       # which of several equivalent API calls are used
        self.events = 0

    def __call__(self, n):
        hit = self.memo.get(id(n))
        if hit is not None and hit[0] is n:
            return hit[1]
        r = getattr(self, "b_" + n[0])(n)
        self.events += 1
        self.memo[id(n)] = (n, r)
        return r

    def b_int(self, n): return self.s.integer(n[1])
    def b_rat(self, n): return self.s.rational(n[1], n[2])
    def b_flt(self, n): return self.s.float_constant(n[1])
    def b_sym(self, n): return symbol(n[1])
    def b_pi(self, n): return self.s.pi
    def b_e(self, n): return self.s.E
    def b_i(self, n): return self.s.I
    def b_zoo(self, n): return self.s.zoo
    def b_nan(self, n): return self.s.nan
    def b_true(self, n): return self.s.true
    def b_false(self, n): return self.s.false

    def b_add(self, n):
        a = [self(x) for x in n[1:]]
        if len(a) == 2 and self.style % 2 == 0:
            return a[0] + a[1]
        return self.s.addition(a)

    def b_mul(self, n):
        a = [self(x) for x in n[1:]]
        if len(a) == 2 and self.style % 2 == 0:
            return a[0] * a[1]
        return self.s.multiplication(a)

    def lit(self, n):
        """A python number for a literal (used to reach the int/float operator overloads)."""
        if n[0] in ("int", "flt") and self.style & 2:
            return n[1]
        return None

    def b_sub(self, n):
        l = self.lit(n[1])
        if l is not None:
            return l - self(n[2])
        l = self.lit(n[2])
        return self(n[1]) - (self(n[2]) if l is None else l)

    def b_div(self, n):
        l = self.lit(n[1])
        if l is not None:
            return l / self(n[2])
        l = self.lit(n[2])
        return self(n[1]) / (self(n[2]) if l is None else l)

    def b_neg(self, n): return -self(n[1])

    def b_pow(self, n):
        l = self.lit(n[2])
        if l is not None:
            return self(n[1]) ** l
        l = self.lit(n[1])
        if l is not None:
            return l ** self(n[2])
        a, b = self(n[1]), self(n[2])
        return a ** b if self.style % 2 == 0 else self.s.pow(a, b)

    def b_sqrt(self, n): return self.s.sqrt(self(n[1]))

    def b_fn(self, n):
        if n[1] == "ln":
            return self.s.log(self(n[2]))
        return getattr(self.s, n[1])(*[self(a) for a in n[2:]])

    def b_max(self, n): return self.s.max(self(n[1]), self(n[2]))
    def b_min(self, n): return self.s.min(self(n[1]), self(n[2]))
    def b_where(self, n): return self.s.where(self(n[1]), self(n[2]), self(n[3]))
    def b_iverson(self, n): return self.s.iverson(self(n[1]))

    def b_rel(self, n):
        a, b = self(n[2]), self(n[3])
        s = self.s
        if self.style % 2:
            return {"<": s.lt, "<=": s.le, "==": s.eq, ">": s.gt, ">=": s.ge}[n[1]](a, b)
        if n[1] == "<": return a < b
        if n[1] == "<=": return a <= b
        if n[1] == ">": return a > b
        if n[1] == ">=": return a >= b
        return s.eq(a, b)

    def b_uneval(self, n): return self.s.unevaluated(self(n[1]))
    def b_stopd(self, n): return self.s.stop_derivative(self(n[1]))
    def b_symfn(self, n): return self.s.Function(n[1])(*[self(a) for a in n[2:]])
    def b_deriv(self, n): return self.s.derivative(self(n[2]), self(n[3]), n[1])
    def b_subst(self, n): return self.s.substitution(self(n[1]), self(n[2]), self(n[3]))


# ---------------------------------------------------------------- random recipes

SMALL = [0, 1, -1, 2, -2, 3, -3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 27, -4, -8, 100]
FLOATS = [0.5, -0.5, 2.0, 1.0, -1.0, 0.0, 0.1, 1.5, -2.5, 3.25, 1e-3, 1e3, 0.75, 7.0]
REAL_SYMS = ["ra", "rb", "rc", "pa", "pb", "na"]
CPLX_SYMS = ["x", "y", "w", "za"]


class Gen:
    def __init__(self, rng, real=False, floats=0.08, calculus=False, symfn=0.0, maxlit=None, cond=0.06, complexi=0.06,
                 syms=None, funcs=None, uneval=0.02, stopd=0.01):
        self.rng = rng
        self.real = real
        self.floats = floats
        self.cond = cond
        self.complexi = 0 if real else complexi
        self.symfn = symfn
        self.pool = []
        self.syms = syms
        self.funcs = funcs
        self.uneval = uneval
        self.stopd = stopd
        if syms is None:
            k = rng.randint(1, 3)
            self.syms = rng.sample(REAL_SYMS if real else (REAL_SYMS + CPLX_SYMS), k)
        self.rsyms = [s for s in self.syms if symbol_set(s) in ("real", "positive", "nonnegative")] or ["ra"]

    def number(self):
        r = self.rng
        k = r.random()
        if k < self.floats:
            return ("flt", r.choice(FLOATS) if r.random() < 0.8 else round(r.uniform(-9, 9), 3))
        if k < 0.65:
            return ("int", r.choice(SMALL) if r.random() < 0.9 else r.randint(-1000, 1000))
        if k < 0.95:
            d = r.choice([2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12])
            n = r.randint(-12, 12)
            return ("rat", n, d)
        return ("int", r.randint(-10 ** 6, 10 ** 6))

    def const(self):
        r = self.rng
        k = r.random()
        if k < 0.5: return ("pi",)
        if k < 0.75 or self.real: return ("e",)
        return ("i",)

    def leaf(self, real):
        r = self.rng
        k = r.random()
        if self.pool and k < 0.22:
            c = r.choice(self.pool)
            if not real or c[1]:
                return c[0]
        if k < 0.62:
            return ("sym", r.choice(self.rsyms if real else self.syms))
        if k < 0.92:
            return self.number()
        if not real and r.random() < self.complexi * 4:
            return ("i",)
        return self.const() if not real else r.choice([("pi",), ("e",)])

    def cond_node(self, d):
        r = self.rng
        return ("rel", r.choice(["<", "<=", "==", ">", ">="]), self.node(d - 1, True), self.node(d - 1, True))

    def node(self, d, real=None):
        real = self.real if real is None else real
        n = self._node(d, real)
        if d > 0:
            self.pool.append((n, real))
        return n

    def expo(self, d, real):
        r = self.rng
        k = r.random()
        if k < 0.35: return ("int", r.choice([2, 2, 3, -1, -1, -2, 4, 0, 1, -3, 5]))
        if k < 0.7: return ("rat", r.choice([1, 1, -1, 3, 2, -3, 5, -2, 7]), r.choice([2, 2, 2, 3, 4, 5, 6]))
        if k < 0.76 and self.floats: return ("flt", r.choice([0.5, 2.0, -1.0, 1.5, 0.0, 0.25, 3.0]))
        return self.node(d - 1, real)

    def _node(self, d, real):
        r = self.rng
        if d <= 0 or r.random() < 0.06:
            return self.leaf(real)
        k = r.random()
        c = lambda: self.node(d - 1, real)
        if k < 0.17:
            return ("add", c(), c()) if r.random() < 0.7 else ("add",) + tuple(c() for _ in range(r.randint(2, 4)))
        if k < 0.34:
            return ("mul", c(), c()) if r.random() < 0.7 else ("mul",) + tuple(c() for _ in range(r.randint(2, 4)))
        if k < 0.42: return ("sub", c(), c())
        if k < 0.50: return ("div", c(), c())
        if k < 0.53: return ("neg", c())
        if k < 0.67: 
            if real:
                b = ("sym", r.choice(self.rsyms)) if r.random() < 0.3 else c()
                k2 = r.random()
                if k2 < 0.6:
                    return ("pow", b, ("int", r.choice([2, 3, -1, -2, 4, 0])))
                return ("pow", ("fn", "abs", b), self.expo(d, True))
            return ("pow", c(), self.expo(d, real))
        if k < 0.71:
            return ("sqrt", c()) if not real else ("sqrt", ("fn", "abs", c()))
        if k < 0.71 + self.cond:
            j = r.random()
            if j < 0.25: return ("max", self.node(d - 1, True), self.node(d - 1, True))
            if j < 0.5: return ("min", self.node(d - 1, True), self.node(d - 1, True))
            if j < 0.85: return ("where", self.cond_node(d), c(), c())
            return ("iverson", self.cond_node(d))
        if k < 0.71 + self.cond + self.uneval:
            return ("uneval", c())
        if k < 0.71 + self.cond + self.uneval + self.stopd:
            return ("stopd", c())
        if r.random() < self.symfn:
            return ("symfn", r.choice(["f", "g", "h"]),) + tuple(c() for _ in range(r.randint(1, 2)))
        f = r.choice(self.funcs or ref.FUNCS)
        if f == "atan2":
            return ("fn", f, self.node(d - 1, True), self.node(d - 1, True))
        if f in ("sign", "floor"):
            return ("fn", f, self.node(d - 1, True))
        a = c()
        if real and f == "log":
            a = ("fn", "abs", a)
        return ("fn", f, a)


SPECIAL = [mpf(0), mpf(1), mpf(-1), mpf(2), mpf(-2), mpf("0.5"), mpf("-0.5"), mpf(3)]


def point(names, rng, wide=False):
    env = {}
    style = rng.random() if not wide else 1
    for n in sorted(names):
        k = symbol_set(n)
        if style < 0.22:
            v = rng.choice(SPECIAL)
        else:
            m = rng.choice([1, 1, 1, 3, 10, 0.1])
            v = mpf(repr(round(rng.uniform(-1, 1) * m, 6))) + mpf(rng.randint(1, 999)) / 10 ** 9
        if k in ("positive", "nonnegative"):
            v = abs(v)
            if v == 0 and k == "positive":
                v = mpf(1)
        elif k in ("unknown", "complex"):
            q = rng.random() if not wide else 0
            if q < 0.5 and style >= 0.1:
                v = mpc(v, mpf(repr(round(rng.uniform(-1, 1) * (rng.choice([2, 2, 6]) if not wide else 7), 6))) + mpf(1) / 10 ** 7)
            elif q < 0.6:
                v = mpc(0, v if v != 0 else mpf(1))
        env[n] = v
    return env


def real_point(names, rng, generic=False):
    env = {}
    style = rng.random() if not generic else 1
    for n in sorted(names):
        if style < 0.2:
            v = rng.choice(SPECIAL)
        else:
            m = rng.choice([1, 1, 1, 3, 10, 0.1])
            v = mpf(repr(round(rng.uniform(-1, 1) * m, 6))) + mpf(rng.randint(1, 999)) / 10 ** 9
        k = symbol_set(n)
        if k in ("positive", "nonnegative"):
            v = abs(v)
            if v == 0 and k == "positive":
                v = mpf(1)
        env[n] = v
    return env


# ---------------------------------------------------------------- shrinking

def is_node(c):
    return isinstance(c, tuple) and c and isinstance(c[0], str)


def shrink(n, fails, budget=400):
    """Greedy shrinking: replace sub-nodes by their children or by small leaves while `fails` stays true."""
    def paths(t, p=()):
        yield p, t
        for i, c in enumerate(t[1:], 1):
            if is_node(c):
                yield from paths(c, p + (i,))

    def put(t, p, v):
        if not p:
            return v
        i = p[0]
        return t[:i] + (put(t[i], p[1:], v),) + t[i + 1:]

    changed = True
    while changed and budget > 0:
        changed = False
        for p, t in list(paths(n)):
            cands = [c for c in t[1:] if is_node(c)]
            if t[0] in ("add", "mul") and len(t) > 3:
                cands += [t[:i] + t[i + 1:] for i in range(1, len(t))]
            if t[0] not in ("int", "sym", "rel", "true", "false"):
                cands += [("int", 1), ("int", 2), ("sym", "x")]
            if t[0] == "rat":
                cands += [("rat", 1, 2)]
            for c in cands:
                if c == t or (t[0] == "rel") or c[0] in ("rel", "true", "false"):
                    continue
                if budget <= 0:
                    return n
                budget -= 1
                m = put(n, p, c)
                try:
                    if fails(m):
                        n = m
                        changed = True
                        break
                except Exception:
                    continue
            if changed:
                break
    return n


def key_of(n):
    return repr(n)
