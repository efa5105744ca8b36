"""Reference mathematics: an evaluator of expression nodes with mpmath, independent of wrenfold.

Nodes are tuples (op, ...):
  ('int',n) ('rat',n,d) ('flt',f) ('sym',name) ('uniq',index) ('farg',name,index)
  ('pi',) ('e',) ('i',) ('zoo',) ('nan',) ('true',) ('false',)
  ('add',*args) ('mul',*args) ('sub',a,b) ('div',a,b) ('neg',a) ('pow',a,b) ('sqrt',a)
  ('fn',name,*args)    name in FUNCS
  ('max',a,b) ('min',a,b) ('where',c,a,b) ('iverson',c)
  ('rel',op,a,b)       op in < <= == > >=
  ('uneval',a) ('stopd',a)
  ('symfn',name,*args) ('deriv',order,f,arg) ('subst',input,target,replacement)
The same evaluator is applied to the operations that were requested (the recipe) and to the tree that
wrenfold stored for them.
"""
import math, random
import mpmath
from mpmath import mp, mpf, mpc

mp.dps = 40


class Undefined(Exception):
    """The value is not a finite number at this point."""


class Ambiguous(Exception):
    """The point lies on (or within rounding of) a discontinuity or a branch-cut convention."""


class BranchCut(Ambiguous):
    """The point lies exactly on the branch cut of a function: two values, both finite, are conventional."""


class Unsupported(Exception):
    pass


FUNCS = ("cos", "sin", "tan", "acos", "asin", "atan", "cosh", "sinh", "tanh", "acosh", "asinh", "atanh",
         "log", "exp", "abs", "sign", "floor", "atan2")

BIG = mpf(10) ** 400
TINY = mpf(10) ** -30
BIGF = mpf(10) ** 300
TINYF = mpf(10) ** -300


def is_real(z):
    return not isinstance(z, mpc) or z.imag == 0


def re(z):
    return z.real if isinstance(z, mpc) else z


class Evaluator:
    """Evaluates nodes at one point.

    env:   dict name -> mpf/mpc for symbols ('u<index>' for unique symbols, 'name[i]' for arguments)
    delta: relative size of the random perturbation applied to each result (0: none)
    chop:  relative magnitude below which a real or imaginary part is taken as zero
    """

    def __init__(self, env, delta=0, seed=0, chop=None, float_mode=False):
        self.env = env
        self.delta = mpf(delta)
        self.rng = random.Random(seed) if delta else None
        self.float_mode = float_mode
        self.chop = mpf(chop if chop is not None else (1e-13 if float_mode else mpf(10) ** (-(mp.dps - 10))))
        self.events = 0
        self.nonreal = False
        self.edge = False       # whether a power of (nearly) zero was taken
        self.peak = mpf(1)      # largest magnitude seen
        self.memo = {}
        self.deriv = False
        self.cut = 0            # side (+1, -1) taken on branch cuts; 0: report them as ambiguous
        self.cuts = set()       # cuts met while a side was taken
        self.ties = False       # whether a tie of a comparison is ambiguous
        self.frozen = {}        # values of stop-derivative nodes while differentiating numerically

    # -- helpers
    def fin(self, z, scale=None):
        self.events += 1
        if isinstance(z, (int, float)):
            z = mpf(z)
        if isinstance(z, mpc):
            a, b = z.real, z.imag
            if not (mpmath.isfinite(a) and mpmath.isfinite(b)):
                raise Undefined("nonfinite")
            m = abs(a) + abs(b)
            if scale is not None:
                m = max(m, scale)
            if abs(b) <= m * self.chop:
                z = a
                if abs(a) <= m * self.chop and scale is not None:
                    z = mpf(0)
            elif abs(a) <= m * self.chop:
                z = mpc(0, b)
        else:
            if not mpmath.isfinite(z):
                raise Undefined("nonfinite")
            if scale is not None and abs(z) <= scale * self.chop:
                z = mpf(0)
        az = abs(z)
        if az > self.peak:
            if az > (BIGF if self.float_mode else BIG):
                raise Ambiguous("overflow")
            self.peak = az
        if self.float_mode and z != 0 and abs(z) < TINYF:
            raise Ambiguous("underflow")
        if self.delta:
            z = z * (1 + self.delta * (2 * self.rng.random() - 1))
        if isinstance(z, mpc):
            self.nonreal = True
        return z

    def cmp(self, a, b):
        """-1, 0, 1 for real a, b."""
        if not (is_real(a) and is_real(b)):
            raise Ambiguous("comparison of non-real values")
        a, b = re(a), re(b)
        d = a - b
        if d == 0:
            if self.ties:
                raise Ambiguous("tie")
            return 0
        tol = mpf(1e-11) if self.float_mode else mpf(10) ** (-(mp.dps - 12))
        if abs(d) <= tol * max(abs(a), abs(b), TINY):
            raise Ambiguous("comparison within rounding")
        return -1 if d < 0 else 1

    # -- evaluation
    def __call__(self, n):
        key = id(n)
        hit = self.memo.get(key)
        if hit is not None and hit[0] is n:
            return hit[1]
        v = getattr(self, "op_" + n[0])(n)
        if not self.delta:      # shared sub-expressions are perturbed independently
            self.memo[key] = (n, v)
        return v

    def cond(self, n):
        op = n[0]
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "rel":
            rel, a, b = n[1], self(n[2]), self(n[3])
            if rel == "==" and not (is_real(a) and is_real(b)):
                d = abs(a - b)
                if d == 0:
                    return True
                if d <= mpf(10) ** (-(mp.dps - 12)) * max(abs(a), abs(b), TINY) * (mpf(10) ** 15 if self.float_mode else 1):
                    raise Ambiguous("equality within rounding")
                return False
            c = self.cmp(a, b)
            return {"<": c < 0, "<=": c <= 0, "==": c == 0, ">": c > 0, ">=": c >= 0}[rel]
        raise Unsupported("condition " + op)

    def op_int(self, n):
        return mpf(n[1])

    def op_rat(self, n):
        if n[2] == 0:
            raise Undefined("rational with zero denominator")
        return self.fin(mpf(n[1]) / mpf(n[2]))

    def op_flt(self, n):
        return self.fin(mpf(n[1]))

    def op_sym(self, n):
        try:
            return self.env[n[1]]
        except KeyError:
            raise Unsupported("unknown symbol " + str(n[1]))

    def op_uniq(self, n):
        return self.op_sym(("sym", "u%d" % n[1]))

    def op_farg(self, n):
        return self.op_sym(("sym", "%s[%d]" % (n[1], n[2])))

    def op_pi(self, n):
        return self.fin(+mp.pi)

    def op_e(self, n):
        return self.fin(+mp.e)

    def op_i(self, n):
        return mpc(0, 1)

    def op_zoo(self, n):
        raise Undefined("zoo")

    def op_nan(self, n):
        raise Undefined("nan")

    def op_add(self, n):
        vs = [self(a) for a in n[1:]]
        s = mpf(0)
        m = mpf(0)
        for v in vs:
            s = s + v
            m = max(m, abs(v))
        return self.fin(s, m)

    def op_mul(self, n):
        p = mpf(1)
        for a in n[1:]:
            p = p * self(a)
        return self.fin(p)

    def op_sub(self, n):
        a, b = self(n[1]), self(n[2])
        return self.fin(a - b, max(abs(a), abs(b)))

    def op_div(self, n):
        a, b = self(n[1]), self(n[2])
        if b == 0:
            raise Undefined("division by zero")
        return self.fin(a / b)

    def op_neg(self, n):
        return -self(n[1])

    def power(self, b, e):
        if abs(b) < 1e-9:
            self.edge = True
        if b == 0:
            if e == 0:
                raise Undefined("0**0")
            if re(e) > 0:
                return mpf(0)
            raise Undefined("0**negative")
        if self.float_mode and abs(e) > 150:
            raise Ambiguous("range of double")
        if is_real(e) and re(e) == mpmath.floor(re(e)) and abs(re(e)) <= 4096:
            return self.fin(b ** int(re(e)))
        if is_real(b) and re(b) > 0:
            # exp(e * log b); guard against absurd magnitudes
            if abs(re(e) * mpmath.log(re(b))) > 900:
                raise Ambiguous("overflow")
            return self.fin(mpmath.power(re(b), e))
        l = mpmath.log(b)
        x = e * l
        if abs(re(x)) > 900:
            raise Ambiguous("overflow")
        if abs(x.imag) > mpf(10) ** 10:
            raise Ambiguous("huge phase")
        return self.fin(mpmath.exp(x))

    def op_pow(self, n):
        return self.power(self(n[1]), self(n[2]))

    def op_sqrt(self, n):
        return self.power(self(n[1]), mpf(1) / 2)

    def op_uneval(self, n):
        return self(n[1])

    def op_stopd(self, n):
        hit = self.frozen.get(id(n))
        return hit[1] if hit is not None else self(n[1])

    def op_max(self, n):
        a, b = self(n[1]), self(n[2])
        return a if self.cmp(a, b) >= 0 else b

    def op_min(self, n):
        a, b = self(n[1]), self(n[2])
        return a if self.cmp(a, b) <= 0 else b

    def op_where(self, n):
        return self(n[2]) if self.cond(n[1]) else self(n[3])

    def op_iverson(self, n):
        return mpf(1) if self.cond(n[1]) else mpf(0)

    def op_fn(self, n):
        return self.call(n[1], [self(a) for a in n[2:]])

    def call(self, name, args):
        x = args[0]
        f = getattr(self, "fn_" + name, None)
        if f is not None:
            return f(*args)
        raise Unsupported("function " + name)

    def _small(self, x, lim=mpf(10) ** 8):
        if abs(x) > lim:
            raise Ambiguous("argument too large")

    def fn_cos(self, x):
        self._small(x)
        if abs(mpc(x).imag) > 500: raise Ambiguous("overflow")
        return self.fin(mpmath.cos(x), mpf(1))

    def fn_sin(self, x):
        self._small(x)
        if abs(mpc(x).imag) > 500: raise Ambiguous("overflow")
        return self.fin(mpmath.sin(x), mpf(1))

    def fn_tan(self, x):
        self._small(x)
        if abs(mpc(x).imag) > 500: raise Ambiguous("large imaginary part")
        c = mpmath.cos(x)
        if abs(c) <= (1e-9 if self.float_mode else mpf(10) ** (-(mp.dps - 12))):
            raise Undefined("pole")
        return self.fin(mpmath.tan(x), mpf(1))

    def fn_cosh(self, x):
        if abs(re(x)) > 500: raise Ambiguous("overflow")
        return self.fin(mpmath.cosh(x), mpf(1))

    def fn_sinh(self, x):
        if abs(re(x)) > 500: raise Ambiguous("overflow")
        return self.fin(mpmath.sinh(x), None if is_real(x) else mpf(1))

    def fn_tanh(self, x):
        if abs(re(x)) > 500: raise Ambiguous("large")
        if not is_real(x) and abs(mpmath.cosh(x)) <= (1e-9 if self.float_mode else mpf(10) ** (-(mp.dps - 12))):
            raise Undefined("pole")
        return self.fin(mpmath.tanh(x), None if is_real(x) else mpf(1))

    def fn_exp(self, x):
        if abs(re(x)) > 900: raise Ambiguous("overflow")
        self._small(x)
        return self.fin(mpmath.exp(x))

    def fn_log(self, x):
        if x == 0:
            raise Undefined("log 0")
        return self.fin(mpmath.log(x), mpf(1) if self.float_mode else None)

    def on_cut(self, name, x):
        """The value on one side of a branch cut, when a side has been chosen."""
        if not self.cut:
            raise BranchCut("on branch cut")
        self.cuts.add((name, mpmath.nstr(mpc(x), 25)))
        v = mpc(getattr(mpmath, name)(x))
        if self.cut < 0:
            v = -v.conjugate() if name in ("atan", "asinh") else v.conjugate()
        return self.fin(v)

    def fn_acos(self, x):
        if is_real(x) and abs(re(x)) > 1:
            return self.on_cut("acos", x)
        return self.fin(mpmath.acos(x))

    def fn_asin(self, x):
        if is_real(x) and abs(re(x)) > 1:
            return self.on_cut("asin", x)
        return self.fin(mpmath.asin(x))

    def fn_atan(self, x):
        if not is_real(x) and x.real == 0 and abs(x.imag) >= 1:
            return self.on_cut("atan", x)
        return self.fin(mpmath.atan(x))

    def fn_acosh(self, x):
        if is_real(x) and re(x) < 1 and not (0 <= re(x) <= 1):
            return self.on_cut("acosh", x)
        return self.fin(mpmath.acosh(x))

    def fn_asinh(self, x):
        if not is_real(x) and x.real == 0 and abs(x.imag) > 1:
            return self.on_cut("asinh", x)
        return self.fin(mpmath.asinh(x))

    def fn_atanh(self, x):
        if is_real(x) and abs(re(x)) >= 1:
            if abs(re(x)) == 1:
                raise Undefined("atanh pole")
            return self.on_cut("atanh", x)
        return self.fin(mpmath.atanh(x))

    def fn_abs(self, x):
        if self.ties and (x == 0 or not is_real(x)):
            raise Ambiguous("abs of zero or of a complex value")
        return self.fin(abs(x))

    def fn_sign(self, x):
        if not is_real(x):
            raise Ambiguous("sign of non-real")
        return mpf(self.cmp(x, mpf(0)))

    def fn_floor(self, x):
        if not is_real(x):
            raise Ambiguous("floor of non-real")
        x = re(x)
        if self.deriv and abs(x) > 10 ** 8:
            raise Ambiguous("dense jumps")
        f = mpmath.floor(x)
        r = mpmath.nint(x)
        if x != r and abs(x - r) <= (mpf(1e-9) if self.float_mode else mpf(10) ** (-(mp.dps - 14))) * max(1, abs(x)):
            raise Ambiguous("floor near integer")
        return f

    def fn_atan2(self, y, x):
        if not (is_real(y) and is_real(x)):
            raise Ambiguous("atan2 of non-real")
        y, x = re(y), re(x)
        if x == 0 and y == 0:
            raise Undefined("atan2(0,0)")
        m = max(abs(x), abs(y))
        if x < 0 and y != 0 and abs(y) <= m * (1e-11 if self.float_mode else mpf(10) ** (-(mp.dps - 12))):
            raise Ambiguous("atan2 near cut")
        return self.fin(mpmath.atan2(y, x))

    # -- undefined functions are given a concrete, smooth interpretation
    def op_symfn(self, n):
        return self.symfn(n[1], [self(a) for a in n[2:]])

    def symfn(self, name, args):
        h = sum((i + 1) * ord(c) for i, c in enumerate(name))
        s = mpf(0)
        for i, a in enumerate(args):
            w = mpf(((h * (i + 3)) % 17) + 3) / 11
            if abs(mpc(a).imag) > 200 or abs(a) > mpf(10) ** 8:
                raise Ambiguous("large argument of undefined function")
            s = s + mpmath.sin(w * a + mpf(i + 1) / 3) * (1 + mpf(i) / 5)
            if i:
                s = s + a * args[i - 1] * mpf((h % 5) + 1) / 7
        return self.fin(s + mpf(h % 7) / 9, mpf(1))

    def op_deriv(self, n):
        """Derivative(f, arg, order): numeric derivative of f by the symbol arg."""
        order, f, arg = n[1], n[2], n[3]
        name = symbol_name(arg)
        if name is None:
            raise Unsupported("derivative by a non-symbol")
        return self.fin(numdiff(f, name, self.env, order, self.float_mode, self.frozen))

    def op_subst(self, n):
        name = symbol_name(n[2])
        if name is None:
            raise Unsupported("substitution of a non-symbol")
        env = dict(self.env)
        env[name] = self(n[3])
        sub = Evaluator(env, 0, 0, self.chop, self.float_mode)
        sub.frozen = self.frozen
        return self.fin(sub(n[1]))


def symbol_name(n):
    if n[0] == "sym":
        return n[1]
    if n[0] == "uniq":
        return "u%d" % n[1]
    if n[0] == "farg":
        return "%s[%d]" % (n[1], n[2])
    return None


def stopd_nodes(n, acc):
    if n[0] == "stopd":
        acc.append(n)
    for c in n[1:]:
        if isinstance(c, tuple):
            stopd_nodes(c, acc)
    return acc


def numdiff(node, name, env, order=1, float_mode=False, frozen=None):
    """order-th derivative of node by symbol `name` at env, by central differences in high precision.

    Accuracy: step h = 10^-k with working precision so that truncation ~ h^2 and rounding stay below 1e-18."""
    if name not in env:
        return mpf(0)
    old = mp.dps
    # Richardson: error O(h^4) with two step sizes
    mp.dps = max(old, 40) + 26 * order
    try:
        h = mpf(10) ** -12

        frozen = dict(frozen or {})
        for c in stopd_nodes(node, []):
            if id(c) not in frozen:
                ev = Evaluator(env, 0, 0, mpf(10) ** -(mp.dps - 8), float_mode)
                ev.frozen = frozen
                try:
                    frozen[id(c)] = (c, ev(c[1]))
                except Unsupported:     # below a substitution: depends on its target
                    raise Ambiguous("stopped derivative inside a substitution")

        mag = mpf(0)

        def at(t):
            nonlocal mag
            e = dict(env)
            e[name] = env[name] + t
            ev = Evaluator(e, 0, 0, mpf(10) ** -(mp.dps - 8), float_mode)
            ev.frozen = frozen
            ev.ties = t == 0
            ev.deriv = True
            v = ev(node)
            mag = max(mag, abs(v), ev.peak)
            return v

        def central(h):
            # order-th central difference
            s = mpf(0)
            for k in range(order + 1):
                c = mpmath.binomial(order, k) * (-1) ** k
                s = s + c * at((mpf(order) / 2 - k) * h)
            return s / h ** order
        at(mpf(0))
        if mag > 10:        # large intermediate values may cancel
            mp.dps += min(420, int(mpmath.log10(mag)) + 1)
        d1 = central(h)
        d2 = central(h / 2)
        if mag * mpf(10) ** (4 - mp.dps) / h ** order > mpf(10) ** -22 * (1 + abs(d2)):
            raise Ambiguous("cancellation in the numerical derivative")
        if abs(d1 - d2) > mpf(10) ** -8 * (1 + abs(d2)):
            raise Ambiguous("not differentiable here")
        return (4 * d2 - d1) / 3
    finally:
        mp.dps = old


def contains(n, ops):
    if isinstance(n, tuple):
        if n and n[0] in ops:
            return True
        return any(contains(c, ops) for c in n[1:] if isinstance(c, tuple))
    return False


def has_float(n):
    return contains(n, ("flt",))


def size(n):
    return 1 + sum(size(c) for c in n[1:] if isinstance(c, tuple))


def symbols(n, acc=None):
    acc = set() if acc is None else acc
    s = symbol_name(n) if n[0] in ("sym", "uniq", "farg") else None
    if s:
        acc.add(s)
    for c in n[1:]:
        if isinstance(c, tuple):
            symbols(c, acc)
    return acc


def evaluate(n, env, float_mode=None, delta=0, seed=0):
    fm = has_float(n) if float_mode is None else float_mode
    return Evaluator(env, delta, seed, float_mode=fm)(n)


class Agreement:
    """Result of comparing two nodes at one point."""
    EQUAL, DIFFER, SKIP = "equal", "differ", "skip"


def known_classes(src, env, float_mode):
    """Which recorded deviations of power simplification (DESIGN.md, K1-K3) this point exercises.

    All need an outer power with a non-integer exponent whose base contains:
    K1 a power with a non-real exponent that is not declared complex (exponents get multiplied),
    K2 a power of a negative base with a symbolic, non-integer exponent (taken to be real),
    K3 the logarithm of a positive number below one (taken to be positive)."""
    ev = Evaluator(env, float_mode=float_mode)
    found = set()

    def val(n):
        try:
            return ev(n)
        except (Undefined, Ambiguous, Unsupported):
            return None

    def declared_complex(e):
        if e[0] in ("add", "mul", "sub", "neg"):
            return all(declared_complex(c) for c in e[1:])
        return e[0] in ("int", "rat", "flt", "i", "pi", "e") or (e[0] == "sym" and e[1][0] in "zrpn")

    def inner(n):
        if n[0] == "pow":
            b, e = val(n[1]), val(n[2])
            if b is not None and e is not None:
                if not is_real(e) and not declared_complex(n[2]):
                    found.add("K1")
                if is_real(b) and re(b) < 0 and is_real(e) and e != mpmath.floor(re(e)) and n[2][0] not in ("int", "rat", "flt"):
                    found.add("K2")
        if n[0] == "fn" and n[1] == "log":
            v = val(n[2])
            if v is not None and is_real(v) and 0 < re(v) < 1:
                found.add("K3")
        for c in n[1:]:
            if isinstance(c, tuple):
                inner(c)

    def outer(n):
        if n[0] == "sqrt" or (n[0] == "pow" and n[2][0] != "int"):
            inner(n[1])
        if n[0] == "pow" and n[2][0] == "int":
            pass
        for c in n[1:]:
            if isinstance(c, tuple):
                outer(c)
    outer(src)
    return found


STRICT = False      # True while the recorded deviations themselves are replayed


def compare(src, out, env, float_mode=None, rel=None):
    """Compares the value requested (src) with the value stored (out) at env; see _compare."""
    v, why = _compare(src, out, env, float_mode, rel)
    if v == Agreement.DIFFER and not STRICT:
        k = known_classes(src, env, (has_float(src) or has_float(out)) if float_mode is None else float_mode)
        if k:
            return Agreement.SKIP, "known " + ",".join(sorted(k))
    return v, why


def _compare(src, out, env, float_mode=None, rel=None):
    """Returns (verdict, detail). SKIP when the requested value is undefined/ambiguous here, or when the
    comparison is not decisive because rounding of float constants is amplified too much.

    First at 40 digits; a difference is confirmed at 160 digits with a perturbation analysis that bounds
    what rounding (of double constants, in float mode) can explain."""
    fm = (has_float(src) or has_float(out)) if float_mode is None else float_mode
    try:
        a = Evaluator(env, float_mode=fm)(src)
    except BranchCut:
        return _compare_cut(src, out, env, fm)
    except (Undefined, Ambiguous) as e:
        return Agreement.SKIP, "source: %s" % e
    try:
        b = Evaluator(env, float_mode=fm)(out)
    except Ambiguous as e:
        return Agreement.SKIP, "result: %s" % e
    except Undefined as e:
        b = e
    if not isinstance(b, Exception):
        tol = (mpf(1e-13) if fm else mpf(10) ** (-(mp.dps - 14))) if rel is None else mpf(rel)
        if abs(a - b) <= tol * max(abs(a), abs(b)):
            return Agreement.EQUAL, None
    old = mp.dps
    mp.dps = 160
    try:
        chop = mpf(10) ** -152
        delta = mpf(4e-15) if fm else mpf(10) ** -148

        def ev(n, d=0, seed=0):
            return Evaluator(env, d, seed, chop, fm)(n)
        try:
            a = ev(src)
        except (Undefined, Ambiguous) as e:
            return Agreement.SKIP, "source: %s" % e
        try:
            b = ev(out)
        except Ambiguous as e:
            return Agreement.SKIP, "result: %s" % e
        except Undefined as e:
            b = e
        spread = mpf(0)
        for k in range(3):
            try:
                spread = max(spread, abs(ev(src, delta, 17 + k) - a))
                if not isinstance(b, Exception):
                    spread = max(spread, abs(ev(out, delta, 31 + k) - b))
            except (Undefined, Ambiguous) as e:
                if fm or isinstance(b, Exception) or abs(a - b) <= mpf(10) ** -30 * max(abs(a), abs(b), 1):
                    return Agreement.SKIP, "unstable point: %s" % e
                continue
        if isinstance(b, Exception):
            if spread > mpf(1e-3) * (abs(a) + 1):
                return Agreement.SKIP, "unstable point"
            return Agreement.DIFFER, "requested value %s, stored expression is not finite (%s)" % (mpmath.nstr(a, 20), b)
        tol = spread * 300 + delta * 100 * max(abs(a), abs(b)) + (mpf(10) ** -250 if fm else mpf(10) ** -600)
        if rel is not None:
            tol = max(tol, mpf(rel) * max(abs(a), abs(b)))
        if abs(a - b) <= tol:
            if tol > mpf(1e-4) * max(abs(a), abs(b), mpf(1e-12)):
                return Agreement.SKIP, "not decisive"
            return Agreement.EQUAL, None
        return Agreement.DIFFER, "requested value %s, stored expression has value %s" % (mpmath.nstr(a, 20), mpmath.nstr(b, 20))
    finally:
        mp.dps = old


def _compare_cut(src, out, env, fm):
    """_compare() for a source with a function evaluated exactly on its branch cut.

    Leaving such a function in the stored expression is fine. A stored expression that has a definite value
    there must have one of the two conventional ones; one that is not finite is wrong, as both are finite."""
    try:
        b = Evaluator(env, float_mode=fm)(out)
    except Ambiguous:
        return Agreement.SKIP, "on branch cut"
    except Undefined as e:
        b = e
    sides = []
    for cut in (1, -1):
        vals = []
        for k in range(4):
            ev = Evaluator(env, mpf(4e-15) * bool(k), 50 + k, None, fm)
            ev.cut = cut
            try:
                vals.append(ev(src))
            except (Undefined, Ambiguous):
                return Agreement.SKIP, "on branch cut"
            if len(ev.cuts) != 1 and not k:
                return Agreement.SKIP, "several branch cuts"
        noise = max(abs(v - vals[0]) for v in vals) * 300 + mpf(1e-10) * abs(vals[0])
        if noise > mpf(1e-4) * abs(vals[0]):
            return Agreement.SKIP, "not decisive on branch cut"
        sides.append((vals[0], noise))
    if not isinstance(b, Exception) and any(abs(v - b) <= n for v, n in sides):
        return Agreement.EQUAL, None
    return Agreement.DIFFER, "requested value %s or %s (branch cut), stored expression has value %s" % (
        mpmath.nstr(sides[0][0], 20), mpmath.nstr(sides[1][0], 20), b if isinstance(b, Exception) else mpmath.nstr(b, 20))


def compare_deriv(src, out, env):
    """As compare(), for a source whose value is a numerical derivative (absolute noise is expected)."""
    fm = has_float(src) or has_float(out)
    old = mp.dps
    for dps in (40, 90):
        mp.dps = dps
        try:
            try:
                a = Evaluator(env, float_mode=fm)(src)
            except (Undefined, Ambiguous) as e:
                return Agreement.SKIP, "source: %s" % e
            try:
                b = Evaluator(env, chop=None if dps == 40 else mpf(10) ** -75, float_mode=fm)(out)
            except Ambiguous as e:
                return Agreement.SKIP, "result: %s" % e
            except Undefined as e:
                if dps == 40:
                    continue
                return Agreement.DIFFER, "requested value %s, stored expression is not finite (%s)" % (mpmath.nstr(a, 20), e)
            m = max(abs(a), abs(b))
            tol = mpf(1e-14) * m + mpf(10) ** -20
            if abs(a - b) <= tol:
                return Agreement.EQUAL, None
            if dps == 40:
                continue
            spread = mpf(0)
            if fm:
                for k in range(4):
                    try:
                        spread = max(spread, abs(Evaluator(env, 4e-15, 31 + k, mpf(10) ** -75, True)(out) - b))
                    except (Undefined, Ambiguous) as e:
                        return Agreement.SKIP, "unstable point: %s" % e
                tol = spread * 300 + mpf(1e-11) * m + mpf(1e-13)
                if abs(a - b) <= tol:
                    return (Agreement.EQUAL, None) if tol < mpf(1e-4) * max(m, mpf(1e-6)) else (Agreement.SKIP, "not decisive")
                if abs(a - b) <= mpf(1e-6) * m:     # constants folded in double precision, then amplified
                    return Agreement.SKIP, "not decisive"
            k = known_classes(src, env, fm) if not STRICT else None
            if k:
                return Agreement.SKIP, "known " + ",".join(sorted(k))
            return Agreement.DIFFER, "requested value %s, stored expression has value %s" % (mpmath.nstr(a, 20), mpmath.nstr(b, 20))
        finally:
            mp.dps = old
