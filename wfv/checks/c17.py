"""C17: matrix operations agree with element-wise linear algebra over the rationals."""
import ast, itertools, random
from fractions import Fraction as Fr
from .. import gen, tree
from ..worker import Violation

RULE = ("random programs of matrix operations (construction, indexing, slicing, stacking, reshaping, arithmetic, norms, determinants, LU factorisations, maps, selections) on shapes of up to 6 rows and "
        "columns (up to 9 thorough, empty slices included) with integer, rational and symbolic elements; each result is compared to a list-of-lists model, element by element, in exact rational arithmetic "
        "at several points; malformed requests must raise the dimension error; non-trivial if an element was compared; distinct by operation and shapes")
MIN_EVENTS = {"elements compared": 600000, "dimension errors": 9000, "determinants": 6000, "factorisations": 5000, "slices": 15000}
NAMES = ("x", "y", "z", "w")
K = 3


class Undefined(Exception):
    pass


class Inexact(Exception):
    pass


def value(n, env):
    k = n[0]
    if k == "int": return Fr(n[1])
    if k == "rat": return Fr(n[1], n[2])
    if k == "flt": return Fr(n[1])
    if k == "sym":
        return env[n[1]]
    if k == "add": return sum((value(a, env) for a in n[1:]), Fr(0))
    if k == "mul":
        r = Fr(1)
        for a in n[1:]:
            r *= value(a, env)
        return r
    if k == "neg": return -value(n[1], env)
    if k == "pow":
        b, e = value(n[1], env), value(n[2], env)
        if e.denominator != 1: raise Inexact()
        if b == 0 and e < 0: raise Undefined()
        return b ** int(e)
    if k == "where": return value(n[2] if value(n[1], env) else n[3], env)
    if k == "iverson": return Fr(int(value(n[1], env)))
    if k == "rel":
        a, b = value(n[2], env), value(n[3], env)
        return {"<": a < b, "<=": a <= b, "==": a == b, ">": a > b, ">=": a >= b}[n[1]]
    if k == "true": return True
    if k == "false": return False
    if k == "zoo" or k == "nan": raise Undefined()
    raise Inexact()


def values(expr, envs):
    n = tree.of(expr)
    out = []
    for e in envs:
        try:
            out.append(value(n, e))
        except Undefined:
            out.append(None)
    return out


class M:
    """Model: shape and row-major elements, each a list of K rationals (None where undefined)."""

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e
        assert len(e) == r * c, (r, c, len(e))

    def __getitem__(self, ij):
        return self.e[ij[0] * self.c + ij[1]]

    def rows(self):
        return [self.e[i * self.c:(i + 1) * self.c] for i in range(self.r)]


def of(rows, c=None):
    return M(len(rows), len(rows[0]) if rows else c, [x for r in rows for x in r])


def pw(f, *vs):
    """Point-wise application."""
    out = []
    for t in zip(*vs):
        if any(x is None for x in t):
            out.append(None)
        else:
            try:
                out.append(f(*t))
            except ZeroDivisionError:
                out.append(None)
    return out


def add(a, b): return pw(lambda x, y: x + y, a, b)
def mul(a, b): return pw(lambda x, y: x * y, a, b)


def det(rows):
    n = len(rows)
    m = [list(r) for r in rows]
    d = Fr(1)
    for i in range(n):
        p = next((k for k in range(i, n) if m[k][i] != 0), None)
        if p is None: return Fr(0)
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for k in range(i + 1, n):
            f = m[k][i] / m[i][i]
            for j in range(i, n):
                m[k][j] -= f * m[i][j]
    return d


class DimErr(Exception):
    pass


def idx(i, n):
    j = i + n if i < 0 else i
    if not 0 <= j < n:
        raise DimErr()
    return j


class Check:
    RANDOM = {"quick": 15000, "thorough": 150000}

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.s = gen.sym()
        import pywrenfold.exceptions as E
        self.DimensionError, self.Arith = E.DimensionError, E.ArithmeticError

    def total(self):
        return self.RANDOM[self.tier]

    # --- construction of random elements
    def elem(self, rng, kind):
        """(Expr, values)"""
        s = self.s
        big = rng.random() < 0.03
        if kind == "int" or rng.random() < 0.25:
            v = rng.choice([0, 0, 1, -1, 2, 3, -5, 7, rng.randint(-9, 9)]) if not big else rng.randint(-2 ** 40, 2 ** 40)
            return s.integer(v), [Fr(v)] * K
        if kind == "rat" or rng.random() < 0.2:
            v = Fr(rng.randint(-7, 7), rng.randint(1, 6))
            return s.rational(v.numerator, v.denominator), [v] * K
        n = rng.choice(NAMES)
        e, v = gen.symbol(n), [env[n] for env in self.envs]
        if rng.random() < 0.35:
            a = rng.randint(-3, 3)
            e, v = e * a + 1, [x * a + 1 for x in v]
        elif rng.random() < 0.2:
            m = rng.choice(NAMES)
            e, v = e * gen.symbol(m), [x * env[m] for x, env in zip(v, self.envs)]
        return e, v

    def matrix(self, rng, r=None, c=None):
        big = 9 if self.tier == "thorough" and rng.random() < 0.2 else 6
        r = r if r is not None else rng.choice([1, 1, 2, 2, 3, 3, 4, 5, big])
        c = c if c is not None else rng.choice([1, 1, 2, 2, 3, 3, 4, 5, big])
        kind = rng.choice(["int", "rat", "sym", "sym", "mix"])
        if r * c > 12 and kind in ("sym", "mix"):
            kind = rng.choice(["int", "mix"])
        sparse = rng.random() < 0.3
        els = []
        for _ in range(r * c):
            if kind == "mix":
                k = "sym" if rng.random() < 0.2 else "int"
            else:
                k = kind
            els.append(self.elem(rng, k) if not (sparse and rng.random() < 0.6) else (self.s.integer(0), [Fr(0)] * K))
        m = M(r, c, [v for _, v in els])
        es = [e for e, _ in els]
        rows = [es[i * c:(i + 1) * c] for i in range(r)]
        s = self.s
        how = rng.randint(0, 8)
        if how == 0: x = s.matrix(rows)
        elif how == 1: x = s.matrix([tuple(q) for q in rows])
        elif how == 2: x = s.matrix(list(q) for q in rows)
        elif how == 3: x = s.matrix([s.row_vector(*q) for q in rows])
        elif how == 4 and c == 1: x = s.vector(*es)
        elif how == 5 and r == 1: x = s.row_vector(*es)
        elif how == 6 and c == 1: x = s.matrix(es)
        elif how == 7: x = s.matrix((e for e in q) for q in rows)
        elif how == 8: x = s.hstack([s.vector(*[rows[i][j] for i in range(r)]) for j in range(c)])
        else: x = s.matrix(rows)
        return x, m

    def run(self, i, rng):
        seed = rng.randint(0, 2 ** 60)
        self.program(seed)

    def replay(self, text):
        self.program(ast.literal_eval(text))

    def program(self, seed):
        rng = random.Random(seed)
        self.ctx.describe(repr(seed))
        self.envs = [{n: Fr(rng.choice([-1, 1]) * rng.randint(1, 9), rng.randint(1, 5)) for n in NAMES} for _ in range(K)]
        pool = []
        self.trail = []
        for _ in range(2):
            x, m = self.matrix(rng)
            pool.append((x, m))
            self.check("construct", x, m)
        for _ in range(rng.randint(10, 20)):
            op = rng.choice(OPS)
            try:
                self.step(op, pool, rng)
            except self.Arith as ex:
                if "verflow" not in str(ex) and "ero" not in str(ex):
                    self.fail(op, "raised ArithmeticError: %s" % ex)
                self.ctx.event("reported overflows")
            except Inexact:
                self.ctx.event("undecided")
            except Violation:
                raise
            except DimErr:
                raise
            except Exception as ex:
                self.fail(op, "raised %s: %s" % (type(ex).__name__, str(ex)[:300]))
            if len(pool) > 8:
                pool.pop(rng.randrange(len(pool)))

    def fail(self, op, msg):
        raise Violation("%s: %s" % (op, msg.split("\n")[0][:100]), "%s: %s\nprogram: %s" % (op, msg, "; ".join(self.trail[-6:])), None)

    def check(self, op, x, m):
        ctx = self.ctx
        if tuple(x.shape) != (m.r, m.c):
            self.fail(op, "shape is %r, expected %r" % (tuple(x.shape), (m.r, m.c)))
        if x.size != m.r * m.c or bool(x.is_empty) != (m.r * m.c == 0) or len(x) != m.r:
            self.fail(op, "size %d, is_empty %r, len %d for shape %r" % (x.size, x.is_empty, len(x), tuple(x.shape)))
        for k, (e, want) in enumerate(zip(x.to_flat_list(), m.e)):
            self.same(op, e, want, "element (%d, %d)" % (k // m.c, k % m.c))
        ctx.distinct("%s %d %d" % (op, m.r, m.c))
        ctx.event("operations")
        ctx.event("op " + op)

    def same(self, op, e, want, what):
        got = values(e, self.envs)
        for g, w in zip(got, want):
            if w is None or g is None:      # a denominator vanishes at this point
                continue
            if g != w and not (isinstance(w, float) and abs(float(g) - w) <= 1e-9 * max(1, abs(w))):
                self.fail(op, "%s is %s, whose value is %s, expected %s at %s" % (what, str(e)[:200], g, w, self.envs[got.index(g)]))
            self.ctx.event("elements compared")

    def expect_error(self, op, fn):
        try:
            r = fn()
        except self.DimensionError:
            self.ctx.event("dimension errors")
            self.ctx.event("rejected " + op)
            return
        except self.Arith:
            return
        except (TypeError, IndexError, OverflowError, ValueError) as ex:
            self.fail(op, "a malformed request raised %s: %s" % (type(ex).__name__, ex))
        self.fail(op, "a malformed request was accepted and returned %s" % str(r)[:300])

    def either(self, op, fn, model, note=None):
        """Runs fn and the model; the model decides whether a dimension error is due. Returns the result or None."""
        self.trail.append("%s %s" % (op, note))
        try:
            want = model()
        except DimErr:
            self.expect_error(op, fn)
            return None
        got = fn()
        return got, want

    def step(self, op, pool, rng):
        s = self.s
        x, m = rng.choice(pool)
        y, n = rng.choice(pool)
        if rng.random() < 0.4:      # a partner that fits
            r, c = rng.choice([(m.r, m.c), (m.c, m.r), (m.r, None), (None, m.c), (m.c, None)])
            y, n = self.matrix(rng, r if r else None, c if c else None)
        res = None
        shape = "%dx%d, %dx%d" % (m.r, m.c, n.r, n.c)
        if op in ("add", "sub"):
            def model():
                if (m.r, m.c) != (n.r, n.c): raise DimErr()
                return M(m.r, m.c, [add(a, b if op == "add" else [None if q is None else -q for q in b]) for a, b in zip(m.e, n.e)])
            res = self.either(op, (lambda: x + y) if op == "add" else (lambda: x - y), model, shape)
        elif op == "matmul":
            def model():
                if m.c != n.r: raise DimErr()
                out = []
                for i in range(m.r):
                    for j in range(n.c):
                        a = [Fr(0)] * K
                        for k in range(m.c):
                            a = add(a, mul(m[i, k], n[k, j]))
                        out.append(a)
                return M(m.r, n.c, out)
            res = self.either(op, rng.choice([lambda: x * y, lambda: x * y]), model, shape)
        elif op == "scale":
            kind = rng.choice(["int", "rat", "sym", "pyint", "pyfloat"])
            if kind == "pyint": q = rng.choice([0, 1, -1, 2, -3, 10]); v = [Fr(q)] * K
            elif kind == "pyfloat":
                q = rng.choice([0.5, -1.25, 2.0]); v = [Fr(q)] * K
            else: q, v = self.elem(rng, kind)
            self.trail.append("%s by %s %s" % (shape, kind, q))
            how = rng.randint(0, 2)
            if how == 0: z, w = x * q, M(m.r, m.c, [mul(a, v) for a in m.e])
            elif how == 1: z, w = q * x, M(m.r, m.c, [mul(a, v) for a in m.e])
            else:
                if any(t == 0 for t in v): return
                z, w = x / q, M(m.r, m.c, [pw(lambda a, b: a / b, a, v) for a in m.e])
            self.check("scale", z, approx(w) if kind == "pyfloat" else w)
            return
        elif op == "neg":
            res = -x, M(m.r, m.c, [pw(lambda a: -a, a) for a in m.e])
        elif op == "transpose":
            res = rng.choice([lambda: x.T, lambda: x.transpose()])(), M(m.c, m.r, [m[i, j] for j in range(m.c) for i in range(m.r)])
        elif op == "vec":
            res = s.vec(x), M(m.r * m.c, 1, [m[i, j] for j in range(m.c) for i in range(m.r)])
        elif op == "reshape":
            t = m.r * m.c
            d = [k for k in range(1, t + 1) if t % k == 0] or [0]
            a = rng.choice(d)
            b = t // a if a else rng.choice([0, 1, 3])
            if rng.random() < 0.25: a, b = rng.choice([(a + 1, b), (-a, -b), (a, b + 1), (0, b), (-1, t), (b, a), (65536, 65536), (2 ** 31 - 1, 2 ** 31 - 1), (2 ** 16, 2 ** 16 + t)])
            def model():
                if a < 0 or b < 0 or a * b != t: raise DimErr()
                return M(a, b, m.e)
            res = self.either(op, rng.choice([lambda: x.reshape(a, b), lambda: x.reshape((a, b))]), model, "%s to %r" % (shape, (a, b)))
        elif op in ("hstack", "row_join"):
            zs = [(x, m), (y, n)]
            while op == "hstack" and rng.random() < 0.4: zs.append(self.matrix(rng, m.r or None, None))
            def model():
                if any(q.r != m.r for _, q in zs): raise DimErr()
                return M(m.r, sum(q.c for _, q in zs), [e for i in range(m.r) for _, q in zs for e in q.e[i * q.c:(i + 1) * q.c]])
            res = self.either(op, (lambda: s.hstack([p for p, _ in zs])) if op == "hstack" else (lambda: x.row_join(y)), model, shape)
        elif op in ("vstack", "col_join", "stack_rows"):
            zs = [(x, m), (y, n)]
            while op != "col_join" and rng.random() < 0.4: zs.append(self.matrix(rng, None, m.c or None))
            def model():
                if any(q.c != m.c for _, q in zs): raise DimErr()
                return M(sum(q.r for _, q in zs), m.c, [e for _, q in zs for e in q.e])
            if op == "stack_rows" and any(q.c == 0 for _, q in zs): return
            fn = {"vstack": lambda: s.vstack([p for p, _ in zs]), "col_join": lambda: x.col_join(y), "stack_rows": lambda: s.matrix([p for p, _ in zs])}[op]
            res = self.either(op, fn, model, shape)
        elif op == "ragged":
            rows = [[self.elem(rng, "int")[0] for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 4))]
            if len({len(r) for r in rows}) == 1: return
            self.trail.append("ragged %r" % ([len(r) for r in rows],))
            self.expect_error(op, lambda: s.matrix(rows))
            return
        elif op == "empty":
            self.trail.append(op)
            self.expect_error(op, rng.choice([lambda: s.matrix([]), lambda: s.vector(), lambda: s.row_vector(), lambda: s.hstack([]), lambda: s.vstack([]), lambda: s.diag([]),
                                              lambda: s.matrix([[]]), lambda: s.matrix([[], []]), lambda: s.zeros(0, 2), lambda: s.zeros(2, -1), lambda: s.eye(0), lambda: s.eye(2, 0),
                                              lambda: s.eye(-3), lambda: s.matrix_of_symbols("q", 0, 3), lambda: s.matrix([s.zeros(2, 2)[2:, :], s.zeros(2, 2)[:, 2:]])]))
            return
        elif op == "diag":
            zs = [(x, m), (y, n)] if rng.random() < 0.8 else [(x, m)]
            R, C = sum(q.r for _, q in zs), sum(q.c for _, q in zs)
            out = {}
            ro = co = 0
            for _, q in zs:
                for i in range(q.r):
                    for j in range(q.c):
                        out[ro + i, co + j] = q[i, j]
                ro, co = ro + q.r, co + q.c
            self.trail.append("diag " + shape)
            res = s.diag([p for p, _ in zs]), M(R, C, [out.get((i, j), [Fr(0)] * K) for i in range(R) for j in range(C)])
        elif op == "diag_scalars":
            es = [self.elem(rng, "mix") for _ in range(rng.randint(1, 5))]
            k = len(es)
            res = s.diag([e for e, _ in es]), M(k, k, [es[i][1] if i == j else [Fr(0)] * K for i in range(k) for j in range(k)])
        elif op == "constant":
            r, c = rng.randint(1, 5), rng.randint(1, 5)
            how = rng.randint(0, 3)
            if how == 0: res = s.zeros(r, c), M(r, c, [[Fr(0)] * K] * (r * c))
            elif how == 1: res = s.eye(r), M(r, r, [[Fr(int(i == j))] * K for i in range(r) for j in range(r)])
            elif how == 2: res = s.eye(r, c), M(r, c, [[Fr(int(i == j))] * K for i in range(r) for j in range(c)])
            else:
                z = s.matrix_of_symbols("Q", r, c)
                names = [str(e) for e in z.to_flat_list()]
                if tuple(z.shape) != (r, c) or names != ["Q_%d_%d" % (i, j) for i in range(r) for j in range(c)]:
                    self.fail(op, "matrix_of_symbols gave %r" % (names,))
                self.ctx.event("elements compared", r * c)
                return
        elif op == "index":
            i, j = [rng.choice([rng.randint(-d - 2, d + 1), rng.randint(0, max(d - 1, 0)), -rng.randint(1, max(d, 1))]) for d in (m.r, m.c)]
            if rng.random() < 0.04: i = rng.choice([2 ** 31 - 1, -2 ** 31])
            if rng.random() < 0.04: j = rng.choice([2 ** 31 - 1, -2 ** 31])
            r = self.either(op, lambda: x[i, j], lambda: m[idx(i, m.r), idx(j, m.c)], "%s [%d, %d]" % (shape, i, j))
            if r: self.same(op, r[0], r[1], "[%d, %d]" % (i, j)); self.ctx.event("slices")
            return
        elif op == "row":
            i = rng.choice([rng.randint(-m.r - 2, m.r + 1), rng.randint(0, max(m.r - 1, 0)), 2 ** 31 - 1 if rng.random() < 0.1 else 0, -2 ** 31 if rng.random() < 0.1 else -1])
            def model():
                k = idx(i, m.r)
                return m.e[k] if m.c == 1 else M(1, m.c, m.rows()[k])
            r = self.either(op, lambda: x[i], model, "%s [%d]" % (shape, i))
            if not r: return
            self.ctx.event("slices")
            if m.c == 1:
                self.same(op, r[0], r[1], "[%d]" % i)
                return
            res = r
        elif op == "slice":
            def sl(d):
                f = lambda: rng.choice([None, rng.randint(-d - 2, d + 2), rng.randint(0, d)])
                return slice(f(), f(), rng.choice([None, None, 1, -1, 2, -2, 3]))
            how = rng.randint(0, 3)
            a, b = sl(m.r), sl(m.c)
            ri, ci = range(m.r)[a], range(m.c)[b]
            i, j = rng.randint(-m.r - 1, m.r), rng.randint(-m.c - 1, m.c)
            note = "%s how=%d %r %r %d %d" % (shape, how, a, b, i, j)
            if how == 0: res = self.either(op, lambda: x[a], lambda: M(len(ri), m.c, [e for k in ri for e in m.rows()[k]]), note)
            elif how == 1: res = self.either(op, lambda: x[a, b], lambda: M(len(ri), len(ci), [m[p, q] for p in ri for q in ci]), note)
            elif how == 2:
                def model():
                    if not len(ci): idx(i, m.r) if m.r else None
                    return M(1, len(ci), [m[idx(i, m.r), q] for q in ci])
                if not len(ci) and not -m.r <= i < m.r: return
                res = self.either(op, lambda: x[i, b], model, note)
            else:
                if not len(ri) and not -m.c <= j < m.c: return
                res = self.either(op, lambda: x[a, j], lambda: M(len(ri), 1, [m[p, idx(j, m.c)] for p in ri]), note)
            if res: self.ctx.event("slices")
        elif op == "iterate":
            its = list(x)
            if len(its) != m.r: self.fail(op, "%d rows were iterated over, expected %d" % (len(its), m.r))
            for k, it in enumerate(its):
                if m.c == 1: self.same(op, it, m.e[k], "row %d" % k)
                else: self.check(op, it, M(1, m.c, m.rows()[k]))
            ls = x.to_list()
            if [len(r) for r in ls] != [m.c] * m.r: self.fail(op, "to_list has rows of %r" % ([len(r) for r in ls],))
            for k, e in enumerate(e for r in ls for e in r): self.same("to_list", e, m.e[k], "element %d" % k)
            return
        elif op == "map":
            q, v = self.elem(rng, "rat")
            seen = []
            res = x.unary_map(lambda e: (seen.append(e), e * e + q)[1]), M(m.r, m.c, [pw(lambda a, b: a * a + b, a, v) for a in m.e])
            if len(seen) != m.r * m.c: self.fail(op, "the function was called %d times" % len(seen))
        elif op == "norm":
            self.trail.append("norm " + shape)
            t = [Fr(0)] * K
            for e in m.e: t = add(t, mul(e, e))
            self.same(op, x.squared_norm(), t, "squared_norm")
            self.same(op, x.norm() ** 2, t, "norm ** 2")
            return
        elif op == "det":
            if rng.random() < 0.75:
                k = rng.choice([1, 2, 3, 4, 4, 5, 6] if self.tier == "quick" else [1, 2, 3, 4, 4, 5, 6, 7])
                x, m = self.square(rng, k)
            self.trail.append("det %dx%d" % (m.r, m.c))
            def model():
                if m.r != m.c or m.r == 0: raise DimErr()
                return [None if any(e[p] is None for e in m.e) else det([[m[i, j][p] for j in range(m.c)] for i in range(m.r)]) for p in range(K)]
            r = self.either(op, rng.choice([lambda: s.det(x), lambda: x.det()]), model, str(x)[:300])
            if r:
                self.same(op, r[0], r[1], "determinant")
                self.ctx.event("determinants")
                self.ctx.distinct("det %d" % m.r)
            return
        elif op == "lu":
            if rng.random() < 0.75:
                k = rng.choice([1, 2, 3, 4, 4, 5, 6])
                x, m = self.square(rng, k, k + rng.choice([0, 0, 0, 1, 2]))
            self.trail.append("full_piv_lu %dx%d of %s" % (m.r, m.c, str(x)[:300]))
            if m.r > m.c or m.r * m.c == 0:
                self.expect_error(op, lambda: s.full_piv_lu(x))
                return
            P, L, U, Q = s.full_piv_lu(x)
            for z, d, nm in ((P, m.r, "P"), (Q, m.c, "Q"), (L, m.r, "L")):
                if tuple(z.shape) != (d, d): self.fail(op, "%s has shape %r" % (nm, tuple(z.shape)))
            if tuple(U.shape) != (m.r, m.c): self.fail(op, "U has shape %r" % (tuple(U.shape),))
            zero, one = s.integer(0), s.integer(1)
            for z, d, nm in ((P, m.r, "P"), (Q, m.c, "Q")):
                b = [[{"0": 0, "1": 1}.get(str(e), 9) for e in row] for row in z.to_list()]
                if any(sum(row) != 1 for row in b) or any(sum(col) != 1 for col in zip(*b)): self.fail(op, "%s is not a permutation: %s" % (nm, z))
            for i in range(m.r):
                for j in range(m.r):
                    if j > i and not L[i, j].is_identical_to(zero) or i == j and not L[i, j].is_identical_to(one): self.fail(op, "L is not unit lower triangular: %s" % L)
                for j in range(min(i, m.c)):
                    if not U[i, j].is_identical_to(zero): self.fail(op, "U is not upper triangular: %s" % U)
            V = [[[values(e, self.envs) for e in row] for row in z.to_list()] for z in (P, L, U, Q)]
            for p in range(K):
                A = [[[e[p] for e in row] for row in z] for z in V]
                if any(e is None for z in A for row in z for e in row): continue
                B = A[0]
                for z in A[1:]:
                    B = [[sum((B[i][k] * z[k][j] for k in range(len(z))), Fr(0)) for j in range(len(z[0]))] for i in range(len(B))]
                for i in range(m.r):
                    for j in range(m.c):
                        if m[i, j][p] is not None and B[i][j] != m[i, j][p]:
                            self.fail(op, "P*L*U*Q differs from the input at (%d, %d): %s, expected %s" % (i, j, B[i][j], m[i, j][p]))
                        self.ctx.event("elements compared")
            self.ctx.event("factorisations")
            self.ctx.distinct("lu %d %d" % (m.r, m.c))
            return
        elif op == "where":
            a, va = self.elem(rng, "sym")
            b, vb = self.elem(rng, "rat")
            def model():
                if (m.r, m.c) != (n.r, n.c): raise DimErr()
                return M(m.r, m.c, [[p if q < t else u for p, u, q, t in zip(e, f, va, vb)] for e, f in zip(m.e, n.e)])
            res = self.either(op, lambda: s.where(a < b, x, y), model, shape)
        elif op == "diff":
            nm = rng.choice(NAMES)
            d = x.diff(gen.symbol(nm))
            if tuple(d.shape) != (m.r, m.c): self.fail(op, "shape is %r" % (tuple(d.shape),))
            for k, (e, f) in enumerate(zip(x.to_flat_list(), d.to_flat_list())):
                self.same(op, f, values(e.diff(gen.symbol(nm)), self.envs), "element %d" % k)
            return
        elif op == "jacobian":
            vs = [gen.symbol(q) for q in rng.sample(NAMES, rng.randint(1, 3))]
            self.trail.append("jacobian " + shape)
            def model():
                if (m.r != 1 and m.c != 1) or m.r * m.c == 0: raise DimErr()
                return M(m.r * m.c, len(vs), [values(e.diff(v), self.envs) for e in x.to_flat_list() for v in vs])
            fn = rng.choice([lambda: x.jacobian(vs), lambda: x.jacobian(s.vector(*vs)), lambda: s.jacobian(x, vs), lambda: s.jacobian(x, s.row_vector(*vs)), lambda: s.jacobian(x, s.vector(*vs).T)])
            res = self.either(op, fn, model, shape)
            if res is None: return
            self.check(op, *res)
            return
        elif op == "subs":
            nm = rng.choice(NAMES)
            v = Fr(rng.randint(1, 5), rng.randint(1, 3))
            z = x.subs(gen.symbol(nm), s.rational(v.numerator, v.denominator))
            if tuple(z.shape) != (m.r, m.c): self.fail(op, "shape is %r" % (tuple(z.shape),))
            old = self.envs
            want = []
            for e in x.to_flat_list():
                want.append(values(e, [dict(env, **{nm: v}) for env in old]))
            for k, e in enumerate(z.to_flat_list()):
                self.same(op, e, want[k], "element %d" % k)
            return
        elif op == "rewrite":
            z = rng.choice([lambda: x.distribute(), lambda: x.collect(gen.symbol(rng.choice(NAMES))), lambda: x.collect([gen.symbol("x"), gen.symbol("y")])])()
            self.check(op, z, m)
            return
        elif op == "numpy":
            import numpy as np
            vals = [v[0] for v in m.e]
            if any(v is None for v in vals) or m.r * m.c == 0: return
            if any(abs(v.numerator) > 2 ** 31 or v.denominator != 1 for v in vals): return       # rationals do not convert
            z = x.subs([(gen.symbol(q), s.rational(v.numerator, v.denominator)) for q, v in self.envs[0].items()])
            a = np.array(z.eval(), dtype=float)
            if a.shape != (m.r, m.c): self.fail(op, "eval() has shape %r" % (a.shape,))
            w = np.array([float(v) for v in vals]).reshape(m.r, m.c)
            if not np.allclose(a, w, rtol=1e-9, atol=1e-9): self.fail(op, "eval() is %r, expected %r" % (a.tolist(), w.tolist()))
            b = np.asarray(z)
            if b.shape != (m.r, m.c) or not np.allclose(np.asarray(b, dtype=float), w, rtol=1e-9, atol=1e-9): self.fail(op, "__array__ is %r" % (b,))
            self.ctx.event("elements compared", 2 * m.r * m.c)
            if all(float(v) == v for v in vals): self.check("from_numpy", s.matrix(b), approx(M(m.r, m.c, [[v] * K for v in vals])))
            return
        elif op == "identity":
            same = s.matrix(x.to_list()) if m.r and m.c else x[:, :]
            if not same.is_identical_to(x) or not (same == x): self.fail(op, "a copy is not identical to %s" % x)
            if hash(same) != hash(x): self.fail(op, "a copy has another hash")
            if (m.r, m.c) != (m.c, m.r) and m.r * m.c > 0 and x.reshape(m.c, m.r).is_identical_to(x): self.fail(op, "a reshaped matrix is identical")
            if m.r * m.c:
                k = rng.randrange(m.r * m.c)
                es = x.to_flat_list()
                es[k] = es[k] + 1
                if s.vector(*es).reshape(m.r, m.c).is_identical_to(x): self.fail(op, "a matrix with one changed element is identical")
            self.ctx.event("identity checks")
            return
        if res is not None:
            self.check(op, *res)
            if res[1].r * res[1].c <= 60 and self.sane(res[0]):
                pool.append(res)

    def sane(self, x):
        return len(str(x)) < 6000

    def square(self, rng, r, c=None):
        """Matrices whose factorisation needs pivoting: sparse, permuted, rank deficient, block structured."""
        c = c if c is not None else r
        how = rng.randint(0, 4)
        z = [Fr(0)] * K
        s = self.s
        if how == 0:
            return self.matrix(rng, r, c)
        E = [[(s.integer(0), z) for _ in range(c)] for _ in range(r)]
        if how in (1, 2):        # permuted triangular
            p, q = rng.sample(range(r), r), rng.sample(range(c), c)
            for i in range(r):
                E[p[i]][q[i]] = self.elem(rng, rng.choice(["int", "sym"]) if r < 5 else "int")
                for j in range(i + 1, c):
                    if rng.random() < (0.3 if how == 1 else 0.7): E[p[i]][q[j]] = self.elem(rng, "int")
        elif how == 3:           # rank deficient
            k = rng.randint(1, max(1, r - 1))
            A = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(r)]
            B = [[rng.randint(-3, 3) for _ in range(c)] for _ in range(k)]
            for i in range(r):
                for j in range(c):
                    v = sum(A[i][t] * B[t][j] for t in range(k))
                    E[i][j] = (s.integer(v), [Fr(v)] * K)
        else:
            for i in range(r):
                for j in range(c):
                    if rng.random() < 0.45: E[i][j] = self.elem(rng, "sym" if r < 5 and rng.random() < 0.5 else "int")
        return s.matrix([[e for e, _ in row] for row in E]), of([[v for _, v in row] for row in E])


def approx(m):
    return M(m.r, m.c, [[None if v is None else float(v) for v in e] for e in m.e])


OPS = ["add", "sub", "matmul", "matmul", "scale", "neg", "transpose", "vec", "reshape", "hstack", "row_join", "vstack", "col_join", "stack_rows", "ragged", "empty", "diag", "diag_scalars", "constant",
       "index", "index", "row", "row", "slice", "slice", "slice", "slice", "iterate", "map", "norm", "det", "det", "det", "lu", "lu", "lu", "where", "diff", "jacobian", "subs", "rewrite", "numpy", "identity"]
