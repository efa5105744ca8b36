"""C05: common-subexpression elimination is lossless, ordered and extracts what is shared."""
import ast, collections, random
from .. import gen, ref, tree
from ..worker import Violation
from .c01 import ValueCheck, N, documented
from .c03 import replace, nodes

RULE = ("random scalar and matrix expressions with shared sub-expressions (conditions, symbolic functions and deferred nodes included), minimum occurrences 1-4, "
        "default and user-supplied variable factories; variables are expanded from last to first in the parsed trees and compared with the stored input, exactly "
        "(modulo the order of operands) or by value; occurrences are counted in the input; non-trivial if something was extracted; distinct by request")
MIN_EVENTS = {"extracted": 3000, "reproduced exactly": 2000, "matrices": 300, "factory calls": 500, "expressions with many occurrences": 100}
LEAF = ("int", "rat", "flt", "sym", "uniq", "farg", "pi", "e", "i", "zoo", "nan", "true", "false")


def norm(n, memo=None):
    """Operands of sums and products in a canonical order."""
    if not gen.is_node(n):
        return n
    k = [norm(c) if gen.is_node(c) else c for c in n[1:]]
    if n[0] in ("add", "mul"):
        k.sort(key=repr)
    if n[0] == "rel" and n[1] == "==":
        k[1:] = sorted(k[1:], key=repr)
    return (n[0],) + tuple(k)


def scalar_nodes(n):
    return [m for m in nodes(n, []) if m[0] not in ("rel", "matrix", "true", "false")]


class Check(ValueCheck):
    RANDOM = {"quick": 12000, "thorough": 500000}

    def __init__(self, ctx, tier, seed):
        super().__init__(ctx)
        self.tier = tier
        self.s = gen.sym()

    def total(self):
        return self.RANDOM[self.tier]

    def run(self, i, rng):
        if i % 80 == 79:
            return self.many(rng)
        k = rng.random()
        real = rng.random() < 0.4
        deferred = rng.random() < 0.08
        g = gen.Gen(rng, real=real, symfn=0.08, cond=0.15, uneval=0.03)
        cnt = rng.randint(1, 4) if k < 0.7 else rng.choice([4, 6])
        base = [g.node(rng.choice([1, 2])) for _ in range(rng.randint(1, 3))]
        els = []
        for _ in range(cnt):
            n = g.node(rng.choice([2, 3]))
            for b in base:
                if rng.random() < 0.6:
                    f = rng.choice(["sin", "cos", "exp", "abs", "cosh", "atan"])
                    n = rng.choice([("add", n, ("fn", f, b)), ("mul", n, b), ("fn", f, ("add", n, b)), ("pow", ("add", b, n), N(2)), ("where", ("rel", "<", ("sym", "ra"), ("sym", "rb")), b, n),
                                    ("symfn", "q", b, n)])
            if deferred:
                v = ("sym", rng.choice(sorted(ref.symbols(n)) or ["ra"]))
                d = rng.choice([("deriv", 1, ("symfn", "g", v, ("fn", "sin", v)), v), ("subst", ("symfn", "g", v, ("fn", "sin", v)), v, ("fn", "sin", ("sym", "rc"))),
                                ("deriv", 1, ("symfn", "g", v, base[0]), v)])
                n = ("add", n, d, ("fn", "cos", d), ("fn", "sin", v))
            els.append(n)
        if k < 0.7:
            n = els[0]
            for e in els[1:]:
                n = ("add", n, ("fn", rng.choice(["sin", "abs", "exp"]), ("mul", e, els[0])))
            els, shape = [n], None
        else:
            shape = rng.choice([(1, cnt), (cnt, 1), (2, cnt // 2)]) if cnt % 2 == 0 else (1, cnt)
        case = (rng.randint(0, 3), tuple(els), shape, rng.choice([2, 2, 2, 2, 1, 3, 4]), rng.choice([None, "t", "uniq"]))
        if sum(ref.size(e) for e in els) > 400:
            return
        self.go(case, rng)

    def many(self, rng):
        """A few expressions that occur a great many times: counts around powers of two and the minimum."""
        g = gen.Gen(rng, real=True)
        n = rng.choice([60, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, rng.randint(30, 600)])
        cores = [("fn", rng.choice(["sin", "exp", "cosh", "atan"]), g.node(1)) for _ in range(rng.choice([1, 1, 2, 3]))]
        ks = [n] + [rng.randint(1, n) for _ in cores[1:]]
        els = []
        for j in range(n):
            e = N(j + 2)
            for c, m in zip(cores, ks):
                if j < m: e = ("add", e, c) if rng.random() < 0.9 else ("add", e, ("mul", c, ("sym", "zq%d" % j)))
            els.append(e)
        least = rng.choice([2, 2, 3, n - 1, n, n + 1, 255, 256, 257, 1])
        self.ctx.event("expressions with many occurrences")
        self.go((0, tuple(els), rng.choice([(n, 1), (1, n)]), least, rng.choice([None, None, "t"])), rng)

    def go(self, case, rng):
        self.ctx.describe(repr(case))
        if self.ctx.n % 60 == 0:
            self.ctx.sample(repr(case))
        seed = rng.randint(0, 10 ** 9)
        msg = self.outcome(case, seed)
        if msg:
            if case[2] is None:
                small = gen.shrink(case[1][0], lambda m: self.outcome(case[:1] + ((m,),) + case[2:], seed, False) is not None)
                case = case[:1] + ((small,),) + case[2:]
                msg = self.outcome(case, seed, False) or msg
            self.ctx.violation("cse: " + repr(case[1])[:250], msg, repr(case))

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        for j in range(4):
            msg = self.outcome(case, j)
            if msg:
                raise Violation("cse", msg)

    def outcome(self, case, seed, count=True):
        try:
            return self.judge_case(case, random.Random(seed), count)
        except (ref.Unsupported,) as ex:
            return None
        except Exception as ex:
            if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError", "TypeError"):
                if self.undefined:
                    return None     # values that are not numbers were re-simplified
                # a variable has no declared set: nothing may become invalid by introducing one
                return "elimination raised %s: %s" % (type(ex).__name__, str(ex)[:300])
            if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError, IndexError)):
                return "raised %s: %s" % (type(ex).__name__, str(ex)[:400])
            raise

    def k1(self, n, env):
        """Whether the value may differ by K1: a complex inner exponent is hidden behind an (undeclared) variable."""
        env = dict(env, xi=ref.mpc(0, 1))
        for x in ref.symbols(n):
            if gen.symbol_set(x) == "complex":
                n = replace(n, ("sym", x, "complex"), ("sym", "x" + x, "unknown"))
                env["x" + x] = env[x]
        n = replace(n, ("i",), ("sym", "xi", "unknown"))
        return bool(ref.known_classes(n, env, ref.has_float(n)))

    def judge_case(self, case, rng, count):
        style, els, shape, least, fac = case
        s = self.s
        b = gen.Builder(style)
        try:
            es = [b(n) for n in els]
        except Exception as ex:
            if documented(ex) or isinstance(ex, OverflowError):
                return None
            raise
        calls, made = [], []
        if fac is None:
            factory = None
        else:
            def factory(k):
                calls.append(k)
                v = s.symbols("t%d_" % k) if fac == "t" else s.symbols("t%d_" % k, complex=True)
                made.append(v)
                return v
        self.undefined = any(ref.contains(tree.of(e), ("nan", "zoo")) for e in es)
        if shape is None:
            t0 = [tree.of(es[0])]
            out, reps = s.eliminate_subexpressions(es[0], factory, least)
            t1 = [tree.of(out)]
        else:
            M = s.matrix([es[r * shape[1]:(r + 1) * shape[1]] for r in range(shape[0])])
            t0 = [tree.of(M[r, c]) for r in range(shape[0]) for c in range(shape[1])]
            if style % 2 or factory is not None:
                out, reps = s.eliminate_subexpressions(M, factory, least)
            else:
                out, reps = s.eliminate_subexpressions(M, min_occurences=least)
            if tuple(out.shape) != shape:
                return "shape %s became %s" % (shape, out.shape)
            t1 = [tree.of(out[r, c]) for r in range(shape[0]) for c in range(shape[1])]
            if count: self.ctx.event("matrices")
        pairs = [(tree.of(v), tree.of(e)) for v, e in reps]
        # -- the variables: as made, in order, distinct, not part of the input
        if factory is not None:
            if calls != list(range(len(calls))):
                return "the factory was called with %s" % calls
            if [tree.of(v) for v in made] != [p[0] for p in pairs]:
                return "the pairs use %s instead of the variables of the factory" % ([p[0] for p in pairs],)
            if count: self.ctx.event("factory calls", len(calls))
        else:
            want = [("sym", "v%d" % k, "unknown") for k in range(len(pairs))]
            if [p[0] for p in pairs] != want:
                return "default variables are %s" % ([p[0] for p in pairs],)
        vs = [p[0] for p in pairs]
        # -- each used only after it is defined, and used at all
        seen = set()
        for k, (v, e) in enumerate(pairs):
            late = [m for m in nodes(e, []) if m in vs and m not in seen]
            if late:
                return "pair %d uses %s before it is defined: %r" % (k, late[0][1], pairs)
            seen.add(v)
        # -- expansion, last to first
        back = list(t1)
        exp = [e for _, e in pairs]
        for k in range(len(pairs) - 1, -1, -1):
            v, e = pairs[k]
            back = [replace(n, v, e) for n in back]
            for j in range(k + 1, len(pairs)):
                exp[j] = replace(exp[j], v, e)
            if sum(ref.size(n) for n in back) > 40000:
                return None
        n0, n1 = [norm(n) for n in t0], [norm(n) for n in back]
        exact = n0 == n1
        if exact:
            if count: self.ctx.event("reproduced exactly")
        else:
            if count: self.ctx.event("reproduced by value only")
            for a, c in zip(t0, back):
                if ref.contains(a, ("deriv", "subst")) or ref.contains(c, ("deriv", "subst")):
                    a, c = norm(a), norm(c)
                    da = {m for m in nodes(a, []) if m[0] in ("deriv", "subst")}
                    dc = {m for m in nodes(c, []) if m[0] in ("deriv", "subst")}
                    if da != dc:
                        if all(ref.size(m) <= 10 for m in da ^ dc):
                            return "deferred nodes %r became %r; pairs %r" % (sorted(da - dc), sorted(dc - da), pairs)
                        if count: self.ctx.event("deferred nodes re-simplified")
                        continue
                    for k, m in enumerate(sorted(da, key=ref.size, reverse=True)):
                        a, c = replace(a, m, ("sym", "zd%d" % k, "complex")), replace(c, m, ("sym", "zd%d" % k, "complex"))
                for _ in range(3):
                    names = sorted(ref.symbols(a))
                    env = gen.point(names, rng)
                    if ref.symbols(c) - set(names):
                        return "symbols appeared: %s" % (ref.symbols(c) - set(names))
                    r, why = ref.compare(a, c, env)
                    if r == ref.Agreement.DIFFER and not self.k1(a, env):
                        return "%s at %s; pairs %r; result %r" % (why, {x: str(y) for x, y in env.items()}, pairs, t1)
        if count: self.ctx.event("extracted", len(pairs))
        # -- occurrences in the input, where the expansions are exact
        if exact:
            occ = collections.Counter()
            edges = collections.defaultdict(set)    # sub-expression -> distinct parents (with position multiplicity)
            for r, n in enumerate(n0):
                for m in scalar_nodes(n):
                    occ[m] += 1
            for k, e in enumerate(exp):
                c = occ[norm(e)]
                if c < least:
                    return "pair %d extracts an expression that occurs %d time(s), minimum %d: %r" % (k, c, least, exp[k])
                if e[0] in LEAF:
                    return "pair %d extracts the leaf %r" % (k, e)
            # -- nothing that is still used that often by distinct parents remains
            if least >= 2:
                cnt = collections.Counter()
                visited = set()

                def walk(n, root=False):
                    for ch in n[1:]:
                        if not gen.is_node(ch):
                            continue
                        if ch[0] not in LEAF and ch[0] not in ("rel",):
                            cnt[ch] += 1
                        if ch not in visited:
                            visited.add(ch)
                            walk(ch)
                for _, e in pairs:
                    walk(e)
                if shape is None:
                    walk(t1[0])
                else:
                    walk(("matrix", 0, 0) + tuple(t1))
                for e, c in cnt.items():
                    if c >= least:
                        return "%r is still used %d times (minimum %d): %r; pairs %r" % (e, c, least, t1, pairs)
                if count: self.ctx.event("remaining uses counted")
        # -- through the library's own substitution
        if style % 2 == 0 and len(pairs) <= 12 and (shape is None or len(t0) <= 4):
            o = out
            for v, e in reversed(list(reps)):
                o = o.subs(v, e)
            oe = [o] if shape is None else [o[r, c] for r in range(shape[0]) for c in range(shape[1])]
            for a, c in zip(t0, oe):
                c = tree.of(c)
                if norm(c) == norm(a):
                    if count: self.ctx.event("substituted back exactly")
                    continue
                if ref.contains(a, ("deriv", "subst", "nan", "zoo")):
                    continue
                for _ in range(2):
                    env = gen.point(sorted(ref.symbols(a)), rng)
                    r, why = ref.compare(a, c, env)
                    if r == ref.Agreement.DIFFER and not self.k1(a, env):
                        return "substituting back: %s at %s; pairs %r; result %r" % (why, {x: str(y) for x, y in env.items()}, pairs, c)
        if count and pairs:
            self.ctx.distinct(repr(case))
        return None
