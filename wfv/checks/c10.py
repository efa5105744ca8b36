"""C10: outputs, custom types and external calls are mapped to the right values."""
import ast, itertools, random
from .. import fd, gen, ref, tree, pyexec, cxx, rust
from ..worker import Violation
from . import c06, c07, c09
from .c09 import build, observe, compare, minimise, request, to_env
from .c03 import nodes

RULE = ("random signatures: up to ten arguments, nested custom types, opaque types, matrices of every small shape, external functions called by position and keyword on expressions, matrices, custom types, arguments and results of "
        "other calls, up to seven outputs whose elements carry distinguishable values; generated as Python (returned and written outputs), C++ (span and Eigen) and Rust, executed for every subset of requested optional outputs; "
        "values, absence, dependence on the subset, writes per element and the recorded arguments of external calls are compared with the request; non-trivial if outputs were decided; distinct by signature and configuration")
MIN_EVENTS = {"outputs decided": 60000, "subsets of optional outputs": 4000, "external calls matched": 8000, "calls needed and seen": 3000, "element writes counted": 4000, "signatures checked": 900, "opaque arguments": 100,
              "functions c++": 150, "functions rust": 70, "misshapen struct values refused": 150, "forced paths": 800}
F, I = fd.F, fd.I
FIELDS = ["a", "b", "pos", "v_", "Q", "data", "x", "self_", "w"]


def struct_pool(rng):
    out = []
    for k in range(rng.randint(1, 4)):
        fields = []
        for j in range(rng.randint(1, 4)):
            q = rng.random()
            if q < 0.4: t = F
            elif q < 0.5: t = I
            elif q < 0.75 or not out: t = shape(rng)
            else: t = rng.choice(out)
            fields.append(("%s%d" % (rng.choice(FIELDS), j), t))
        out.append(("s", "S%d%s" % (k, rng.choice(["", "tate", "_t"])), tuple(fields)))
    return out


def shape(rng):
    return ("m", rng.randint(1, 4), rng.randint(1, 4)) if rng.random() < 0.8 else ("m",) + rng.choice([(1, 6), (6, 1), (5, 2), (2, 5)])


def wiring_spec(rng, lang):
    st = struct_pool(rng) if rng.random() < 0.75 else []
    if lang == "span":
        st = [t for t in st if not c06.has_matrix(t)]
    opq = [("s", "Opq%d" % k, (("token", F),)) for k in range(2)] if rng.random() < 0.25 else []

    def typ(scalar, out=False):
        k = rng.random()
        if k < scalar: return I if rng.random() < 0.25 else F
        if st and k > 0.65: return rng.choice(st)
        return shape(rng)
    pool = ["rx", "ry", "rtheta", "rq", "ra_b", "rX", "rlong_name", "rw2", "rT", "rM", "rx_1", "rx1"]
    rng.shuffle(pool)
    args = [(pool.pop(), typ(0.45)) for _ in range(rng.choice([1, 2, 3, 4, 6, 9]))]
    if opq: args += [(pool.pop(), rng.choice(opq)) for _ in range(rng.randint(1, 2))]
    rng.shuffle(args)
    fs, is_ = [], []
    for a, t in args:
        if not fd.opaque(t):
            for k, y in enumerate(fd.flat_types(t)): (fs if y == "f" else is_).append(("sym", "%s#%d" % (a, k)))
    exts = []
    for k in range(rng.choice([0, 1, 2, 3]) if not opq else rng.choice([1, 2, 3])):
        def etype():
            if opq and rng.random() < 0.35: return rng.choice(opq)
            t = typ(0.5)
            return F if t == I or lang == "span" and t[0] == "m" else t     # scalar arguments are floating point
        ret = etype()
        exts.append(("ext_%s%d" % (rng.choice(["a", "b", "long_name"]), k), tuple(("p%d" % j, etype()) for j in range(rng.choice([1, 1, 2, 3, 5]))), ret))
    calls, level = [], [0]

    def lit():
        return rng.choice([("int", rng.randint(-3, 9)), ("flt", rng.choice([0.5, -1.25, 2.0])), ("rat", rng.choice([1, -5, 7]), 3)])

    def leaf():
        return rng.choice(fs) if fs and rng.random() < 0.8 else (rng.choice(is_) if is_ and rng.random() < 0.6 else lit())

    def simple():
        q = rng.random()
        if q < 0.45: return leaf()
        if q < 0.75: return ("add", ("mul", lit(), leaf()), leaf())
        return ("fn", rng.choice(["sin", "cos", "atan", "tanh"]), ("add", leaf(), lit()))

    def integer():
        n = rng.choice(is_) if is_ and rng.random() < 0.8 else ("int", rng.randint(-4, 9))
        return ("add", n, ("int", rng.randint(1, 5))) if rng.random() < 0.3 else n

    def call():
        if calls and rng.random() < 0.4: return rng.choice(calls)
        d = rng.choice(exts)
        a = []
        level[0] += 1
        for _, t in d[1]:
            same = [x for x, u in args if u == t and t[0] == "s"]
            res = [c for c in calls if next(e[2] for e in exts if e[0] == c[1]) == t and t[0] in "sm"]
            if fd.opaque(t):
                if res and rng.random() < 0.5 or not same: a.append(("result", rng.choice(res)) if res else None)
                else: a.append(("arg", rng.choice(same)))
                if a[-1] is None:
                    level[0] -= 1
                    return None
            elif same and rng.random() < 0.4: a.append(("arg", rng.choice(same)))
            elif res and rng.random() < 0.4: a.append(("result", rng.choice(res)))
            elif t == F: a.append(("scalar", element(0) if len(calls) < 12 and level[0] < 3 else simple()))
            else:
                ns = tuple(simple() if y == "f" else integer() for y in fd.flat_types(t))
                a.append(("mat", t[1], t[2], ns) if t[0] == "m" else ("struct", t, ns))
        level[0] -= 1
        c = ("extcall", d[0], tuple(a))
        calls.append(c)
        return c

    def ext_leaf():
        for _ in range(4):
            c = call()
            if c is not None:
                ret = next(e[2] for e in exts if e[0] == c[1])
                if not fd.opaque(ret): return c + (rng.randrange(fd.flat(ret)),)
        return simple()

    def element(depth=2):
        q = rng.random()
        if exts and q < 0.3: return ext_leaf()
        if q < 0.6 or depth == 0: return simple()
        if q < 0.75 and shared: return ("add", rng.choice(shared), ("mul", lit(), simple()))
        if q < 0.9: return ("where", ("rel", rng.choice(["<", "<=", "=="]), leaf() if fs or is_ else ("sym", "none"), simple()), element(depth - 1), element(depth - 1)) if fs or is_ else simple()
        return ("mul", element(depth - 1), simple())
    shared = []
    kinds = ["ret"] if rng.random() < 0.65 else []
    n = rng.choice([0, 1, 2, 3, 4, 6]) if kinds else rng.choice([1, 2, 3, 4, 6])
    p = rng.choice([0.2, 0.5, 0.9])
    kinds += ["opt" if rng.random() < p else "out" for _ in range(n)]
    rng.shuffle(kinds)
    outs = []
    for j, k in enumerate(kinds):
        t = typ(0.4)
        if lang == "span" and k == "ret" and t[0] == "m": t = F
        if t == I: t = F        # scalar outputs are floating point
        ns = []
        for y in fd.flat_types(t):
            e = element() if y == "f" else integer()
            if y == "f": shared.append(e)
            ns.append(e)
        if rng.random() < 0.2 and (fs or is_) and "i" not in fd.flat_types(t):
            c = ("rel", rng.choice(["<", "<="]), leaf(), simple())
            if gen.is_node(c): ns = [("where", c, a, simple()) for a in ns]
        outs.append((k, "ret" if k == "ret" else "o_%d" % j, t, tuple(ns)))
    spec = dict(name="fn0", args=tuple(args), outputs=tuple(outs), exts=tuple(exts), structs=tuple(st))
    if sum(fd.ref_size(m) for o in outs for m in o[3]) > 500: return None
    if lang in ("span", "eigen") and any(fd.opaque(t) for _, t in args) and False: return None
    return spec


def subsets(opts, rng, most=6):
    every = [list(c) for r in range(len(opts) + 1) for c in itertools.combinations(opts, r)]
    if len(every) > most:
        every = [every[0], every[-1]] + rng.sample(every[1:-1], most - 2)
    return every


class Wiring:
    """What the executions of every back end are judged by."""

    def signature(self, spec, desc):
        """The description lists the arguments as declared."""
        want = [(a, "Input", t) for a, t in spec["args"]] + [(o[1], {"out": "Output", "opt": "OptionalOutput"}[o[0]], o[2]) for o in spec["outputs"] if o[0] != "ret"]
        got = list(desc.arguments)
        if len(got) != len(want):
            return "the description has %d arguments instead of %d" % (len(got), len(want))
        for g, (name, d, t) in zip(got, want):
            if g.name != name: return "argument %s is called %s" % (name, g.name)
            if str(g.direction).split(".")[-1] != d: return "argument %s has direction %s" % (name, g.direction)
            if not same_type(g.type, t): return "argument %s has type %s, declared %s" % (name, g.type, t)
        self.ctx.event("signatures checked")
        return None

    def calls(self, spec, trees, point, want, calls, count):
        """External functions get the requested arguments, and are called where an output needs them."""
        if not spec["exts"]: return None
        env = to_env(spec, point)
        need, may, vague = [], [], set()
        owners = {}
        for k, ts in enumerate(trees):
            for t in ts:
                for m in nodes(t, []):
                    if m[0] == "ext": owners.setdefault(m, set()).add(k)
        for k, (o, ts) in enumerate(zip(spec["outputs"], trees)):
            absent = o[0] == "opt" and o[1] not in want
            for t in ts:
                ev = fd.Real(env)
                try:
                    if not absent:
                        ev(t)
                        need += ev.calls
                except (ref.Undefined, ref.Ambiguous, ZeroDivisionError, OverflowError):
                    pass
                for m in nodes(t, []):
                    # what several outputs share may be computed ahead of all of them
                    if m[0] != "ext" or absent and len(owners[m]) < 2: continue
                    ev = fd.Real(env)
                    try:
                        ev(m)
                        may += ev.calls
                    except (ref.Undefined, ref.Ambiguous, ZeroDivisionError, OverflowError):
                        vague.add(m[1])
        for name, a in calls:
            if name in vague: continue
            if not any(n == name and close(a, b) for n, b in may):
                return "%s was called with %s; the requested calls are %s" % (name, a, [[float(x) for x in b] for n, b in may if n == name])
            if count: self.ctx.event("external calls matched")
        for name, b in need:
            if not any(n == name and close(a, b) for n, a in calls):
                return "%s was never called with %s; recorded calls: %s" % (name, [float(x) for x in b], calls)
            if count: self.ctx.event("calls needed and seen")
        return None

    def independent(self, spec, res, points, wants, count):
        """The values of an output do not depend on which others were requested."""
        rows = {}
        for p, w, r in zip(points, wants, res):
            if isinstance(r, str): continue
            for o, v in zip(spec["outputs"], r[0]):
                if v is None: continue
                k = (tuple(p), o[1])
                x = [float(e).hex() for e in v]
                if rows.setdefault(k, x) != x:
                    return "output %s is %s when %s are requested and %s otherwise" % (o[1], v, w, [float.fromhex(e) for e in rows[k]])
                if count: self.ctx.event("outputs compared across subsets")
        return None


def same_type(g, t):
    n = type(g).__name__
    if t[0] in "fi": return n == "ScalarType" and str(g.numeric_type).split(".")[-1] == ("Float" if t == F else "Integer")
    if t[0] == "m": return n == "MatrixType" and tuple(g.shape) == t[1:]
    if n != "CustomType" or g.name != t[1]: return False
    if fd.opaque(t): return g.total_size == 0 and len(g.fields) == 0
    return g.total_size == fd.flat(t) and [f.name for f in g.fields] == [f for f, _ in t[2]] and all(same_type(f.type, x) for f, (_, x) in zip(g.fields, t[2]))


def close(a, b):
    return len(a) == len(b) and all(abs(x - float(y)) <= 1e-7 * max(1, abs(float(y))) for x, y in zip(a, b))


def expand(points, opts, rng):
    """The same points for several subsets of the optional outputs."""
    p, w = [], []
    for x in points:
        for s in subsets(opts, rng):
            p.append(x)
            w.append(s)
    return p, w


class Native(Wiring, c06.Check):
    """C++ and Rust."""
    NPOINTS = 2

    def __init__(self, ctx, tier, lang):
        self.ctx, self.tier, self.lang = ctx, tier, lang
        self.runner = (rust if lang == "rust" else cxx).Runner("c10" + lang)
        import atexit
        atexit.register(self.runner.close)

    def case(self, rng):
        while True:
            flavour = rng.choice(["span", "eigen"]) if self.lang == "c++" else "rust"
            spec = wiring_spec(rng, "eigen" if flavour == "eigen" else "span")
            if spec is not None: break
        return (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), flavour, "double", rng.randint(0, 7), rng.random() < 0.7, (rng.choice([0, 1, 3]), rng.random() < 0.5))

    def emit(self, case, desc):
        m = self.signature(case[0], desc)
        if m: raise ValueError(m)
        return c07.Check.emit(self, case, desc) if self.lang == "rust" else c06.Check.emit(self, case, desc)

    def overflows(self, code):
        return c07.Check.overflows(self, code) if self.lang == "rust" else c06.overflows(code)

    def batch(self, cases, count):
        ctx = self.ctx
        items, info, bad = [], [], []
        for case in cases:
            spec, rng = case[0], random.Random(case[2])
            try:
                built = build(spec, case[1], 2 ** 31)
                if built is None: continue
                f, desc, trees = built
                code = self.emit(case, desc)
            except Exception as ex:
                if c06.unsupported(ex):
                    if count: ctx.event("refused with a documented error")
                    continue
                if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError, IndexError, KeyError)):
                    bad.append((case, "raised %s: %s" % (type(ex).__name__, str(ex)[:600])))
                    continue
                raise
            if self.overflows(code): continue
            points, _, expect = observe(spec, trees, rng, self.NPOINTS, fd.EPS64, 64, 2 ** 31)
            opts = [o[1] for o in spec["outputs"] if o[0] == "opt"]
            P, W = expand(points, opts, rng)
            items.append(dict(spec=spec, code=code, flavour=case[3], scalar="double", layout=case[5], points=P, want=W))
            info.append((case, [expect[points.index(p)] for p in P], trees))
        if count: ctx.describe("batch of %r" % ([c for c, _, _ in info],))
        if not items: return bad
        for it, (case, expect, trees), res in zip(items, info, self.runner.run(items)):
            msg, dec = (res, 0) if isinstance(res, str) else compare(it["spec"], res, expect, it["want"])
            if not msg: msg = self.independent(it["spec"], res, it["points"], it["want"], count)
            if not msg:
                for p, w, r in zip(it["points"], it["want"], res):
                    msg = msg or not isinstance(r, str) and self.calls(it["spec"], trees, p, w, r[1], count) or None
            if msg:
                bad.append((case, "%s: %s\n%s" % (case[3], msg, it["code"])))
            elif count:
                ctx.event("functions " + self.lang)
                ctx.event("subsets of optional outputs", len(it["want"]))
                ctx.event("outputs decided", dec)
                if any(fd.opaque(t) for _, t in it["spec"]["args"]): ctx.event("opaque arguments")
                if dec: ctx.distinct(repr((case[0], case[3])))
        return bad


def misshapen(rng):
    """(struct, flattened types of the value's matrices): a struct value one of whose matrices has the wrong number of elements."""
    for _ in range(40):
        st = [t for t in struct_pool(rng) if c06.has_matrix(t)]
        if not st: continue
        t = rng.choice(st)
        mats = []

        def walk(x, path):
            if x[0] == "m": mats.append((path, x))
            if x[0] == "s":
                for f, y in x[2]: walk(y, path + (f,))
        walk(t, ())
        path, m = rng.choice(mats)
        new = shape(rng)
        if new[1] * new[2] == m[1] * m[2]: continue
        change = {path: new}
        others = [(p, x) for p, x in mats if p != path]
        if others and rng.random() < 0.6:
            # another field makes up for it, so that the total is right
            p, x = rng.choice(others)
            k = x[1] * x[2] + m[1] * m[2] - new[1] * new[2]
            if k > 0: change[p] = ("m", k, 1)
        return t, tuple(sorted(change.items())), rng.choice(["ret", "out", "opt", "ext"])
    return None


def misshapen_outcome(case):
    """Code must not be generated for a struct whose fields cannot hold what was assigned to them."""
    import wrenfold as wf
    from wrenfold import code_generation as cg, external_functions
    t, change, use = case
    change = dict(change)
    types = {}
    fd.annotation(t, types)
    s = gen.sym()
    names = iter("e%d" % k for k in range(200))

    def obj(x, path):
        x = change.get(path, x)
        if x[0] == "m":
            return s.matrix([[s.symbol(next(names)) for _ in range(x[2])] for _ in range(x[1])])
        if x[0] == "s":
            return types[x[1]](**{f: obj(y, path + (f,)) for f, y in x[2]})
        return s.symbol(next(names))
    fn = external_functions.declare_external_function("ext", arguments=[("a", fd.annotation(t, types))], return_type=fd.annotation(F, types))

    def f(rx):
        o = obj(t, ())
        if use == "ext": return wf.ReturnValue(fn(o) + rx)
        if use == "ret": return wf.ReturnValue(o)
        return [wf.OutputArg(o, name="out", is_optional=use == "opt")]
    f.__annotations__["rx"] = fd.annotation(F, types)
    try:
        desc = cg.create_function_description(f)
    except Exception:
        return None
    return "a struct was accepted although the matrix of field %s does not have the declared size (%s)" % (".".join(sorted(change)[0]), use)


class Check(Wiring):
    MISSHAPEN = {"quick": 200, "thorough": 3000}
    RANDOM = {"quick": 1300, "thorough": 40000}
    BATCHES = {"quick": 48, "thorough": 1600}

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.host = pyexec.Host("numpy", 64)
        self.native = {}
        import numpy as np
        np.seterr(all="ignore")

    def total(self):
        return self.RANDOM[self.tier] + self.BATCHES[self.tier] + self.MISSHAPEN[self.tier]

    def batches(self, lang):
        if lang not in self.native: self.native[lang] = Native(self.ctx, self.tier, lang)
        return self.native[lang]

    def run(self, i, rng):
        if i < self.BATCHES[self.tier]:
            return self.batches("rust" if i % 16 < 5 else "c++").run(i, rng)
        if i >= self.RANDOM[self.tier] + self.BATCHES[self.tier]:
            case = misshapen(rng)
            if case is None: return
            self.ctx.describe("misshapen %r" % (case,))
            msg = misshapen_outcome(case)
            if msg: self.ctx.violation("misshapen field accepted (%s)" % case[2], msg)
            self.ctx.event("misshapen struct values refused")
            return
        spec = wiring_spec(rng, "python")
        if spec is None:
            self.ctx.event("descriptions too large")
            return
        outargs = rng.random() < 0.35
        if outargs:
            outs = tuple((k, n, t if k == "ret" or t[0] == "m" else ("m", fd.flat(t), 1), ns) for k, n, t, ns in spec["outputs"])
            spec = dict(spec, outputs=outs)
        case = (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), "python", outargs, rng.random() < 0.6, rng.choice([0, 1, 3]), rng.random() < 0.5)
        self.ctx.describe(repr(case))
        if self.ctx.n % 20 == 0: self.ctx.sample(repr(case))
        msg = self.outcome(case)
        if msg:
            case, msg = minimise(case, lambda c: self.outcome(c, False)) or (case, msg)
            self.ctx.violation("python: %s" % msg[:140], msg, repr(case))

    def replay(self, text):
        if text.startswith("misshapen "):
            msg = misshapen_outcome(ast.literal_eval(text[10:]))
            if msg: raise Violation("replay", msg)
            return
        case = ast.literal_eval(text)
        if case[3] != "python":
            return self.batches("rust" if case[3] == "rust" else "c++").replay(text)
        self.ctx.describe(text)
        msg = self.outcome(case)
        if msg: raise Violation("replay", msg)

    outcome = c09.Check.outcome
    force = c09.Check.force

    def judge(self, case, count):
        from wrenfold import code_generation as cg
        spec, style, seed, _, outargs, ternaries, passes, binarize = case
        ctx, rng = self.ctx, random.Random(seed)
        built = build(spec, style)
        if built is None: return None
        f, desc, trees = built
        msg = self.signature(spec, desc)
        if msg: return msg
        points, _, expect = observe(spec, trees, rng, 3)
        P, W = expand(points, [o[1] for o in spec["outputs"] if o[0] == "opt"], rng)
        E = [expect[points.index(p)] for p in P]
        p = cg.OptimizationParams()
        p.factorization_passes, p.binarize_operations = passes, binarize
        code = c09.generator(outargs=outargs).generate(cg.transpile(desc, optimization_params=p, convert_ternaries=ternaries))
        req = request(spec, code, P, W, outargs=outargs, **(dict(counted=True) if outargs else {}))
        res = self.host.run(req)
        msg, dec = compare(spec, res, E, W)
        msg = msg or self.independent(spec, res, P, W, count)
        if not msg:
            for x, w, r in zip(P, W, res):
                if isinstance(r, str): continue
                msg = msg or self.calls(spec, trees, x, w, r[1], count)
                if outargs and len(r) > 2:
                    for o in spec["outputs"]:
                        if o[0] == "ret" or o[0] == "opt" and o[1] not in w: continue
                        c = r[2].get(o[1])
                        if c != [1] * fd.flat(o[2]):
                            msg = msg or "the elements of output %s were written %s times" % (o[1], c)
                        elif count: ctx.event("element writes counted", len(c))
        if not msg and ternaries and not outargs:
            msg = self.force(spec, code, points[0], rng, count)
        if msg:
            return "passes %d, binarized %s, control flow %s, output arguments %s: %s\n%s" % (passes, binarize, ternaries, outargs, msg, code)
        if count:
            ctx.event("functions python")
            ctx.event("subsets of optional outputs", len(W))
            ctx.event("outputs decided", dec)
            if any(fd.opaque(t) for _, t in spec["args"]): ctx.event("opaque arguments")
            if dec: ctx.distinct(repr((spec, outargs, ternaries)))
        return None
