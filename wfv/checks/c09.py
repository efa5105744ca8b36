"""C09: optimisation settings and control-flow conversion do not change what generated code computes."""
import ast, itertools, random, re
from .. import fd, gen, ref, tree, pyexec
from ..worker import Violation
from .c01 import documented
from .c03 import replace, nodes

RULE = ("random function descriptions (shared sub-expressions, nested conditionals, matrices, custom types, external functions, optional outputs) transpiled with "
        "0/1/2/3/6 factorisation passes x binarisation on/off x conditionals converted or not; the NumPy code is executed at random points and its outputs compared with "
        "the symbolic outputs; every `if` of the converted code is additionally forced to all outcomes while definitions before use are monitored; the result of "
        "cse_function_description is expanded; non-trivial if outputs were decided; distinct by description")
MIN_EVENTS = {"outputs decided": 20000, "configurations": 4000, "forced paths": 2000, "cse descriptions": 200, "large factorisations": 80}
CONFIGS = list(itertools.product((0, 1, 2, 3, 6), (True, False), (True, False)))


class Forced(ast.NodeTransformer):
    """Replaces the test of every `if` by a call of a hook that decides the outcome."""

    def __init__(self):
        self.n = 0

    def visit_If(self, node):
        k = self.n
        self.n += 1
        self.generic_visit(node)
        if isinstance(node.test, ast.Name) and node.test.id.startswith("compute_"):
            return node
        node.test = ast.copy_location(ast.Call(ast.Name("_branch_", ast.Load()), [ast.Constant(k), node.test], []), node.test)
        return node


def generator(width=64, outargs=False):
    from wrenfold import code_generation as cg
    return cg.PythonGenerator(target=cg.PythonGeneratorTarget.NumPy, float_width=cg.PythonGeneratorFloatWidth.Float64 if width == 64 else cg.PythonGeneratorFloatWidth.Float32, use_output_arguments=outargs)


def request(spec, code, points, want, target="numpy", width=64, **kw):
    return dict(name=spec["name"], code=code, target=target, width=width, args=spec["args"], outputs=[o[:3] for o in spec["outputs"]], structs=spec["structs"], exts=spec["exts"],
                points=points, want=want, **kw)


class Check:
    RANDOM = {"quick": 2600, "thorough": 60000}
    NPOINTS = 8

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.host = pyexec.Host("numpy", 64)
        import numpy as np
        np.seterr(all="ignore")

    def total(self):
        return self.RANDOM[self.tier]

    def spec(self, rng):
        rich = rng.random() < 0.3
        return fd.random_spec(rng, structs=rich, exts=rich and rng.random() < 0.7, cond=rng.choice([0.1, 0.25, 0.4]), depth=rng.choice([(1, 2), (2, 3), (2, 3, 3, 4)]), sharing=0.6)

    def run(self, i, rng):
        spec = self.big_spec(rng) if i % 25 == 7 else self.factor_spec(rng) if i % 5 == 0 else self.spec(rng)
        if spec is not None and i % 6 == 1: spec = fd.with_power(spec, rng)
        if spec is None:
            self.ctx.event("descriptions too large")
            return
        case = (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9))
        self.ctx.describe(repr(case))
        if self.ctx.n % 20 == 0:
            self.ctx.sample(repr(spec))
        msg = self.outcome(case)
        if msg:
            case, msg = minimise(case, lambda c: self.outcome(c, False)) or (case, msg)
            self.ctx.violation("%s" % (msg[:120]), msg, repr(case))

    def factor_spec(self, rng):
        """Sums of products, where the factoriser has work to do."""
        fs = ["rx#0", "ry#0", "rq#0", "rm#0", "rm#1", "rm#2"]
        S = [("sym", f) for f in fs]

        def prod():
            t = [rng.choice(S[:rng.choice([3, 6])]) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.3: t.append(("fn", rng.choice(["sin", "cos"]), rng.choice(S)))
            if rng.random() < 0.2: t.append(("pow", ("fn", "abs", rng.choice(S)), ("rat", rng.choice([1, -1, 3]), 2)))
            if rng.random() < 0.4: t.append(rng.choice([("int", rng.choice([2, 3, -1, -2])), ("rat", 1, 2), ("rat", -3, 4), ("flt", 1.5)]))
            return ("mul",) + tuple(t) if len(t) > 1 else t[0]
        outs = []
        pool = [prod() for _ in range(6)]
        for k in range(rng.randint(1, 4)):
            terms = [rng.choice(pool) if rng.random() < 0.6 else prod() for _ in range(rng.randint(2, 7))]
            n = ("add",) + tuple(terms)
            q = rng.random()
            if q < 0.2: n = ("where", ("rel", rng.choice(["<", "=="]), rng.choice(S), rng.choice(S + [("int", 0)])), n, ("add",) + tuple(rng.choice(pool) for _ in range(3)))
            elif q < 0.35: n = ("mul", n, ("add",) + tuple(rng.choice(pool) for _ in range(2)))
            elif q < 0.45: n = ("fn", "sin", n)
            outs.append(("out", "o_%d" % k, fd.F, (n,)) if k or rng.random() < 0.5 else ("ret", "ret", fd.F, (n,)))
        return dict(name="fn0", args=(("rx", fd.F), ("ry", fd.F), ("rq", fd.F), ("rm", ("m", 3, 1))), outputs=tuple(outs), exts=(), structs=())

    def big_spec(self, rng):
        """One sum of many products: the numbers of products and of distinct factors lie around the limits of the factoriser."""
        self.ctx.event("large factorisations")
        r, c = rng.choice([(6, 6), (7, 9), (8, 8), (13, 5), (11, 6), (8, 9), (10, 13), (12, 12)])
        v = ["rm#%d" % k for k in range(r * c)]
        rng.shuffle(v)
        v = v[:rng.choice([len(v), len(v), min(len(v), rng.randint(60, 70)), rng.randint(20, len(v))])]
        n = rng.choice([len(v) // 2, rng.randint(20, 70), rng.randint(61, 67), 64, 65, 63])
        todo = list(v)
        terms = []
        for k in range(n):
            t = [todo.pop() if todo else rng.choice(v) for _ in range(rng.choice([2, 2, 3]))]
            if rng.random() < 0.3: t.append(rng.choice(v[:3]))
            if rng.random() < 0.1: t.append(rng.choice([("int", 2), ("rat", -1, 2)]))
            terms.append(("mul",) + tuple(("sym", x) if isinstance(x, str) else x for x in t))
        e = ("add",) + tuple(terms)
        if rng.random() < 0.3: e = ("mul", e, ("sym", v[0]))
        outs = [("out", "o_0", fd.F, (e,))]
        if rng.random() < 0.4: outs.append(("out", "o_1", fd.F, (("add",) + tuple(rng.sample(terms, min(len(terms), 12))),)))
        return dict(name="fn0", args=(("rm", ("m", r, c)),), outputs=tuple(outs), exts=(), structs=())

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        msg = self.outcome(case)
        if msg:
            raise Violation("replay", msg)

    def outcome(self, case, count=True):
        try:
            return self.judge(case, count)
        except Exception as ex:
            if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError, IndexError, KeyError)):
                import traceback
                return "raised %s: %s %s" % (type(ex).__name__, str(ex)[:500], traceback.format_exc()[-300:])
            raise

    def judge(self, case, count):
        from wrenfold import code_generation as cg
        spec, style, seed = case
        rng = random.Random(seed)
        ctx = self.ctx
        built = build(spec, style)
        if built is None:
            return None
        f, desc, trees = built
        points, wants, expect = observe(spec, trees, rng, self.NPOINTS)
        configs = CONFIGS if self.tier == "thorough" else rng.sample(CONFIGS, 6) + [(3, True, True), (0, False, False)]
        codes = {}
        for passes, binarize, ternaries in configs:
            p = cg.OptimizationParams()
            p.factorization_passes, p.binarize_operations = passes, binarize
            code = generator().generate(cg.transpile(desc, optimization_params=p, convert_ternaries=ternaries))
            codes.setdefault(strip(code), (passes, binarize, ternaries, code))
            if count: ctx.event("configurations")
        dec = 0
        for passes, binarize, ternaries, code in codes.values():
            conf = "passes=%d binarize=%s control_flow=%s" % (passes, binarize, ternaries)
            res = self.host.run(request(spec, code, points, wants))
            msg, d = compare(spec, res, expect, wants)
            dec += d
            if msg:
                return "%s: %s\n%s" % (conf, msg, code)
            if ternaries:
                msg = self.force(spec, code, points[0], rng, count)
                if msg:
                    return "%s: %s\n%s" % (conf, msg, code)
        if count:
            ctx.event("distinct programs", len(codes))
            ctx.event("outputs decided", dec)
            if dec: ctx.distinct(repr(spec))
        return self.cse(spec, desc, trees, points, expect, rng, count)

    def force(self, spec, code, point, rng, count):
        """Every path of the control flow: no value is used before it is defined, every output is assigned."""
        t = ast.parse(code)
        x = Forced()
        x.visit(t)
        ast.fix_missing_locations(t)
        if not x.n:
            return None
        paths = list(itertools.product((False, True), repeat=x.n)) if x.n <= 4 else [tuple(rng.random() < 0.5 for _ in range(x.n)) for _ in range(14)] + [(True,) * x.n, (False,) * x.n]
        opts = [o[1] for o in spec["outputs"] if o[0] == "opt"]
        c = compile(t, "<generated>", "exec")
        for path in paths:
            seen = set()

            def branch(k, test):
                seen.add((k, path[k]))
                return path[k]
            want = set(opts) if rng.random() < 0.5 else {o for o in opts if rng.random() < 0.5}
            r = self.host.run(request(spec, c, [point], [want]), {"_branch_": branch})[0]
            if isinstance(r, str):
                if "out of bounds for int32" in r:
                    continue
                return "path %s: %s" % (path, r)
            if count:
                self.ctx.event("forced paths")
                self.ctx.event("forced branch outcomes", len(seen))
        return None

    def cse(self, spec, desc, trees, points, expect, rng, count):
        from wrenfold import code_generation as cg
        p = cg.OptimizationParams()
        p.factorization_passes, p.binarize_operations = rng.choice([0, 1, 3]), rng.random() < 0.5
        outs, values = cg.cse_function_description(desc, p)
        vs = [tree.of(v) for v, _ in values]
        if len(set(vs)) != len(vs):
            return "cse_function_description: duplicate variables %r" % (vs,)
        defined = set()
        exp = {}
        for (v, e), tv in zip(values, vs):
            te = tree.of(e)
            late = [m for m in nodes(te, []) if m in vs and m not in defined]
            if late:
                return "cse_function_description: %r is used before it is defined" % (late[0],)
            defined.add(tv)
            exp[tv] = te
        got = {}
        for key, exprs in (outs.items() if isinstance(outs, dict) else outs):
            got[(str(key.usage).split(".")[-1], key.name)] = exprs
        if count: self.ctx.event("cse descriptions")
        for oi, (kind, name, t, _) in enumerate(spec["outputs"]):
            use = {"ret": "ReturnValue", "out": "OutputArgument", "opt": "OptionalOutputArgument"}[kind]
            g = [v for k, v in got.items() if k[0].replace("_", "").lower() == use.lower() and (kind == "ret" or k[1] == name)]
            g = [flatten(x, len(trees[oi])) for x in g]
            if len(g) != 1 or len(g[0]) != len(trees[oi]):
                return "cse_function_description: outputs %s" % (list(got),)
            for ei, te in enumerate(g[0]):
                for pi, env_in in enumerate(points[:3]):
                    ex = expect[pi][oi][ei]
                    if ex is None:
                        continue
                    env = to_env(spec, env_in)
                    try:
                        ev = fd.Real(env)
                        for tv in vs:
                            try:
                                env[ref.symbol_name(tv)] = ev(exp[tv])
                            except (ref.Undefined, ref.Ambiguous):
                                pass
                        val = float(fd.Real(env)(te))
                    except ref.Unsupported as u:
                        if "unknown symbol" in str(u):
                            continue        # a value that is not finite here
                        raise
                    except (ref.Ambiguous,):
                        continue
                    except ref.Undefined:
                        val = float("nan")
                    if not fd.agrees(val, ex):
                        return "cse_function_description: output %s[%d] has value %r, expected %r; %s" % (name, ei, val, ex, [(str(v), str(x)) for v, x in values])
                    if count: self.ctx.event("cse outputs decided")
        return None


def flatten(v, n):
    """Trees of the scalar elements of an expression, a matrix or a constructed custom type."""
    t = tree.of(v)
    if t[0] == "matrix":
        return list(t[3:] if not isinstance(t[2], tuple) else t[2:])
    if t[0] == "ctcons":
        return list(t[2:])
    if t[0] in ("ctarg", "ext"):
        return [("elem", k, t) for k in range(n)]
    return [t]


def strip(code):
    return "\n".join(l for l in code.split("\n") if not l.strip().startswith("#"))


def build(spec, style, imax=2 ** 31):
    """(function, description, trees) or None if the description is outside the supported real expressions."""
    from wrenfold import code_generation as cg
    f = fd.make_function(spec, style)
    try:
        desc = cg.create_function_description(f)
    except Exception as ex:
        if documented(ex) and type(ex).__name__ in ("ArithmeticError", "DomainError") or "Cannot construct relational" in str(ex) or "not comparable" in str(ex):
            return None
        if isinstance(ex, OverflowError):
            return None
        raise
    trees = f.state["trees"]
    if fd.unsupported(trees) or any(big(t, imax) for ts in trees for t in ts):
        return None
    return f, desc, trees


def big(t, imax):
    return (t[0] == "int" and abs(t[1]) >= imax) or any(big(c, imax) for c in t[1:] if gen.is_node(c))


def to_env(spec, flatin):
    env, k = {}, 0
    for a, t in spec["args"]:
        env["#" + a] = fd.flat(t)
        for j in range(fd.flat(t)):
            env["%s#%d" % (a, j)] = ref.mpf(flatin[k])
            k += 1
    for e in spec["exts"]:
        env["#" + e[0] + "()"] = fd.flat_types(e[2])
    env["#ints"] = fd.int_names(spec)
    return env


def observe(spec, trees, rng, n, eps=fd.EPS64, width=64, imax=2 ** 31):
    """Points, requested optional outputs and expected values."""
    points, wants, expect = [], [], []
    opts = [o[1] for o in spec["outputs"] if o[0] == "opt"]
    for _ in range(n):
        env = (fd.large_inputs(spec, rng, trees, width) if imax > 2 ** 50 and len(points) == n - 1 else None) or fd.random_inputs(spec, rng)
        p = fd.flat_inputs(spec, env)
        if width == 32:
            import numpy as np
            p = [float(np.float32(x)) for x in p]
            env = to_env(spec, p)
        points.append(p)
        wants.append([o for o in opts if rng.random() < 0.6])
        expect.append([[fd.expected(t, env, eps, imax) for t in ts] for ts in trees])
    return points, wants, expect


def compare(spec, res, expect, wants):
    """(message, number of decided outputs)"""
    dec = 0
    for pi, r in enumerate(res):
        if isinstance(r, str):
            if "out of bounds for int32" in r:
                continue        # integral arithmetic of generated Python code is documented to be 32 bits wide
            if r.startswith("panicked: attempt to") and r.endswith("overflow") and any(e is None for es in expect[pi] for e in es):
                continue        # an operation with an undefined value (floor of a division by zero) saturates and overflows
            return "point %d: %s" % (pi, r), dec
        row = r[0]
        for oi, o in enumerate(spec["outputs"]):
            if o[0] == "opt" and o[1] not in wants[pi]:
                if row[oi] is not None:
                    return "point %d: output %s was not requested" % (pi, o[1]), dec
                continue
            if row[oi] is None:
                return "point %d: output %s is absent" % (pi, o[1]), dec
            for ei, (g, e) in enumerate(zip(row[oi], expect[pi][oi])):
                if e is None:
                    continue
                dec += 1
                if not fd.agrees(g, e):
                    return "output %s[%d] is %r, expected %r +- %.1e (point %d)" % (o[1], ei, g, e[0], e[1], pi), dec
    return None, dec


def minimise(case, fails, budget=120):
    """Drops outputs and shrinks their nodes."""
    spec, style, seed = case[:3]
    msg = None
    changed = True
    while changed and budget > 0:
        changed = False
        outs = spec["outputs"]
        cands = []
        if len(outs) > 1:
            cands += [outs[:i] + outs[i + 1:] for i in range(len(outs))]
        for i, o in enumerate(outs):
            for j, n in enumerate(o[3]):
                if fd.ref_size(n) > 2:
                    subs = [("int", 2)] + [c for c in n[1:] if gen.is_node(c) and c[0] not in ("rel", "true", "false")]
                    for pth, t in list(paths(n))[:40]:
                        if t[0] in ("int", "sym", "rel"): continue
                        subs += [put(n, pth, c) for c in t[1:] if gen.is_node(c) and c[0] not in ("rel", "true", "false")] + [put(n, pth, ("int", 2))]
                    for c in subs:
                        cands.append(outs[:i] + ((o[0], o[1], o[2], o[3][:j] + (c,) + o[3][j + 1:]),) + outs[i + 1:])
        for c in cands:
            budget -= 1
            if budget <= 0:
                break
            s2 = dict(spec, outputs=c)
            try:
                m = fails((s2, style, seed) + tuple(case[3:]))
            except Exception:
                continue
            if m:
                spec, msg, changed = s2, m, True
                break
    return ((spec, style, seed) + tuple(case[3:]), msg) if msg else None


def paths(t, p=()):
    yield p, t
    for i, c in enumerate(t[1:], 1):
        if gen.is_node(c) and t[0] != "extcall":
            yield from paths(c, p + (i,))


def put(t, p, v):
    if not p:
        return v
    return t[:p[0]] + (put(t[p[0]], p[1:], v),) + t[p[0] + 1:]
