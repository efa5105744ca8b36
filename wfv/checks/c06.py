"""C06: generated C++ compiles, runs without undefined behaviour and computes the symbolic function."""
import ast, random, re
from .. import fd, cxx, gen
from ..worker import Violation
from . import c09
from .c09 import build, observe, compare, minimise

RULE = ("random function descriptions generated as C++ (span and Eigen flavour, double and float, row/column-major, strided and Eigen storage, null and present optional outputs), compiled "
        "with clang ASan+UBSan in batches and executed at random points against the symbolic outputs within a rounding model; sanitizer reports and compile errors are violations; "
        "non-trivial if outputs were decided; distinct by description")
MIN_EVENTS = {"outputs decided": 20000, "functions": 1000, "functions span": 350, "functions eigen": 450}
BATCH = {"quick": 14, "thorough": 24}


class Check:
    RANDOM = {"quick": 90, "thorough": 4000}
    NPOINTS = 6
    LANG = "c++"

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.runner = cxx.Runner("c06")
        import atexit
        atexit.register(self.runner.close)

    def total(self):
        return self.RANDOM[self.tier]

    def case(self, rng):
        while True:
            flavour = rng.choice(["span", "eigen"])
            scalar = "double" if rng.random() < 0.8 else "float"
            rich = rng.random() < 0.35
            spec = self.spec(rng, flavour, rich)
            if spec is not None:
                break
        if rng.random() < 0.15:
            spec = fd.with_floor(spec, rng)
        elif rng.random() < 0.35:
            spec = fd.with_power(spec, rng)
        return (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), flavour, scalar, rng.randint(0, 7), rng.random() < 0.7, (rng.choice([0, 1, 2, 3]), rng.random() < 0.6))

    def spec(self, rng, flavour, rich):
        spec = fd.random_spec(rng, structs=rich, exts=rich and rng.random() < 0.6, cond=rng.choice([0.1, 0.2, 0.4]), depth=rng.choice([(1, 2), (2, 3), (1, 2, 3)]), sharing=0.4, max_nodes=220)
        if spec and flavour == "span":
            spec = plain_structs(spec)
        return spec

    def run(self, i, rng):
        cases = [self.case(rng) for _ in range(BATCH[self.tier])]
        bad = self.batch(cases, True)
        for case, msg in bad[:3]:
            self.ctx.describe(repr(case))
            m = minimise(case, lambda c: self.one(c), 40) or (case, msg)
            self.ctx.violation(m[1].split("\n")[0][:160], m[1], repr(m[0]))

    def one(self, case):
        r = self.batch([case], False)
        return r[0][1] if r else None

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        r = self.batch([case], True)
        if r:
            raise Violation("replay", r[0][1])

    def emit(self, case, desc):
        from wrenfold import code_generation as cg
        spec, style, seed, flavour, scalar, layout, ternaries, (passes, binarize) = case
        p = cg.OptimizationParams()
        p.factorization_passes, p.binarize_operations = passes, binarize
        g = cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen if flavour == "eigen" else cg.CppMatrixTypeBehavior.GenericSpan)
        return g.generate(cg.transpile(desc, optimization_params=p, convert_ternaries=ternaries))

    def overflows(self, code):
        return overflows(code)

    def batch(self, cases, count):
        ctx = self.ctx
        items, info, bad = [], [], []
        for case in cases:
            spec, style, seed, flavour, scalar = case[:5]
            if count: ctx.describe(repr(case))
            rng = random.Random(seed)
            try:
                built = build(spec, style, 2 ** 63)
                if built is None:
                    continue
                f, desc, trees = built
                code = self.emit(case, desc)
            except Exception as ex:
                if unsupported(ex):
                    if count: ctx.event("refused with a documented error")
                    continue
                if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError, IndexError, KeyError)):
                    bad.append((case, "raised %s: %s" % (type(ex).__name__, str(ex)[:600])))
                    continue
                raise
            eps, width = (fd.EPS64, 64) if scalar == "double" else (fd.EPS32, 32)
            points, wants, expect = observe(spec, trees, rng, self.NPOINTS, eps, width, 2 ** 62)
            if self.overflows(code):
                if count: ctx.event("skipped: constants overflow")
                continue
            items.append(dict(spec=spec, code=code, flavour=flavour, scalar=scalar, layout=case[5], points=points, want=wants))
            info.append((case, expect, wants))
        if count: ctx.describe("batch of %r" % ([c for c, _, _ in info],))
        if not items:
            return bad
        results = self.runner.run(items)
        for it, (case, expect, wants), res in zip(items, info, results):
            if isinstance(res, str):
                bad.append((case, "%s\n%s" % (res, it["code"])))
                continue
            msg, dec = compare(it["spec"], res, expect, wants)
            if msg:
                bad.append((case, "%s %s: %s\n%s" % (case[3], case[4], msg, it["code"])))
            elif count:
                ctx.event("functions")
                ctx.event("functions " + case[3])
                ctx.event("functions " + case[4])
                ctx.event("executions", len(res))
                ctx.event("outputs decided", dec)
                ctx.event("outputs decided at arguments beyond 32 bits", sum(e is not None for p, es in zip(it["points"], expect) if any(abs(v) >= 2 ** 31 for v in p) for e in es[0:] for e in e))
                if it["spec"]["exts"]: ctx.event("external calls recorded", sum(len(r[1]) for r in res if not isinstance(r, str)))
                if dec: ctx.distinct(repr(case[0]))
                ctx.sample(it["code"])
        return bad


def overflows(code):
    """A constant sub-expression of an output leaves the range of floating point numbers."""
    return re.search(r"(?<![\w.:])-?(inf|nan)(?![\w(])", code)


def unsupported(ex):
    s = str(ex)
    return "treats all matrices as spans" in s or "does not support" in s


def plain_structs(spec):
    """Types that the span flavour supports: no matrix is constructed outside of output arguments."""
    def conv(t):
        if t[0] == "s": return ("s", t[1], tuple((f, conv(x) if x[0] != "m" else fd.F) for f, x in t[2]))
        return t
    if any(t[0] == "s" and has_matrix(t) for t in cxx.all_types(spec)):
        return None
    if any(o[0] == "ret" and o[2][0] == "m" for o in spec["outputs"]):
        outs = tuple(("out",) + o[1:] if o[0] == "ret" and o[2][0] == "m" else o for o in spec["outputs"])
        spec = dict(spec, outputs=outs)
    if any(t[0] == "m" for e in spec["exts"] for _, t in list(e[1]) + [("", e[2])]):
        return None
    return spec


def has_matrix(t):
    return t[0] == "m" or (t[0] == "s" and any(has_matrix(x) for _, x in t[2]))
