"""C08: generated Python code computes the symbolic function for every target, float width and output mode."""
import ast, random
from .. import fd, pyexec
from ..worker import Violation
from .c03 import nodes
from . import c09
from .c09 import build, observe, compare, minimise, request

RULE = ("random function descriptions (scalars, integers, matrices, custom types, external functions, optional outputs) generated for NumPy, JAX and PyTorch at 32 and 64 bit, with conditionals as "
        "control flow or as selections, outputs returned or written to arguments, JAX code also under jit and vmap; executed at random points and compared with the symbolic outputs "
        "within a rounding model of the float width; non-trivial if outputs were decided; distinct by description and configuration")
MIN_EVENTS = {"outputs decided": 12000, "outputs decided numpy32": 800, "outputs decided numpy64": 800, "outputs decided jax32": 800, "outputs decided jax64": 800, "outputs decided torch32": 800,
              "outputs decided torch64": 800, "jit programs": 20, "vmap programs": 20, "output-argument programs": 60}
# one framework per worker process, so that each imports only one
SHARDS = [("numpy", 32), ("jax", 64), ("torch", 64), ("jax", 32), ("torch", 32), ("numpy", 64), ("jax", 64), ("torch", 32)]


class Check:
    RANDOM = {"quick": 5600, "thorough": 80000}
    NPOINTS = 6

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        import numpy as np
        np.seterr(all="ignore")
        self.hosts = {}

    def total(self):
        return self.RANDOM[self.tier]

    def host(self, target, width):
        if (target, width) not in self.hosts:
            self.hosts[target, width] = (pyexec.Host if target == "numpy" else pyexec.Remote)(target, width)
        return self.hosts[target, width]

    def run(self, i, rng):
        target, width = SHARDS[i % 8]
        outargs = target == "numpy" and rng.random() < 0.4
        mode = ""
        if target == "jax":
            mode = rng.choice(["", "", "jit", "vmap"])
        rich = rng.random() < 0.3 and not mode      # traced functions take arrays only
        depth = (1, 2) if target == "jax" else rng.choice([(1, 2), (2, 3), (1, 2, 3)])
        spec = fd.random_spec(rng, structs=rich and not outargs, exts=rich and rng.random() < 0.6, cond=rng.choice([0.1, 0.25, 0.4]), depth=depth, sharing=0.5, max_nodes=90 if target == "jax" else 200)
        if spec is None:
            self.ctx.event("descriptions too large")
            return
        if rng.random() < 0.2: spec = fd.with_power(spec, rng)
        if outargs:
            outs = tuple((k, n, t if k == "ret" or t[0] == "m" else ("m", fd.flat(t), 1), ns) for k, n, t, ns in spec["outputs"])
            spec = dict(spec, outputs=outs)
        ternaries = False if mode else rng.random() < 0.5
        case = (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), target, width, ternaries, outargs, mode, rng.random() < 0.4)
        self.ctx.describe(repr(case))
        if self.ctx.n % 20 == 0:
            self.ctx.sample(repr(case))
        msg = self.outcome(case)
        if msg:
            case, msg = minimise(case, lambda c: self.outcome(c, False)) or (case, msg)
            self.ctx.violation("%s%d: %s" % (target, width, msg[:140]), msg, repr(case))

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        msg = self.outcome(case)
        if msg:
            raise Violation("replay", msg)

    outcome = c09.Check.outcome

    def judge(self, case, count):
        from wrenfold import code_generation as cg
        spec, style, seed, target, width, ternaries, outargs, mode, vecflat = case
        rng = random.Random(seed)
        ctx = self.ctx
        built = build(spec, style)
        if built is None:
            return None
        f, desc, trees = built
        points, wants, expect = observe(spec, trees, rng, self.NPOINTS, fd.EPS64 if width == 64 else fd.EPS32, width)
        if mode:
            wants = [wants[0]] * len(wants)
        T = cg.PythonGeneratorTarget
        gen = cg.PythonGenerator(target={"numpy": T.NumPy, "jax": T.JAX, "torch": T.PyTorch}[target], float_width=getattr(cg.PythonGeneratorFloatWidth, "Float%d" % width),
                                 use_output_arguments=outargs, indentation=rng.choice([2, 4]))
        code = gen.generate(cg.transpile(desc, convert_ternaries=ternaries))
        req = request(spec, code, points, [sorted(w) for w in wants], target, width, outargs=outargs, mode=mode, vecflat=vecflat)
        res = self.host(target, width).run(req)
        msg, dec = compare(spec, res, expect, wants)
        if msg:
            return "%s width %d, control flow %s, output arguments %s, mode %r: %s\n%s" % (target, width, ternaries, outargs, mode, msg, code)
        if count:
            ctx.event("programs")
            ctx.event("%s programs" % (mode or ("output-argument" if outargs else "plain")))
            ctx.event("outputs decided", dec)
            ctx.event("outputs decided %s%d" % (target, width), dec)
            if "where" in code: ctx.event("programs with selections")
            if dec: ctx.distinct(repr((spec, target, width, ternaries, outargs, mode)))
        if not spec["exts"] and not any(t[0] == "s" for _, t in spec["args"]) and not any(o[2][0] == "s" for o in spec["outputs"]) and target == "numpy" and rng.random() < 0.3:
            return self.wrapper(f, gen, spec, points, wants, expect, ternaries, outargs, count)
        return None

    def wrapper(self, f, gen, spec, points, wants, expect, ternaries, outargs, count):
        """generate_python() itself: the executed function is the one that it returns."""
        from wrenfold import code_generation as cg
        fn, code = cg.generate_python(f, generator=gen, convert_ternaries=ternaries)
        host = self.host("numpy", 64)
        h = pyexec.Host("numpy", 64)
        h.dt = self.hosts.get(("numpy", 32), host).dt if "float32" in code else host.dt
        req = request(spec, "pass", points, wants, "numpy", 32 if "float32" in code else 64, outargs=outargs)
        res = h.run(req, {spec["name"]: fn})
        msg, dec = compare(spec, res, expect, wants)
        if count:
            self.ctx.event("generate_python functions")
        return msg and "generate_python: %s\n%s" % (msg, code)

