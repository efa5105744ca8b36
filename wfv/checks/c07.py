"""C07: generated Rust is accepted by the compiler and computes the symbolic function."""
import re
from .. import fd, rust
from . import c06

RULE = ("random function descriptions generated as Rust (structs, external functions, present and absent optional outputs, row-major, column-major and strided matrix types), compiled with rustc "
        "(overflow checks and debug assertions) in batches and executed at random points against the symbolic outputs within a rounding model; compile errors, panics, double or missing writes are "
        "violations; non-trivial if outputs were decided; distinct by description")
MIN_EVENTS = {"outputs decided": 20000, "functions": 1000}
BATCH = {"quick": 14, "thorough": 24}


class Check(c06.Check):
    RANDOM = {"quick": 90, "thorough": 3500}
    TAG = "rust"

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.runner = rust.Runner("c07")
        import atexit
        atexit.register(self.runner.close)

    def case(self, rng):
        while True:
            rich = rng.random() < 0.45
            spec = self.spec(rng, "span", rich)
            if spec is not None:
                break
        if rng.random() < 0.15:
            spec = fd.with_floor(spec, rng)
        elif rng.random() < 0.35:
            spec = fd.with_power(spec, rng)
        return (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), "rust", "double", rng.randint(0, 7), rng.random() < 0.7, (rng.choice([0, 1, 2, 3]), rng.random() < 0.6))

    def emit(self, case, desc):
        from wrenfold import code_generation as cg
        spec, style, seed, flavour, scalar, layout, ternaries, (passes, binarize) = case
        p = cg.OptimizationParams()
        p.factorization_passes, p.binarize_operations = passes, binarize
        return cg.RustGenerator().generate(cg.transpile(desc, optimization_params=p, convert_ternaries=ternaries))

    def overflows(self, code):
        return re.search(r"(?<![\w.:])-?(inf|NaN|nan)f64", code)
