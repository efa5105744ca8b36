"""One process of a C11 case: runs the programs of a case in a given variant, prints their transcripts as JSON.

argv: base-seed variant text-seed.  The programs depend on the base seed only; the variant decides what else happens in
the process: unrelated objects built before and in between, the order of the programs, recipes copied instead of
shared, threads, collection of garbage.
"""
import functools, gc, json, random, re, sys, threading

from . import fd, gen

_U = re.compile(r"(\$u_|UniqueVariable \()(\d+)")


def normal(s):
    """Unique symbols are numbered by a running counter, and operands are ordered by their numbers: such texts are
    compared as the multiset of their words, every unique symbol standing for any other."""
    s = re.sub(r" at 0x[0-9a-f]+", " at #", s)
    if _U.search(s):
        return "words: " + " ".join(sorted(re.findall(r"[\w.]+", _U.sub(lambda m: m.group(1) + "_", s))))
    return s


def copied(n, memo=None):
    """The recipe with every node its own object (nothing shared)."""
    return tuple(copied(x) if isinstance(x, tuple) else x for x in n)


class Program:
    def __init__(self, k, seed, kind):
        self.k, self.seed, self.kind = k, seed, kind

    def run(self, unshared):
        out = []

        def rec(label, fn):
            try:
                v = fn()
                text = v if isinstance(v, str) else repr(v)
            except Exception as e:
                v, text = None, "%s: %s" % (type(e).__name__, e)
                if isinstance(e, (NameError, AttributeError)) and "wrenfold" not in text: raise
            out.append((label, normal(text)))
            return v
        rng = random.Random(self.seed)
        getattr(self, "p_" + self.kind)(rng, rec, (lambda n: copied(n)) if unshared else (lambda n: n))
        return out

    def p_sym(self, rng, rec, form):
        from wrenfold import sym
        rich = rng.random() < 0.5
        syms = rng.sample(gen.REAL_SYMS + gen.CPLX_SYMS, rng.randint(2, 5))
        g = gen.Gen(rng, symfn=0.1 if rich else 0.0, cond=0.12, floats=0.12, syms=syms)
        recipes = [g.node(rng.randint(1, 4)) for _ in range(rng.randint(4, 8))]
        if rich:
            recipes.append(("add",) + tuple(rng.choice(recipes) for _ in range(5)))
            recipes.append(("mul",) + tuple(rng.choice(recipes) for _ in range(4)))
        recipes = [r for r in recipes if fd.ref_size(r) < 90]
        style = rng.randint(0, 3)
        b = gen.Builder(style)
        es = []
        for n in recipes:
            e = rec("build", lambda: b(form(n)))
            if e is not None:
                es.append(e)
                rec("tree", lambda: e.expression_tree_str())
        if not es:
            return
        rec("sorted", lambda: repr(sorted(es, key=functools.cmp_to_key(sym.compare))))
        rec("variables", lambda: repr(sorted(map(repr, sym.get_variables(es[-1])))))
        S = [gen.symbol(s) for s in syms]
        for _ in range(8):
            e, f, x, y = rng.choice(es), rng.choice(es), rng.choice(S), rng.choice(S)
            op = rng.choice(["diff", "diff2", "subs", "subs2", "collect", "distribute", "eval", "cse", "cse", "jac", "det", "unique", "matrix", "where", "lu", "bool"])
            if len(repr(e)) > 1500 or len(repr(f)) > 1500: continue
            if op == "diff": rec(op, lambda: e.diff(x))
            elif op == "diff2": rec(op, lambda: (e * f).diff(x, 2).expression_tree_str())
            elif op == "subs": rec(op, lambda: e.subs(x, f))
            elif op == "subs2": rec(op, lambda: e.subs([(x, f), (y, x * 2), (f, y)]))
            elif op == "collect": rec(op, lambda: (e * f + e * x + x * y + y * 3).distribute().collect([x, y]))
            elif op == "distribute": rec(op, lambda: ((e + x) * (f + y) * (x + y)).distribute())
            elif op == "eval": rec(op, lambda: e.eval())
            elif op == "cse": rec(op, lambda: sym.eliminate_subexpressions(sym.vector(e * f, e + f * 2, e - f, f * x), None, rng.choice([1, 2, 3])))
            elif op == "jac": rec(op, lambda: sym.jacobian([e, f], S).expression_tree_str())
            elif op == "det": rec(op, lambda: sym.det(sym.matrix([[e, x, 1], [y, f, x], [1, e, y]])))
            elif op == "matrix": rec(op, lambda: sym.matrix([[e, x], [y, f]]) * sym.matrix([[f, x], [x, e]]))
            elif op == "where": rec(op, lambda: sym.where(x < y, e, f).diff(x))
            elif op == "lu": rec(op, lambda: sym.full_piv_lu(sym.matrix([[e, x], [y, f]])))
            elif op == "bool": rec(op, lambda: sorted([x < e, e <= y, sym.eq(x, f)], key=repr))
            else:
                def uniq():
                    u, v = sym.unique_symbols(2)
                    return (e.subs(x, u) * (u + v) + f.subs(y, v) * v * u).expression_tree_str()
                rec(op, uniq)

    def p_geometry(self, rng, rec, form):
        from wrenfold import geometry, sym
        S = [gen.symbol(s) for s in rng.sample(gen.REAL_SYMS, 4)]
        q = geometry.Quaternion(*S)
        p = geometry.Quaternion.with_name("q")
        eps = rng.choice([None, 0, sym.symbol("eps")])
        rec("rot", lambda: q.to_rotation_matrix())
        rec("mul", lambda: (q * p).to_vector_wxyz())
        rec("rv", lambda: p.to_rotation_vector(epsilon=eps))
        rec("exp", lambda: geometry.Quaternion.from_rotation_vector(*S[:3], epsilon=eps).to_vector_wxyz())
        rec("mat", lambda: geometry.Quaternion.from_rotation_matrix(sym.matrix_of_symbols("R", 3, 3)).to_vector_wxyz().expression_tree_str())
        rec("jac", lambda: geometry.left_jacobian_of_so3(sym.vector(*S[:3]), epsilon=eps))
        rec("jinv", lambda: geometry.inverse_left_jacobian_of_so3(sym.vector(*S[:3]), epsilon=eps))

    def p_code(self, rng, rec, form):
        from .checks import c09
        k = rng.random()
        stub = c09.Check.__new__(c09.Check)
        stub.ctx = type("C", (), {"event": lambda *a: None})()
        if k < 0.3: spec = stub.factor_spec(rng)
        elif k < 0.36: spec = stub.big_spec(rng)
        else:
            spec = fd.random_spec(rng, structs=rng.random() < 0.6, exts=rng.random() < 0.5, cond=rng.choice([0.1, 0.25, 0.4]), sharing=0.5)
        if spec is None:
            return
        spec = dict(spec, outputs=tuple(o[:3] + (tuple(form(n) for n in o[3]),) for o in spec["outputs"]))
        self.code(rng, rec, spec)

    def code(self, rng, rec, spec):
        from wrenfold import code_generation as cg
        f = fd.make_function(spec, rng.randint(0, 3))
        d = rec("description", lambda: cg.create_function_description(f))
        if d is None:
            return
        out = lambda: None
        rec("arguments", lambda: [(a.name, repr(a.type)) for a in d.arguments])
        rec("outputs", lambda: [repr(x) for x in f.state["trees"]])
        gens = [("cpp", cg.CppGenerator()), ("eigen", cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen)), ("rust", cg.RustGenerator()),
                ("numpy", cg.PythonGenerator(cg.PythonGeneratorTarget.NumPy, cg.PythonGeneratorFloatWidth.Float64)),
                ("jax", cg.PythonGenerator(cg.PythonGeneratorTarget.JAX, cg.PythonGeneratorFloatWidth.Float32)),
                ("torch", cg.PythonGenerator(cg.PythonGeneratorTarget.PyTorch, cg.PythonGeneratorFloatWidth.Float64))]
        for passes, binarize, flow in [(3, True, True)] + [(rng.randint(0, 4), rng.random() < 0.5, rng.random() < 0.5) for _ in range(2)]:
            p = cg.OptimizationParams()
            p.factorization_passes, p.binarize_operations = passes, binarize
            a = None
            try:
                a = cg.transpile(d, optimization_params=p, convert_ternaries=flow)
            except Exception as e:
                rec("transpile", lambda: "%s: %s" % (type(e).__name__, e))
            if a is None: continue
            rec("ast", lambda: repr(a))
            for n, g in rng.sample(gens, 3):
                rec(n, lambda: g.generate(a))
        if rng.random() < 0.3:
            rec("cse", lambda: repr(cg.cse_function_description(d)))


KINDS = ["sym", "sym", "code", "code", "code", "geometry", "sym", "code", "sym", "code", "code", "sym"]


def programs(seed):
    rng = random.Random("c11:%s" % seed)
    n = rng.randint(8, 12)
    return [Program(k, "%s/%d" % (seed, k), rng.choice(KINDS) if k > 2 else KINDS[k]) for k in range(n)]


KEEP = []
LOCK = threading.Lock()


def junk(rng, amount):
    """Unrelated history: builds, keeps some, drops some; leaves the allocator in an arbitrary state."""
    from wrenfold import sym
    for _ in range(amount):
        k = rng.random()
        try:
            if k < 0.3: KEEP.append(bytearray(rng.randint(1, 4000)))
            elif k < 0.8:
                g = gen.Gen(rng, cond=0.1, symfn=0.05)
                KEEP.append(gen.Builder(rng.randint(0, 3))(g.node(rng.randint(1, 3))))
            elif k < 0.9: KEEP.append(sym.unique_symbols(rng.randint(1, 9)))
            else: KEEP.append([sym.symbol("junk%d" % rng.randint(0, 99)) for _ in range(rng.randint(1, 30))])
        except Exception:
            pass
    with LOCK:
        rng.shuffle(KEEP)
        if rng.random() < 0.8:
            del KEEP[rng.randint(0, len(KEEP)):]
    if rng.random() < 0.3: gc.collect()


def main():
    base, variant = sys.argv[1], int(sys.argv[2])
    vr = random.Random("v%s/%d" % (base, variant))
    ps = programs(base)
    order = list(ps)
    if variant:
        vr.shuffle(order)
        junk(vr, vr.choice([0, 10, 60, 200]))
    unshared = variant % 3 == 2
    res = {}
    twice = []
    lock = threading.Lock()

    def go(items, rng):
        for p in items:
            if variant and rng.random() < 0.7: junk(rng, rng.randint(0, 12))
            t = p.run(unshared)
            with lock:
                if p.k in res: twice.append((p.k, t))
                else: res[p.k] = t
    sys.setrecursionlimit(4000)
    if variant in (3, 4):
        sys.setswitchinterval(1e-5)
        threading.stack_size(64 << 20)
        ts = []
        err = []
        for j in range(4):
            items = order[j::4] + (order[(j + 1) % 4::4] if variant == 4 else [])

            def work(items=items, r=random.Random(vr.random())):
                try:
                    go(items, r)
                except BaseException as e:
                    import traceback
                    err.append(traceback.format_exc())
            ts.append(threading.Thread(target=work))
        for t in ts: t.start()
        for t in ts: t.join()
        if err:
            raise RuntimeError("\n".join(err))
    else:
        go(order, vr)
        if variant % 2 == 1: go(order[::-1], vr)
    sys.stdout.write(json.dumps(dict(res=res, twice=twice)) + "\n")


if __name__ == "__main__":
    main()
