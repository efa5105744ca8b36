"""C14: no sequence of API calls corrupts memory, aborts or hits undefined behaviour."""
import ast as pyast, copy, enum, fractions, gc, inspect, operator, pickle, random, re, sys, types, typing, weakref
from .. import fd, gen, tree
from ..worker import Violation

RULE = ("random programs of API calls: every callable and property of the modules sym, geometry, gen, ast, type_info and sympy_conversion is found by introspection and called with arguments drawn from its declared signature and from pools of "
        "earlier results, with hostile values (wrong types, extreme integers, nan and infinities, empty and ragged containers, raising or mistyped callbacks and iterators) mixed in; results are used again, parents are dropped before their "
        "children, iterators outlive their containers; code is generated from hostile descriptions and through generators with overridden formatters; distinct by program")
MIN_EVENTS = {"calls": 400000, "calls that returned": 150000, "calls that raised": 45000, "callables reached (per worker)": 1500, "overridden formatters called": 10000, "objects dropped": 5000, "syntax nodes used after their definition": 4000, "results used": 30000}
ALLOW_HUGE = True
STANDARD = (TypeError, ValueError, IndexError, KeyError, OverflowError, MemoryError, RuntimeError, AttributeError, ZeroDivisionError, NotImplementedError, RecursionError, StopIteration, ArithmeticError, BufferError, UnicodeError, LookupError, AssertionError)
HUGE = [2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 30, -10 ** 30, 65535, 65536, 46341]
SMALL = [0, 1, -1, 2, 3, 4, 5, -2, 6, 7]


class Boom(Exception):
    pass


class BadIndex:
    def __index__(self): raise Boom("index")
    def __int__(self): raise Boom("int")
    def __float__(self): raise Boom("float")


class BadIter:
    def __init__(self, xs, n): self.xs, self.n = xs, n
    def __iter__(self):
        for k, x in enumerate(self.xs):
            if k == self.n: raise Boom("iter")
            yield x
    def __len__(self): return 10 ** 6


class BadSeq(list):
    def __len__(self): return 3
    def __getitem__(self, i): raise Boom("item")


def split_top(s, sep):
    out, d, cur = [], 0, ""
    k = 0
    while k < len(s):
        c = s[k]
        if c in "[(": d += 1
        if c in ")]": d -= 1
        if d == 0 and s.startswith(sep, k):
            out.append(cur); cur = ""; k += len(sep)
            continue
        cur += c
        k += 1
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]


SIG = r"(?m)^(?:\d+\. )?%s\((.*)\)(?: -> (.*))?$"


def signatures(doc, name):
    out = []
    for args, ret in re.findall(SIG % re.escape(name), doc or ""):
        ps = []
        for p in split_top(args, ","):
            if p in ("/", "*"): continue
            default = None
            if " = " in p: p, default = p.split(" = ", 1)
            n, _, t = p.partition(": ")
            ps.append((n.strip(), t.strip(), default))
        out.append(ps)
    return out


def discover():
    """All callables: (label, owner class or None, attribute name, signatures)."""
    import pywrenfold
    from pywrenfold import sym, geometry, gen as g, ast, type_info, enumerations
    found, classes = [], {}
    mods = [sym, geometry, g, ast, type_info, enumerations]
    for m in mods:
        for k in dir(m):
            v = getattr(m, k)
            if inspect.isclass(v):
                if v.__module__.startswith("pywrenfold") and not issubclass(v, enum.Enum) and not issubclass(v, BaseException): classes[v] = m
            elif callable(v) and not k.startswith("__"):
                found.append((m.__name__ + "." + k, None, v, signatures(v.__doc__, k) or [[("*args", "", None)]]))
    for c in sorted(classes, key=lambda c: c.__module__ + c.__name__):
        label = c.__module__ + "." + c.__name__
        for k in dir(c):
            v = inspect.getattr_static(c, k)
            if isinstance(v, property):
                found.append((label + "." + k, c, ("prop", k), [[]]))
                if v.fset is not None: found.append((label + "." + k + "=", c, ("set", k), [[("value", "object", None)]]))
            elif k == "__init__":
                s = signatures(getattr(v, "__doc__", ""), k)
                if s: found.append((label, None, c, [p[1:] for p in s]))
            elif k in ("__class__", "__new__", "__init_subclass__", "__subclasshook__", "__dir__", "__getattribute__", "__setattr__", "__delattr__", "__reduce__", "__reduce_ex__", "__sizeof__", "__getstate__", "__setstate__", "__doc__", "__module__", "__dict__", "__weakref__", "__static_attributes__"):
                continue
            else:
                f = getattr(c, k, None)
                if not callable(f): continue
                s = signatures(getattr(f, "__doc__", ""), k)
                if not s: s = [[("self", "", None)]] if k in ("__hash__", "__repr__", "__str__", "__bool__") else [[("self", "", None), ("o", "object", None)]] if k in ("__eq__", "__lt__") else []
                if s and s[0] and s[0][0][0] == "self": found.append((label + "." + k, c, ("meth", k), [p[1:] for p in s]))
                elif s: found.append((label + "." + k, None, f, s))
    return found, classes


class Check:
    def __init__(self, ctx, tier, seed):
        import numpy
        from wrenfold import sym, enumerations, geometry, type_info, code_generation as cg, sympy_conversion
        import pywrenfold
        self.ctx, self.tier, self.s, self.np, self.cg, self.ti = ctx, tier, sym, numpy, cg, type_info
        gen.sym()
        self.table, self.classes = discover()
        self.enums = {c.__name__: c for m in (enumerations, pywrenfold.gen, type_info, pywrenfold.enumerations) for c in vars(m).values() if inspect.isclass(c) and hasattr(c, "__members__") or inspect.isclass(c) and issubclass(c, enum.Enum)}
        self.weights = [3 if "sym." in l else 2 for l, *_ in self.table]
        self.reached = set()

    def total(self): return 12000 if self.tier == "quick" else 150000

    MODES = ["api", "api", "api", "nodes", "describe", "override", "api", "life"]

    def run(self, i, rng): self.go(self.MODES[i % len(self.MODES)], rng.getrandbits(60))

    def replay(self, inp):
        m, s = pyast.literal_eval(inp)[:2]
        self.go(m, s)

    def known(self, e):
        """Replays a recorded finding: it kills the process, which the driver sees."""
        m, n = pyast.literal_eval(e["input"])[:2]
        if m == "deep":
            x = self.s.symbol("x")
            for _ in range(n): x = self.s.cos(x)
            str(x)

    def go(self, mode, seed):
        self.mode, self.seed, self.trace = mode, seed, []
        self.rng = random.Random(seed)
        self.hostile = self.rng.choice([0.0, 0.05, 0.2, 0.5])
        self.ctx.describe(repr((mode, seed)))
        self.pool = {}
        self.keep = []
        x, y = self.s.make_symbols("x", "y")
        self.offer([x, y, x + 2 * y, self.s.cos(x) ** 2, self.s.pi, self.s.I, self.s.one, self.s.zero, self.s.rational(-3, 7), self.s.float_constant(1.5), self.s.Function("f")(x, y)])
        self.offer([self.s.vector(x, y, 3), self.s.eye(3), self.s.matrix([[x, y], [1, x * y]]), x < y, self.s.true])
        try:
            getattr(self, "m_" + mode)()
        except Exception as ex:      # a rejected step of the set-up
            if not (type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (OverflowError, MemoryError))): raise
            self.raised("set-up", None, (), {}, ex)
        finally:
            self.ctx.distinct((mode, seed))
            self.pool, self.keep = {}, []

    # ---- objects
    def offer(self, o, depth=0):
        """Keeps a result for later use, unless it has become large."""
        if isinstance(o, (list, tuple)) and depth < 2:
            for e in o[:6]: self.offer(e, depth + 1)
            return
        if isinstance(o, dict):
            for k, v in list(o.items())[:4]: self.offer(k, 2), self.offer(v, 2)
            return
        if type(o) not in self.classes:
            return
        n = type(o).__name__
        if n in ("Expr", "BooleanExpr", "MatrixExpr", "CompoundExpr") and not small(o, 90): return
        p = self.pool.setdefault(n, [])
        p.append(o)
        if len(p) > 24:
            p.pop(self.rng.randrange(len(p)))
            self.ctx.event("objects dropped")

    def pick(self, n):
        p = self.pool.get(n)
        if p: return self.rng.choice(p)
        return self.make(n)

    def make(self, n):
        r, s = self.rng, self.s
        if n == "Expr": return s.symbol(r.choice("xyzw"))
        if n == "BooleanExpr": return s.symbol("x") < r.choice([0, s.symbol("y")])
        if n == "MatrixExpr": return s.vector(1, s.symbol("x"))
        if n == "Quaternion":
            import wrenfold.geometry as geo
            return geo.Quaternion.with_name("q")
        if n == "Function": return s.Function(r.choice("fg"))
        if n == "ScalarType": return self.ti.ScalarType(r.choice([self.ti.NumericType.Float, self.ti.NumericType.Integer]))
        if n == "MatrixType": return self.ti.MatrixType(r.randint(1, 3), r.randint(1, 3))
        if n == "CustomType": return self.custom()
        if n == "CompoundExpr": return s.create_custom_type_construction(*(lambda t: (t, [self.pick("Expr") for _ in range(t.total_size)]))(self.custom()))
        if n == "FunctionDescription": return self.description()[1]
        if n in ("FunctionDefinition", "AstSpan", "FunctionSignature", "Argument") or n in ("Add", "Multiply", "VariableRef", "Declaration"):
            self.offer(self.walk(self.cg.transpile(self.description()[1])))
            return (self.pool.get(n) or [None])[-1]
        for c in self.classes:
            if c.__name__ == n:
                try:
                    return c()
                except TypeError:
                    return None
        return None

    def custom(self, depth=0):
        r = self.rng
        k = r.choice([1, 1, 2, 3])
        fs = []
        for i in range(k):
            q = r.random()
            fs.append(("f%d" % i, self.ti.ScalarType(self.ti.NumericType.Float) if q < 0.5 else self.ti.MatrixType(r.randint(1, 3), r.randint(1, 2)) if q < 0.8 or depth else self.custom(1)))
        return self.ti.CustomType("T%d" % r.randrange(100), fs, type("T", (), {}))

    def hostile_value(self):
        r, np = self.rng, self.np
        k = r.randrange(34)
        if k == 0: return None
        if k == 1: return r.choice(HUGE)
        if k == 2: return r.choice([float("nan"), float("inf"), -float("inf"), -0.0, 1e308, 5e-324, 1e19, -9.3e18])
        if k == 3: return r.choice(["", "x", "a b", "\0", "é", "x" * 3000, "{}", "{0}", "%s", "\ud800", "class", "1x"])
        if k == 4: return []
        if k == 5: return [[]]
        if k == 6: return r.choice([(), (None,), [1, [2]], [[1, 2], [3]], [[[1]]]])
        if k == 7: return r.choice([True, False])
        if k == 8: return 1 + 2j
        if k == 9: return fractions.Fraction(1, 3)
        if k == 10: return r.choice([np.float32(1.5), np.int64(3), np.int8(-1), np.uint64(2 ** 63), np.float64("nan"), np.bool_(True), np.longdouble(2)])
        if k == 11: return r.choice([np.zeros((2, 2)), np.zeros((0,)), np.array(["a"]), np.zeros((2, 2, 2)), np.array([[1, 2], [3, 4]]), np.array(3.0)])
        if k == 12: return BadIndex()
        if k == 13: return BadIter([self.pick("Expr") for _ in range(3)], r.randint(0, 3))
        if k == 14: return BadSeq([1, 2, 3])
        if k == 15: return {}
        if k == 16: return b"x"
        if k == 17: return object()
        if k == 18: return r.choice([int, type, Check, lambda *a: None])
        if k == 19: return slice(r.choice([None, 0, -1, 5, 10 ** 30]), r.choice([None, 0, 2, -5, 10 ** 30]), r.choice([None, 1, -1, 0, 2, -2 ** 63]))
        if k == 20: return (x for x in [self.pick("Expr"), 2])
        if k == 21: return range(r.choice([0, 3]))
        if k == 22: return Ellipsis
        if k == 23:
            l = [1]
            l.append(l)
            return r.choice([l, [l], [[l]]])
        n = r.choice(list(self.pool) or ["Expr"])
        return self.pick(n)

    def value(self, t, name=""):
        r = self.rng
        if r.random() < self.hostile: return self.hostile_value()
        alts = split_top(t, "|") if "|" in t else [t]
        t = r.choice(alts)
        if t == "int":
            if r.random() < self.hostile: return r.choice(HUGE)
            return r.choice(SMALL)
        if t == "float": return r.choice([0.0, 1.0, -1.5, 0.5, 2.0, 1e10, -1e-10, 1e300])
        if t == "bool": return r.random() < 0.5
        if t == "str": return r.choice(["x", "y", "foo", "f0", "f1", "T", "abc_1", "a b", "v", "w0"])
        if t == "None": return None
        if t == "slice": return slice(r.choice([None, 0, 1, -1, -3, 5]), r.choice([None, 0, 1, 2, -1, 9]), r.choice([None, None, 1, 2, -1, -2]))
        if t == "type": return type("T", (), {})
        m = re.match(r"(?:collections\.abc\.|typing\.)?(Sequence|Iterable|list)\[(.*)\]$", t)
        if m:
            v = [self.value(m[2]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
            k = r.random()
            return v if k < 0.6 else tuple(v) if k < 0.8 else (x for x in v) if k < 0.85 and m[1] == "Iterable" else v
        if t.startswith("tuple["):
            return tuple(self.value(x) for x in split_top(t[6:-1], ","))
        if "Callable" in t: return self.callback(t)
        if t in ("collections.abc.Iterable", "typing.Iterable", "Iterable"):
            k = r.random()
            w = r.choice([1, 2, 3])
            if k < 0.4: return [[self.value("pywrenfold.sym.Expr") for _ in range(w)] for _ in range(r.choice([1, 2, 3]))]
            return [self.value("pywrenfold.sym.Expr") for _ in range(4)]
        n = t.split(".")[-1]
        if n in self.enums:
            c = self.enums[n]
            return r.choice(list(getattr(c, "__members__").values()))
        if t in ("", "object"):
            return r.choice([1, 2.5, self.pick("Expr"), self.pick("MatrixExpr"), "x", self.pick("ScalarType")])
        v = self.pick(n)
        if v is not None and n == "Expr" and r.random() < 0.15: return r.choice([2, -1, 0.5, 0, 3])
        return v if v is not None else self.hostile_value()

    def callback(self, t):
        r = self.rng
        k = r.randrange(7)
        if k == 0:
            def f(*a): raise Boom("callback")
        elif k == 1:
            def f(*a): return self.hostile_value()
        elif k == 2:
            def f(*a):
                self.offer(list(a))
                gc.collect(0)
                return self.pick("Expr")
        elif k == 3:
            def f(*a): return self.s.symbol("v%d" % len(self.trace))
        elif k == 4:
            def f(*a): return a[0] if a else None
        else:
            def f(*a): return self.s.unique_symbols(1)
        return f

    # ---- one call
    def step(self, entry=None):
        r = self.rng
        label, owner, what, sigs = entry or r.choices(self.table, self.weights)[0]
        sig = r.choice(sigs)
        args, kwargs = [], {}
        for n, t, d in sig:
            if n.startswith("**"): continue
            if n.startswith("*"):
                args += [self.value(t or r.choice(["pywrenfold.sym.Expr", "int", "str"])) for _ in range(r.choice([0, 1, 2, 3]))]
                continue
            if d is not None and r.random() < 0.5: continue
            v = self.value(t, n)
            if (d is not None or kwargs) or r.random() < 0.1: kwargs[n] = v
            else: args.append(v)
        if r.random() < self.hostile * 0.2: args = args[:-1] if args and r.random() < 0.5 else args + [self.hostile_value()]
        recv = None
        if owner is not None:
            recv = self.pick(owner.__name__)
            if recv is None: return
        if self.expensive(label, recv, args + list(kwargs.values())): return
        self.call(label, recv, what, args, kwargs)

    def expensive(self, label, recv, args):
        every = [recv] + list(args)
        nums = [a for a in every if isinstance(a, int) and not isinstance(a, bool)]
        if any(k in label for k in ("zeros", "eye", "matrix_of_symbols", "MatrixType", "reshape", "unique_symbols", "create_compound")) and any(1000 < a < 2 ** 62 for a in nums):
            return len(nums) < 2 or not any(a > 2 ** 30 for a in nums) or min(nums) in range(1, 60000)
        if label.endswith((".diff", ".derivative")) and any(a > 6 for a in nums): return True
        if label.endswith("Expr.diff") or "derivative" in label: return False
        if any(k in label for k in ("distribute", "collect")): return any(bigpower(a) for a in every)
        if any(k in label for k in ("det", "full_piv_lu")): return any(type(a).__name__ == "MatrixExpr" and (max(a.shape) > 4 or not small(a, 40)) for a in every)
        if label.endswith("PythonGenerator") or "indentation" in label: return any(a > 1000 for a in nums)
        return False

    def call(self, label, recv, what, args, kwargs):
        ctx = self.ctx
        if label not in self.reached:
            self.reached.add(label)
            ctx.event("callables reached (per worker)")
        self.trace = (self.trace + ["%s(%s)" % (label, ", ".join([type(a).__name__ if not isinstance(a, (int, float, str)) else repr(a)[:30] for a in list(args) + list(kwargs.values())]))])[-6:]
        ctx.describe(repr((self.mode, self.seed, self.trace)))
        ctx.event("calls")
        try:
            if isinstance(what, tuple):
                k, n = what
                if k == "prop": o = getattr(recv, n)
                elif k == "set": o = setattr(recv, n, args[0] if args else None)
                else: o = getattr(recv, n)(*args, **kwargs)
            else: o = what(*args, **kwargs)
        except Exception as ex:
            self.raised(label, recv, args, kwargs, ex)
            return None
        ctx.event("calls that returned")
        self.use(o)
        self.offer(o)
        return o

    def raised(self, label, recv, args, kwargs, ex):
        n = type(ex).__name__
        self.ctx.event("calls that raised")
        if isinstance(ex, Boom): return
        doc = type(ex).__module__.startswith("pywrenfold")
        if doc and n == "AssertionError":
            self.assertion(label, recv, args, kwargs, ex)
            return
        if not doc and type(ex) not in STANDARD and not isinstance(ex, (TypeError, ValueError, UnicodeError)):
            self.ctx.violation("exception type: %s from %s" % (n, label), "%s raised %s.%s: %s" % (self.trace[-1], type(ex).__module__, n, str(ex)[:400]))

    # malformed requests that are answered with the documented AssertionError: a wrong number of elements, an index out of range, None
    # in a sequence of replacements, a second return value, arguments of another description
    MALFORMED = [("create_custom_type_construction|FunctionDescription.(set_return_value|add_output_argument)", "total_size"), ("create_compound_expression_elements", r"\(index\) < \(size"), ("compute_indices", r"\(element\) < \(size"),
                 ("PyExternalFunction", r"next\(it\)"), (r"subs$", "static_cast<bool>.ptrs"), ("set_return_value|^description$", "return_value_type.has_value"),
                 ("add_input_argument", r"\((rows|cols)_\) >= \(0\)"), ("add_input_argument|transpile|description", r"determine_access_sequence|found_member")]
    FOREIGN = "Missing argument|\\(0\\) == \\(element_index\\)|Argument missing|\\(element\\) < \\(size|found_member"

    def assertion(self, label, recv, args, kwargs, ex):
        if any(re.search(a, label) and re.search(b, str(ex)) for a, b in self.MALFORMED) or not self.own and re.search(self.FOREIGN, str(ex)):
            self.ctx.event("malformed requests refused by assertion")
            return
        self.ctx.violation("internal assertion: " + re.sub(r"[0-9]+", "N", str(ex).split("\n")[0])[:140], "%s fails with an internal assertion: %s\nreceiver %s\narguments %s %s" % (self.trace[-1], str(ex)[:700], text(recv), [text(a) for a in args], {k: text(v) for k, v in kwargs.items()}))

    def use(self, o):
        """Everything that is returned has to be usable."""
        r = self.rng
        k = r.random()
        if type(o) not in self.classes or k > 0.5: return
        self.ctx.event("results used")
        try:
            if k < 0.2 and (type(o).__name__ not in ("Expr", "BooleanExpr", "MatrixExpr", "CompoundExpr") or small(o, 200)): str(o), repr(o)
            elif k < 0.3: hash(o)
            elif k < 0.35: o == self.pick(type(o).__name__)
            elif k < 0.4: copy.copy(o)
            elif k < 0.45 and hasattr(o, "__iter__"):
                it = iter(o)
                next(it, None)
                self.keep.append(it)
            elif hasattr(o, "expression_tree_str") and small(o, 200): o.expression_tree_str()
        except Exception as ex:
            self.raised("use of " + type(o).__name__, o, (), {}, ex)

    # ---- modes
    def m_api(self):
        for k in range(45):
            self.step()
            if k % 9 == 8: self.churn()

    def churn(self):
        r = self.rng
        for it in self.keep[-8:]:
            try:
                next(it, None)
            except Exception as ex:
                self.raised("next(iterator)", None, (), {}, ex)
        if r.random() < 0.3: self.keep.clear()
        for n in list(self.pool):
            if r.random() < 0.2:
                k = r.randrange(len(self.pool[n]) + 1)
                self.ctx.event("objects dropped", k)
                del self.pool[n][:k]
        if r.random() < 0.2: gc.collect(0)

    def m_life(self):
        """Iterators, lists and elements used after what they came from is gone."""
        r, s = self.rng, self.s
        for _ in range(12):
            m = s.matrix([[self.pick("Expr") for _ in range(r.choice([1, 2, 3]))]] * r.choice([1, 2, 4])) if r.random() < 0.5 else None
            e = r.choice([lambda: s.addition([self.pick("Expr") for _ in range(5)]), lambda: s.multiplication([self.pick("Expr") for _ in range(5)]), lambda: self.pick("Expr"), lambda: s.where(self.pick("BooleanExpr"), self.pick("Expr"), 2)])
            try:
                e = e()
            except Exception as ex:
                self.raised("build", None, (), {}, ex)
                continue
            late = []
            if m is not None:
                it = iter(m)
                late += [it, iter(m.T), m.to_list(), m[0], m.T]
                if r.random() < 0.5: late.append(m.to_flat_list())
                del m
            if small(e, 150):
                late += [e.args, iter(e.args)]
            del e
            t = self.custom()
            fs = t.fields
            late += [fs, fs[0].type, t.python_type]
            del t, fs
            self.pool.clear()
            self.ctx.event("objects dropped", 5)
            gc.collect(0)
            junk = [s.symbol("j%d" % k) * k for k in range(20)]
            for l in late:
                try:
                    if hasattr(l, "__next__"):
                        for _ in range(3):
                            x = next(l, None)
                            str(x)
                            if x is not None: self.offer(x)
                    else:
                        str(l), repr(l)
                        self.offer(l if isinstance(l, (list, tuple)) else [l])
                except Exception as ex:
                    self.raised("late use", None, (), {}, ex)
                self.ctx.event("results used")
            self.ctx.event("calls", len(late))
            del junk

    def description(self):
        r, cg, s, ti = self.rng, self.cg, self.s, self.ti
        d = cg.FunctionDescription(r.choice(["fn", "foo", "bar_2"]))
        ins = []
        for k in range(r.choice([0, 1, 2, 3])):
            t = r.choice([lambda: ti.ScalarType(r.choice([ti.NumericType.Float, ti.NumericType.Integer])), lambda: ti.MatrixType(r.randint(1, 4), r.randint(1, 3)), self.custom])()
            a = d.add_input_argument("a%d" % k, t)
            n = type(a).__name__
            if n == "Expr": ins.append(a)
            elif n == "MatrixExpr": ins += a.to_flat_list()
            else: ins += s.create_compound_expression_elements(a, t.total_size)
        ins = ins or [s.integer(2), s.pi]

        def e(depth=3):
            k = r.random()
            if depth == 0 or k < 0.15: return r.choice(ins + [s.integer(r.choice([0, 1, -1, 2, 7])), s.rational(1, 3), s.float_constant(0.5), s.pi])
            if k < 0.4: return e(depth - 1) + e(depth - 1)
            if k < 0.65: return e(depth - 1) * e(depth - 1)
            if k < 0.75: return r.choice([s.cos, s.sin, s.exp, s.abs, s.sqrt, s.atan, s.sign, s.floor, s.log])(e(depth - 1))
            if k < 0.85: return e(depth - 1) ** r.choice([2, -1, 3, s.rational(1, 2), -2])
            if k < 0.97:
                try:
                    return s.where(r.choice([s.lt, s.le, s.eq])(e(1), e(1)), e(depth - 1), e(depth - 1))
                except Exception:
                    return r.choice(ins)
            return s.iverson(r.choice(ins) < r.choice(ins))
        for k in range(r.choice([0, 1, 1, 2, 3])):
            opt = r.random() < 0.4
            q = r.random()
            if q < 0.5: d.add_output_argument("o%d" % k, opt, e())
            elif q < 0.8: d.add_output_argument("o%d" % k, opt, s.matrix([[e(2) for _ in range(2)] for _ in range(r.choice([1, 2]))]))
            else:
                t = self.custom()
                d.add_output_argument("o%d" % k, opt, t, [e(1) for _ in range(t.total_size)])
        if r.random() < 0.6: d.set_return_value(e())
        return ins, d

    def walk(self, node, acc=None, depth=0):
        """All syntax nodes below a node, by their attributes."""
        acc = [] if acc is None else acc
        if node is None or depth > 25 or len(acc) > 600: return acc
        n = type(node)
        if n.__module__ != "pywrenfold.ast": return acc
        acc.append(node)
        if n.__name__ == "AstSpan":
            for c in node: self.walk(c, acc, depth + 1)
            return acc
        for k, v in inspect.getmembers(n, lambda v: isinstance(v, property)):
            c = getattr(node, k)
            if type(c) in self.classes and type(c).__module__ != "pywrenfold.ast": self.offer(c)
            self.walk(c, acc, depth + 1)
        return acc

    def m_nodes(self):
        """Syntax nodes outlive the definition they belong to."""
        r, cg = self.rng, self.cg
        for _ in range(3):
            try:
                ins, d = self.description()
                self.own = True
                p = cg.OptimizationParams()
                p.factorization_passes, p.binarize_operations = r.choice([0, 1, 2, 5]), r.random() < 0.5
                f = cg.transpile(d, optimization_params=p, convert_ternaries=r.random() < 0.5)
            except Exception as ex:
                self.raised("transpile", None, (), {}, ex)
                continue
            finally:
                self.own = False
            nodes = self.walk(f)
            g = r.choice([lambda: cg.CppGenerator(r.choice(list(cg.CppMatrixTypeBehavior.__members__.values()))), lambda: cg.RustGenerator(), lambda: cg.PythonGenerator()])()
            base = [g]
            if r.random() < 0.7: r.shuffle(nodes)
            nodes = nodes[:r.choice([5, 40, 200])]
            spans = [iter(n) for n in nodes if type(n).__name__ == "AstSpan"]
            del f, ins
            if r.random() < 0.5: del d
            gc.collect(0)
            for n in nodes:
                self.trace = [type(n).__name__]
                try:
                    str(n), repr(n)
                    for k, v in inspect.getmembers(type(n), lambda v: isinstance(v, property)): getattr(n, k)
                    if hasattr(n, "__len__"): len(n), [n[i] for i in range(-len(n) - 1 if r.random() < 0.1 else 0, len(n))]
                    if hasattr(n, "get_field_value"):
                        for fl in n.type.fields: n.get_field_value(fl.name)
                    if type(n).__name__ not in ("AstSpan", "FunctionDefinition", "FunctionSignature"): base[0].format(n)
                except Exception as ex:
                    self.raised("node " + type(n).__name__, None, (), {}, ex)
                self.ctx.event("syntax nodes used after their definition")
                self.ctx.event("calls")
            for it in spans:
                for c in it: self.offer(c)
            self.offer(nodes[:6])
            for _ in range(12): self.step()

    def m_describe(self):
        """Descriptions that are malformed or unusual."""
        r, cg, s, ti = self.rng, self.cg, self.s, self.ti
        ins, d = self.description()
        self.offer(d)
        self.offer(ins[:4])
        desc = [t for t in self.table if ".gen." in t[0] or "type_info" in t[0] or "create_custom" in t[0] or "compound" in t[0]]
        for _ in range(30): self.step(r.choice(desc))
        names = ["", "x", "class", "a b", "\0", "é", "x" * 500, "a0", "o0", "_", "1"]
        for _ in range(4):
            f = cg.FunctionDescription(r.choice(names))
            try:
                for k in range(r.choice([0, 1, 2, 40])):
                    f.add_input_argument(r.choice(names), self.make(r.choice(["ScalarType", "MatrixType", "CustomType"])))
                for k in range(r.choice([0, 1, 2])):
                    f.add_output_argument(r.choice(names), r.random() < 0.5, r.choice([self.pick("Expr"), self.pick("MatrixExpr"), s.zoo, s.nan, s.I, s.unique_symbols(1), s.derivative(s.Function("f")(s.symbol("x")), s.symbol("x"))]))
                if r.random() < 0.5: f.set_return_value(r.choice([self.pick("Expr"), s.zoo, s.integer(-2 ** 63), s.float_constant(float("nan")), s.float_constant(float("inf"))]))
                if r.random() < 0.3: f.set_return_value(self.pick("Expr"))
            except Exception as ex:
                self.raised("description", None, (), {}, ex)
            self.generate(f)

    own = False

    def generate(self, f, gens=None):
        r, cg = self.rng, self.cg
        p = cg.OptimizationParams()
        try:
            p.factorization_passes = r.choice([0, 1, 3, 20])
            p.binarize_operations = r.random() < 0.5
            df = cg.transpile(f, optimization_params=p, convert_ternaries=r.random() < 0.5)
        except Exception as ex:
            self.raised("transpile", f, (), {}, ex)
            return
        for g in gens or [cg.CppGenerator(), cg.CppGenerator(cg.CppMatrixTypeBehavior.Eigen), cg.RustGenerator(), cg.PythonGenerator(target=r.choice(list(cg.PythonGeneratorTarget.__members__.values())))]:
            self.ctx.event("calls")
            self.trace = ["generate with " + type(g).__name__]
            try:
                code = g.generate(df) if r.random() < 0.8 else g.generate([df, df])
                if not isinstance(code, str): self.ctx.violation("generated type", "generate returned %r" % type(code))
                self.ctx.event("calls that returned")
            except Exception as ex:
                self.raised("generate", None, (), {}, ex)

    def m_override(self):
        """Generators with overridden formatters, which raise, return other things or keep what they are given."""
        r, cg = self.rng, self.cg
        from wrenfold import ast
        base = r.choice([cg.CppGenerator, cg.RustGenerator, cg.PythonGenerator])
        snake = lambda k: re.sub(r"(?<!^)(?=[A-Z])", "_", k).lower()
        methods = ["format_" + snake(k) for k in dir(ast) if k[0].isupper()] + ["format_scalar_type", "format_matrix_type", "format_custom_type"]
        kept = []

        def make(kind, name):
            def f(self_, *a, **k):
                kept.extend(a[:1])
                self.ctx.event("overridden formatters called")
                if kind == 0: raise Boom("formatter")
                if kind == 1: return self.hostile_value()
                if kind == 2: return "<" + name + ">"
                if kind == 3:
                    gc.collect(0)
                    return self_.super_format(*a, **k)
                if kind == 4: return self_.format(a[0])
                return "%s" % (a[0],)
            return f
        ks = r.sample(methods, r.choice([1, 2, 5, 12, 30]))
        cls = type("G", (base,), {k: make(r.choice([0, 1, 2, 3, 3, 3, 3, 3, 5, 4] if r.random() < 0.3 else [3, 3, 3, 3, 5]), k) for k in ks})
        try:
            g = cls()
        except Exception as ex:
            self.raised("generator", None, (), {}, ex)
            return
        for _ in range(3):
            _, d = self.description()
            self.own = True
            self.generate(d, [g])
            self.own = False
            del d
            gc.collect(0)
            for n in kept:
                try:
                    str(n), repr(n)
                    for k, v in inspect.getmembers(type(n), lambda v: isinstance(v, property)): getattr(n, k)
                except Exception as ex:
                    self.raised("kept node", None, (), {}, ex)
                self.ctx.event("syntax nodes used after their definition")
            self.offer(kept[:6])
            del kept[:]
        del g
        for _ in range(10): self.step()


def text(o):
    try:
        return "%s %s" % (type(o).__name__, str(o)[:160])
    except Exception as ex:
        return type(o).__name__


def kids(o):
    n = type(o).__name__
    if n == "MatrixExpr": return o.to_flat_list()
    if n in ("Expr", "BooleanExpr"): return list(o.args)
    return []


def small(o, limit):
    """Counts at most `limit` nodes of the expanded tree."""
    todo, k = [o], 0
    while todo:
        k += 1
        if k > limit: return False
        c = kids(todo.pop())
        if len(c) > limit: return False
        todo += c
    return True


def bigpower(o):
    todo, k = [o], 0
    while todo:
        e = todo.pop()
        k += 1
        if k > 2000: return True
        if isinstance(e, (list, tuple)):
            todo += list(e)
            continue
        if type(e).__name__ not in ("Expr", "MatrixExpr", "BooleanExpr"): continue
        if type(e).__name__ == "Expr" and e.type_name == "Power":
            x = e.args[1]
            if x.type_name in ("Integer", "Rational") or "Constant" in x.type_name:
                try:
                    if abs(x.eval()) > 8: return True
                except Exception:
                    return True
        todo += kids(e)
    return False
