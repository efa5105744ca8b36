"""C23: functions written against the C++ API are described and generated as written."""
import ast, os, random, re, subprocess
from .. import build as B, cxx, fd, gen, pyexec, ref
from ..worker import Violation
from . import c09
from .c03 import replace
from .c06 import overflows
from .c09 import build, observe, compare, minimise, request

RULE = ("random functions (scalars, integers, matrices, nested custom types, external functions, optional outputs, conditionals) written out as C++ programs against wrenfold's C++ API, compiled "
        "with ASan+UBSan against the instrumented core library and run; the NumPy code each one prints is executed at random points, and the C++ code of every third batch is compiled and executed, "
        "against the symbolic outputs within a rounding model; non-trivial if outputs were decided; distinct by description")
MIN_EVENTS = {"outputs decided": 8000, "functions": 400, "functions with custom types": 100, "functions with external calls": 60, "functions compiled from generated C++": 80, "integer arguments": 80, "functions using expression methods": 80}
BATCH = {"quick": 14, "thorough": 24}
WATCHDOG = 600
HEADER = B.VERIF / "harness/c23.h"
DIR = B.BUILD / "asan/c23"


def command(bdir):
    t = (bdir / "build.ninja").read_text()
    m = re.search(r"build components/core/CMakeFiles/wf_core\.dir/\S*cse\.cc\.o:.*?\n((?:  .*\n)+)", t)
    d = dict(l.strip().split(" = ", 1) for l in m.group(1).splitlines() if " = " in l)
    libs = sorted(set(re.findall(r"/\S+libabsl_\S+?\.so[.\d]*", t)))
    flags = [f for f in d.get("FLAGS", "").split() if f not in ("-Werror", "-pedantic", "-Wall", "-Wextra") and not f.startswith("-g")]
    flags = ["-O0" if re.match(r"-O\d", f) else f for f in flags]
    return ["clang++"] + d.get("DEFINES", "").split() + flags + d.get("INCLUDES", "").split() + ["-w"], libs


def prepare(bdir, tier):
    DIR.mkdir(exist_ok=True)
    cmd, _ = command(bdir)
    r = subprocess.run(cmd + ["-x", "c++-header", str(HEADER), "-o", str(DIR / "c23.pch")], capture_output=True, text=True, env=B._env())
    if r.returncode:
        raise B.BuildError("harness c23.h does not compile:\n" + r.stderr[-3000:])


FN = {"ln": "log", "sign": "signum"}


class Cxx:
    """Writes a specification as a C++ function."""

    def __init__(self, spec, k, rng, style):
        self.spec, self.k, self.rng, self.style = spec, k, rng, style
        self.structs, self.body, self.seen, self.top = [], [], {}, []
        self.temp = 0

    def ty(self, t, index=None):
        if t == fd.F: return "scalar_expr"
        if t == fd.I: return "ta::int_scalar_expr"
        if t[0] == "m": return "ta::static_matrix<%d, %d>" % t[1:]
        self.struct(t)
        return "c%d::%s" % (self.k, t[1])

    def struct(self, t):
        if t in self.structs: return
        ms, reg = [], []
        fields = list(t[2])
        for f, x in fields:
            init = "{wf::make_zeros(%d, %d)}" % x[1:] if x[0] == "m" else "{}" if x[0] == "s" else "{0}"
            ms.append("  %s %s%s;\n" % (self.ty(x), f, init))
            reg.append('.add_field("%s", &wfv::c%d::%s::%s)' % (f, self.k, t[1], f))
        self.structs.append(t)
        if self.rng.random() < 0.5: ms.reverse()          # the order of registration is what counts
        self.top.append("namespace wfv { namespace c%d { struct %s {\n%s}; } }\n" % (self.k, t[1], "".join(ms)) +
                        "template <> struct wf::custom_type_registrant<wfv::c%d::%s> {\n  auto operator()(wf::custom_type_registry& registry) const {\n"
                        "    return wf::custom_type_builder<wfv::c%d::%s>(registry, \"%s\")%s;\n  }\n};\n" % (self.k, t[1], self.k, t[1], t[1], "".join(reg)))

    def external(self, e):
        a = [self.ty(t) for _, t in e[1]]
        r = self.ty(e[2])
        self.top.append("namespace wfv { namespace c%d { struct %s : declare_external_function<%s, %s, type_list<%s>> {\n"
                        "  static constexpr std::string_view name() noexcept { return \"%s\"; }\n  static constexpr auto arg_names() noexcept { return std::make_tuple(%s); }\n}; } }\n"
                        % (self.k, e[0], e[0], r, ", ".join(a), e[0], ", ".join('"%s"' % p for p, _ in e[1])))

    def paths(self, t, base):
        if t[0] in "fi": return ["static_cast<const scalar_expr&>(%s)" % base if t == fd.I else base]
        if t[0] == "m":
            flat = [(r, c) for r in range(t[1]) for c in range(t[2])]
            return ["%s[%d]" % (base, i) if min(t[1:]) == 1 and self.style % 2 else "%s(%d, %d)" % (base, r, c) for i, (r, c) in enumerate(flat)]
        return [y for f, x in t[2] for y in self.paths(x, base + "." + f)]

    def new(self):
        self.temp += 1
        return "v%d" % self.temp

    def object(self, t, vals):
        """An expression (possibly a new local variable) of type t from the texts of its elements."""
        if t[0] in "fi": return vals[0]
        if t[0] == "m":
            k = self.rng.random()
            if t[2] == 1 and k < 0.4: return "%s{make_vector(%s)}" % (self.ty(t), ", ".join(vals))
            if len(vals) > 1 and k < 0.7: return "%s{%s}" % (self.ty(t), ", ".join(vals))
            return "%s{make_matrix(%d, %d, %s)}" % (self.ty(t), t[1], t[2], ", ".join(vals))
        v, k = self.new(), 0
        self.body.append("%s %s{};" % (self.ty(t), v))
        for f, x in t[2]:
            m = fd.flat(x)
            self.body.append("%s.%s = %s;" % (v, f, self.object(x, vals[k:k + m])))
            k += m
        return v

    def call(self, c):
        hit = self.seen.get(id(c[2]))
        if hit: return hit[1]
        decl = next(e for e in self.spec["exts"] if e[0] == c[1])
        args = []
        for (_, t), a in zip(decl[1], c[2]):
            if a[0] == "scalar": args.append(self(a[1], raw=False))
            elif a[0] == "arg": args.append(a[1])
            elif a[0] == "result": args.append(self.call(a[1]))
            elif a[0] == "mat": args.append(self.object(t, [self(x, raw=False) for x in a[3]]))
            else: args.append(self.object(t, [self(x, raw=False) for x in a[2]]))
        v = self.new()
        self.body.append("const auto %s = c%d::%s::call(%s);" % (v, self.k, c[1], ", ".join(args)))
        self.seen[id(c[2])] = (c[2], v)
        return v

    def __call__(self, n, raw=False):
        """raw: a number may be written as a C++ number."""
        k = n[0]
        if k == "int":
            t = "std::int64_t{%d}" % n[1] if abs(n[1]) >= 2 ** 31 else str(n[1])
            return t if raw and abs(n[1]) < 2 ** 31 and n[1] >= 0 else "scalar_expr(%s)" % t
        if k == "rat": return "(scalar_expr(%d) / %d)" % n[1:] if n[2] > 0 and self.style % 2 else "scalar_expr(rational_constant{%d, %d})" % n[1:]
        if k == "flt": return repr(n[1]) if raw and n[1] >= 0 else "scalar_expr(%r)" % n[1]
        if k == "pi": return "constants::pi"
        if k == "e": return "constants::euler"
        if k == "sym":
            a, j = n[1].split("#")
            return self.leaves[a][int(j)]
        if k == "extcall":
            decl = next(e for e in self.spec["exts"] if e[0] == n[1])
            return self.paths(decl[2], self.call(n[:3]))[n[3]]
        if k in ("add", "mul", "sub", "div"):
            op = {"add": "+", "mul": "*", "sub": "-", "div": "/"}[k]
            a = [self(x, raw=False) for x in n[1:]]
            j = self.rng.randrange(len(a)) if len(a) > 1 else -1
            if j >= 0 and len(a) == 2: a[j] = self(n[1 + j], raw=True)
            return "(%s)" % (" %s " % op).join(a)
        if k == "neg": return "(-%s)" % self(n[1])
        if k == "pow": return "pow(%s, %s)" % (self(n[1]), self(n[2], raw=True))
        if k == "sqrt": return "sqrt(%s)" % self(n[1])
        if k == "fn": return "%s(%s)" % (FN.get(n[1], n[1]), ", ".join(self(x) for x in n[2:]))
        if k in ("max", "min"): return "%s(%s, %s)" % (k, self(n[1]), self(n[2]))
        if k == "where": return "where(%s, %s, %s)" % (self(n[1]), self(n[2]), self(n[3], raw=True))
        if k == "iverson": return "iverson(%s)" % self(n[1])
        if k == "rel":
            return "(%s %s %s)" % (self(n[2]), n[1], self(n[3], raw=True))
        if k == "true" or k == "false": return "boolean_expr(%s)" % k
        if k == "uneval": return "make_unevaluated(%s)" % self(n[1])
        if k == "cxx":
            e, x = self(n[2]), self(n[3])
            if n[1] == "distribute": return "%s.distribute()" % e
            if n[1] == "collect": return "%s.collect(%s)" % (e, x)
            if n[1] == "collect_many": return "%s.collect({%s, %s})" % (e, x, "scalar_expr(\"unrelated\")")
            if n[1] == "matrix": return "make_vector(%s, 1).distribute().collect({%s})(0, 0)" % (e, x)
            return "%s.subs(scalar_expr(\"unrelated\"), 3)" % e
        if k == "cxxsubs":
            e, x, r = self(n[1]), self(n[2]), self(n[3])
            return ["%s.subs(%s, %s)", "make_vector(%s, 7).subs(%s, %s)[0]"][self.style % 2] % (e, x, r)
        if k == "cxxdiff":
            e, x = self(n[1]), self(n[2])
            if self.style == 0: return "%s.diff(%s)" % (e, x)
            if self.style == 1: return "make_vector(0, %s).diff(%s)[1]" % (e, x)
            if self.style == 2: return "make_vector(%s).jacobian(make_vector(scalar_expr(\"unrelated\"), %s))(0, 1)" % (e, x)
            return "make_row_vector(%s, 5).transposed().jacobian({%s})(0, 0)" % (e, x)
        if k == "stopd": return "stop_diff(%s)" % self(n[1])
        raise KeyError(k)

    def function(self, passes, binarize, ternaries):
        spec = self.spec
        rng = self.rng
        for e in spec["exts"]: self.external(e)
        params = []
        self.leaves = {}
        for a, t in spec["args"]:
            ty = self.ty(t)
            params.append(("const %s& %s" if rng.random() < 0.4 else "%s %s") % (ty, a))
            self.leaves[a] = self.paths(t, a)
        outs = []
        for kind, name, t, nodes in spec["outputs"]:
            vals = [self(n, raw=False) for n in nodes]
            o = self.object(t, vals)
            if t == fd.F: o = "scalar_expr(%s)" % o
            v = self.new()
            self.body.append("%s %s{%s};" % (self.ty(t), v, o))
            if kind == "ret": outs.append("return_value(%s)" % v)
            elif kind == "opt" and rng.random() < 0.5: outs.append('optional_output_arg("%s", %s)' % (name, v))
            elif kind == "opt": outs.append('output_arg<%s>("%s", %s, true)' % (self.ty(t), name, v))
            elif rng.random() < 0.2: outs.append('return_value(%s).to_output_arg("%s")' % (v, name))
            else: outs.append('output_arg("%s", %s)' % (name, v) if rng.random() < 0.7 else 'output_arg<%s>("%s", %s, false)' % (self.ty(t), name, v))
        if len(outs) == 1:
            ret = v if outs[0].startswith("return_value") and "to_output" not in outs[0] and rng.random() < 0.5 else outs[0]
        else:
            ret = "std::make_tuple(%s)" % ", ".join(outs)
        conf = "%d, %s, %s" % (passes, str(binarize).lower(), str(ternaries).lower())
        lam = "(%s) {\n  %s\n  return %s;\n}" % (", ".join(params), "\n  ".join(self.body), ret)
        args = "".join(', arg("%s")' % a for a, _ in spec["args"])
        if rng.random() < 0.5:
            fn = "namespace wfv { namespace c%d { static auto user%s\nstatic void go() { emit(%s, \"%s\", &user%s); } } }\n" % (self.k, lam, conf, spec["name"], args)
        else:
            fn = "namespace wfv { namespace c%d { static void go() { emit(%s, \"%s\", []%s%s); } } }\n" % (self.k, conf, spec["name"], lam, args)
        return "".join(self.top) + fn


class Check:
    RANDOM = {"quick": 56, "thorough": 2500}
    NPOINTS = 6

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.host = pyexec.Host("numpy", 64)
        import numpy as np
        np.seterr(all="ignore")
        self.runner = cxx.Runner("c23")
        import atexit
        atexit.register(self.runner.close)
        self.cmd, self.libs = command(B.BUILD / "asan")
        self.rt = os.path.dirname(subprocess.run(["clang++", "-print-file-name=libclang_rt.asan-x86_64.so"], capture_output=True, text=True).stdout.strip())
        self.n = 0

    def total(self):
        return self.RANDOM[self.tier]

    def case(self, rng):
        while True:
            rich = rng.random() < 0.75
            spec = fd.random_spec(rng, structs=rich, exts=rich and rng.random() < 0.5, cond=rng.choice([0.1, 0.2, 0.4]), depth=rng.choice([(1, 2), (0, 1), (1, 2, 3)]), sharing=0.4, max_nodes=150)
            if spec is not None:
                if rng.random() < 0.4: spec = self.methods(spec, rng)
                return (spec, rng.randint(0, 3), rng.randint(0, 10 ** 9), (rng.choice([0, 1, 2, 3]), rng.random() < 0.6, rng.random() < 0.7))

    def methods(self, spec, rng):
        """Some outputs go through methods of the C++ expression classes."""
        leaves = [("sym", "%s#%d" % (a, k)) for a, t in spec["args"] for k, y in enumerate(fd.flat_types(t)) if y == "f"]
        if not leaves: return spec
        outs = []
        for o in spec["outputs"]:
            ns = []
            for n, y in zip(o[3], fd.flat_types(o[2])):
                k = rng.random()
                if y == "f" and k < 0.7:
                    x = rng.choice(leaves)
                    if k < 0.15: n = ("cxx", rng.choice(["distribute", "collect", "collect_many", "same", "matrix"]), n, x)
                    elif k < 0.4 and not ref.contains(n, ("extcall",)):
                        # what is differentiated or replaced is a leaf; the replacement keeps domains
                        r = rng.choice([rng.choice(leaves), ("fn", "sin", rng.choice(leaves)), ("rat", 3, 4), ("mul", ("flt", 0.5), x)])
                        n = ("cxxsubs", n, x, r, replace(n, x, r))
                    elif not ref.contains(n, ("extcall", "floor", "sign", "uneval", "stopd")): n = ("cxxdiff", n, x)
                ns.append(n)
            outs.append(o[:3] + (tuple(ns),))
        return dict(spec, outputs=tuple(outs))

    def run(self, i, rng):
        cases = [self.case(rng) for _ in range(BATCH[self.tier])]
        bad = self.batch(cases, True, i % 3 == 0)
        for case, msg in bad[:2]:
            self.ctx.describe(repr(case))
            m = minimise(case, lambda c: self.one(c), 10) or (case, msg)
            self.ctx.violation(m[1].split("\n")[0][:160], m[1], repr(m[0]))

    def one(self, case):
        r = self.batch([case], False, True)
        return r[0][1] if r else None

    def replay(self, text):
        case = ast.literal_eval(text)
        self.ctx.describe(text)
        r = self.batch([case], True, True)
        if r:
            raise Violation("replay", r[0][1])

    def program(self, units):
        """Compiles and runs the units; per unit a dict of what it printed, or a string."""
        self.n += 1
        d = self.runner.dir
        src, exe = d / ("g%d.cc" % self.n), d / ("g%d" % self.n)
        main = "int main() {\n" + "".join("  wfv::guarded(%d, [] { wfv::c%d::go(); });\n" % (k, u[0]) for k, u in enumerate(units)) + "  return 0;\n}\n"
        src.write_text("\n".join(u[1] for u in units) + main)
        p = subprocess.run(self.cmd + ["-include-pch", str(DIR / "c23.pch"), str(src), str(B.BUILD / "asan/components/core/libwf_core.a")] + self.libs + ["-fuse-ld=lld", "-Wl,-rpath," + self.rt, "-o", str(exe)],
                           capture_output=True, text=True, env=self.runner.env())
        if p.returncode:
            if len(units) == 1:
                err = [l for l in p.stderr.split("\n") if "error" in l] or [p.stderr]
                return ["the program does not compile: " + "\n".join(err[:6])[:1500]]
            h = len(units) // 2
            return self.program(units[:h]) + self.program(units[h:])
        env = self.runner.env()
        res = subprocess.run([str(exe)], capture_output=True, env=env, timeout=300)
        exe.unlink()
        src.unlink()
        out, text = [None] * len(units), res.stdout
        pos, cur = 0, None
        while pos < len(text):
            e = text.index(b"\n", pos)
            w = text[pos:e].decode().split()
            pos = e + 1
            if w[0] == "@case": cur = {}
            elif w[0] == "@end": out[int(w[1])] = cur
            else:
                m = int(w[1])
                cur[w[0][1:]] = text[pos:pos + m].decode()
                pos += m + 1
        report = res.stderr.decode(errors="replace")
        if report.strip() or res.returncode:
            done = next((k for k, o in enumerate(out) if o is None), 0)
            if len(units) == 1 or out[done] is None:
                out[done] = "sanitizer report or crash (status %d): %s" % (res.returncode, report[:2500])
            else:       # reported without dying: find the unit
                return [o for u in units for o in self.program([u])]
            rest = self.program(units[done + 1:]) if done + 1 < len(units) else []
            out[done + 1:] = rest
        return out

    def batch(self, cases, count, compiled):
        ctx = self.ctx
        units, info, bad = [], [], []
        for case in cases:
            spec, style, seed, (passes, binarize, ternaries) = case
            if count: ctx.describe(repr(case))
            rng = random.Random(seed)
            try:
                built = build(spec, style, 2 ** 63)
            except Exception as ex:
                if type(ex).__module__.startswith("pywrenfold") or isinstance(ex, (TypeError, ValueError, RuntimeError)):
                    continue                    # what the Python API makes of it is decided by other properties
                raise
            if built is None:
                continue
            points, wants, expect = observe(spec, built[2], rng, self.NPOINTS)
            units.append((len(units), Cxx(spec, len(units), rng, style).function(passes, binarize, ternaries)))
            info.append((case, points, wants, expect))
        if not units:
            return bad
        if count: ctx.describe("batch of %r" % ([c[0] for c in info],))
        got = self.program(units)
        items = []
        for (case, points, wants, expect), unit, o in zip(info, units, got):
            spec = case[0]
            if isinstance(o, str) or o is None:
                bad.append((case, "%s\n%s" % (o, unit[1])))
                continue
            if "error" in o:
                if "overflow" in o["error"]:
                    if count: ctx.event("skipped: integer overflow")
                else:
                    bad.append((case, "the function cannot be generated: %s\n%s" % (o["error"][:600], unit[1])))
                continue
            if overflows(o["cpp"]):
                if count: ctx.event("skipped: constants overflow")
                continue
            res = self.host.run(request(spec, o["py"], points, wants))
            msg, dec = compare(spec, res, expect, wants)
            if msg:
                bad.append((case, "NumPy code: %s\n%s\n%s" % (msg, o["py"], unit[1])))
                continue
            if count:
                ctx.event("functions")
                ctx.event("outputs decided", dec)
                if any(fd.I == t or (t[0] == "s" and "i" in fd.flat_types(t)) for _, t in spec["args"]): ctx.event("integer arguments")
                if any(ref.contains(n, ("cxx", "cxxsubs", "cxxdiff")) for x in spec["outputs"] for n in x[3]): ctx.event("functions using expression methods")
                if any(t[0] == "s" for _, t in spec["args"]) or any(x[2][0] == "s" for x in spec["outputs"]): ctx.event("functions with custom types")
                if any(r[1] for r in res if not isinstance(r, str)): ctx.event("functions with external calls")
                if dec: ctx.distinct(repr(spec))
                ctx.sample(unit[1])
            if compiled:
                items.append((dict(spec=spec, code=o["cpp"], flavour="eigen", scalar="double", layout=0, points=points, want=wants), case, expect, wants, unit[1]))
        if items:
            for (it, case, expect, wants, text), res in zip(items, self.runner.run([x[0] for x in items])):
                if isinstance(res, str):
                    bad.append((case, "generated C++: %s\n%s\n%s" % (res, it["code"], text)))
                    continue
                msg, dec = compare(it["spec"], res, expect, wants)
                if msg:
                    bad.append((case, "generated C++: %s\n%s\n%s" % (msg, it["code"], text)))
                elif count:
                    ctx.event("functions compiled from generated C++")
                    ctx.event("outputs decided", dec)
        return bad
