"""Compiles and runs generated C++ functions (span and Eigen flavour) under ASan+UBSan.

An item is a dict: spec, code, flavour ('span'|'eigen'), scalar ('double'|'float'), layout (int, how arrays are
passed), points (flattened inputs), want (requested optional outputs per point).
run(items) -> per item a list of [row, calls] per point, or a string with the error.
"""
import os, pathlib, re, shutil, subprocess, tempfile
from . import build as B, fd

BASE = ["-std=c++17", "-w", "-O1", "-fwrapv", "-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow,signed-integer-overflow,vptr,alignment",
        "-fsanitize-recover=undefined", "-fno-omit-frame-pointer", "-I", str(B.REPO / "components/runtime"), "-isystem", "/usr/include/eigen3"]
PRELUDE = """#define WF_SPAN_EIGEN_SUPPORT
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <limits>
#include <algorithm>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <wrenfold/span.h>
static std::FILE* g_out;
static void rec(const char* name, const double* v, int n) {
  std::fprintf(g_out, "C %s", name);
  for (int i = 0; i < n; ++i) std::fprintf(g_out, " %a", v[i]);
  std::fprintf(g_out, "\\n");
}
static void emit(const char* tag, double v) { std::fprintf(g_out, "%s %a\\n", tag, v); }
"""


class CompileError(Exception):
    pass


def ctype(t, sc="double"):
    if t[0] == "f": return sc
    if t[0] == "i": return "std::int64_t"
    if t[0] == "m": return "Eigen::Matrix<%s, %d, %d>" % (sc, t[1], t[2])
    return t[1]


def struct_defs(types, sc):
    done, out = set(), []

    def add(t):
        if t[0] != "s" or t[1] in done:
            return
        for _, x in t[2]:
            add(x)
        done.add(t[1])
        out.append("struct %s { %s };" % (t[1], " ".join("%s %s;" % (ctype(x, sc), f) for f, x in t[2])))
    for t in types:
        add(t)
    return out


def elements(t, e):
    """C++ expressions of the flattened elements of e."""
    if t[0] in "fi": return [e]
    if t[0] == "m": return ["%s(%d, %d)" % (e, r, c) for r in range(t[1]) for c in range(t[2])]
    return [y for f, x in t[2] for y in elements(x, "%s.%s" % (e, f))]


def all_types(spec):
    return [t for _, t in spec["args"]] + [o[2] for o in spec["outputs"]] + [t for e in spec["exts"] for _, t in list(e[1]) + [("", e[2])]] + list(spec["structs"])


def externals(spec, sc):
    out = []
    for name, args, ret in spec["exts"]:
        ps = ", ".join("const %s& p%d" % (ctype(t, sc), j) for j, (_, t) in enumerate(args))
        el = [x for j, (_, t) in enumerate(args) for x in elements(t, "p%d" % j)]
        b = ["double a[] = {%s};" % ", ".join("static_cast<double>(%s)" % x for x in el), 'rec("%s", a, %d);' % (name, len(el)), "%s r;" % ctype(ret, sc)]
        for i, x in enumerate(elements(ret, "r")):
            ty = "std::int64_t" if fd.flat_types(ret)[i] == "i" else sc
            if ty != sc:
                b.append("%s = %d;" % (x, 7 * i + 3))
                continue
            b.append("%s = static_cast<%s>(%s);" % (x, ty, " + ".join([repr(0.125 * (i + 1))] + ["(%r) * a[%d]" % (fd.ext_weights(name, i, j), j) for j in range(len(el))])))
        out.append("%s %s(%s) { %s return r; }" % (ctype(ret, sc), name, ps, " ".join(b)))
    return out


def driver(k, it):
    spec, sc, fl = it["spec"], it["scalar"], it["flavour"]
    body, actual, k_in = [], [], 0
    lay = it["layout"]
    spans = 0
    for j, (a, t) in enumerate(spec["args"]):
        v = "a%d" % j
        if t[0] == "m" and fl == "span" and (lay + j) % 4:
            body.append(span_in(v, t, sc, k_in, (lay + j) % 4))
        else:
            if t[0] == "m" and fl == "span" and t[1] == 1 and t[2] > 1:
                body.append("Eigen::Matrix<%s, %d, %d, Eigen::RowMajor> %s;" % (sc, t[1], t[2], v))
            else:
                body.append("%s %s;" % (ctype(t, sc), v))
            for i, x in enumerate(elements(t, v)):
                ty = "std::int64_t" if fd.flat_types(t)[i] == "i" else sc
                body.append("%s = static_cast<%s>(in[%d]);" % (x, ty, k_in + i))
        k_in += fd.flat(t)
        actual.append(v)
    post, ret = [], None
    nopt = 0
    args_out = []
    for j, (kind, name, t, _) in enumerate(spec["outputs"]):
        v = "o%d" % j
        if kind == "ret":
            ret = (j, t)
            continue
        cond = "true"
        if kind == "opt":
            cond = "(want >> %d & 1)" % nopt
            nopt += 1
        if t[0] == "m" and fl == "span" and (lay + j) % 4:
            d, expr, els, pad = span_out(v, t, sc, (lay + j) % 4, cond if kind == "opt" else None)
            body.append(d)
            actual.append(expr)
            post.append("if (%s) { %s } %s" % (cond, " ".join('emit("V", %s);' % x for x in els), pad))
        else:
            if t[0] == "m" and fl == "span":
                major = "Eigen::RowMajor" if t[1] == 1 and t[2] > 1 or (t[2] > 1 and lay % 2) else "Eigen::ColMajor"
                body.append("Eigen::Matrix<%s, %d, %d, %s> %s; %s.setConstant(std::numeric_limits<%s>::quiet_NaN());" % (sc, t[1], t[2], major, v, v, sc))
                if kind == "opt":
                    # an optional Eigen output: through a span of its storage
                    rs, cs = (t[2], 1) if "Row" in major else (1, t[1])
                    actual.append("wf::make_span(%s ? %s.data() : static_cast<%s*>(nullptr), wf::make_constant_value_pack<%d, %d>(), wf::make_constant_value_pack<%d, %d>())" % (cond, v, sc, t[1], t[2], rs, cs))
                else:
                    actual.append(v)
            else:
                body.append("%s %s;" % (ctype(t, sc), v))
                for i, x in enumerate(elements(t, v)):
                    ty = "std::int64_t(-77777)" if fd.flat_types(t)[i] == "i" else "std::numeric_limits<%s>::quiet_NaN()" % sc
                    body.append("%s = %s;" % (x, ty))
                if kind == "opt":
                    actual.append("%s ? &%s : static_cast<%s*>(nullptr)" % (cond, v, ctype(t, sc)))
                else:
                    actual.append(v)
            post.append("if (%s) { %s }" % (cond, " ".join('emit("V", static_cast<double>(%s));' % x for x in elements(t, v))))
        post[-1] += ' std::fprintf(g_out, "O %s\\n");' % name
    # spans are passed as lvalues
    pre, names = [], []
    for i, e in enumerate(actual):
        if re.fullmatch(r"\w+", e):
            names.append(e)
        elif e.startswith("wf::"):
            pre.append("auto s%d = %s;" % (i, e))
            names.append("s%d" % i)
        else:
            names.append(e)
    # functions without scalar arguments cannot deduce Scalar
    call = "%s%s(%s)" % (spec["name"], "<%s>" % sc if "typename Scalar" in it["code"] else "", ", ".join(names))
    if ret:
        call = "const auto ret = " + call + ";"
        post.append(" ".join('emit("V", static_cast<double>(%s));' % x for x in elements(ret[1], "ret")) + ' std::fprintf(g_out, "O %s\\n");' % spec["outputs"][ret[0]][1])
    lines = ["namespace n%d {" % k] + struct_defs(all_types(spec), sc) + externals(spec, sc) + [it["code"]]
    lines += ["static void run(const double* in, unsigned want) {"] + body + pre + [call + ";"] + post + ["}", "}"]
    return "\n".join(lines)


def layout(t, mode):
    """(size, row stride, column stride, constant strides?)"""
    r, c = t[1], t[2]
    if mode == 1: return r * c, c, 1, True
    if mode == 2: return r * c, 1, r, True
    return (r - 1) * (2 * c + 1) + (c - 1) * 2 + 1, 2 * c + 1, 2, False


def strides(rs, cs, const):
    return "wf::make_constant_value_pack<%d, %d>()" % (rs, cs) if const else "wf::make_value_pack(std::size_t(%d), std::size_t(%d))" % (rs, cs)


def span_in(v, t, sc, k_in, mode):
    n, rs, cs, const = layout(t, mode)
    w = " ".join("b%s[%d] = static_cast<%s>(in[%d]);" % (v, r * rs + c * cs, sc, k_in + r * t[2] + c) for r in range(t[1]) for c in range(t[2]))
    return ("%s b%s[%d]; for (auto& x : b%s) x = std::numeric_limits<%s>::quiet_NaN(); %s auto %s = wf::make_span(static_cast<const %s*>(b%s), wf::make_constant_value_pack<%d, %d>(), %s);"
            % (sc, v, n, v, sc, w, v, sc, v, t[1], t[2], strides(rs, cs, const)))


def span_out(v, t, sc, mode, cond):
    n, rs, cs, const = layout(t, mode)
    d = "%s b%s[%d]; for (auto& x : b%s) x = %s;" % (sc, v, n, v, "static_cast<%s>(-123456.75)" % sc)
    at = {(r, c): r * rs + c * cs for r in range(t[1]) for c in range(t[2])}
    ptr = "static_cast<%s*>(b%s)" % (sc, v) if cond is None else "(%s ? static_cast<%s*>(b%s) : nullptr)" % (cond, sc, v)
    expr = "wf::make_span(%s, wf::make_constant_value_pack<%d, %d>(), %s)" % (ptr, t[1], t[2], strides(rs, cs, const))
    els = ["static_cast<double>(b%s[%d])" % (v, at[r, c]) for r in range(t[1]) for c in range(t[2])]
    free = sorted(set(range(n)) - set(at.values()))
    pad = " ".join('if (b%s[%d] != static_cast<%s>(-123456.75)) std::fprintf(g_out, "X written outside of the span %s\\n");' % (v, i, sc, v) for i in free)
    if cond is not None:
        pad += " if (!%s) for (auto& x : b%s) if (x != static_cast<%s>(-123456.75)) std::fprintf(g_out, \"X absent output was written\\n\");" % (cond, v, sc)
    return d, expr, els, pad


class Runner:
    def __init__(self, tag):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix=tag + "-", dir=str(self.root())))
        self.pch = None
        self.n = 0

    @staticmethod
    def root():
        p = B.BUILD / "tmp"
        p.mkdir(parents=True, exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def env(self):
        e = B._env()
        e.pop("LD_PRELOAD", None)
        e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:symbolize=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0:symbolize=0"
        e["TMPDIR"] = str(self.dir)
        return e

    def compile(self, items, extra=()):
        h = self.dir / "pre.h"
        if self.pch is None:
            h.write_text(PRELUDE)
            p = subprocess.run(["clang++", "-x", "c++-header", str(h), "-o", str(h) + ".pch"] + BASE, env=self.env(), capture_output=True, text=True)
            if p.returncode:
                raise CompileError("prelude: " + p.stderr[:3000])
            self.pch = True
        self.n += 1
        src, exe = self.dir / ("t%d.cc" % self.n), self.dir / ("t%d" % self.n)
        main = ["int main() {", "g_out = stdout; static double in[4096]; int k, n; unsigned want;", 'while (std::scanf("%d %d %u", &k, &n, &want) == 3) {',
                'for (int i = 0; i < n; ++i) if (std::scanf("%lf", in + i) != 1) return 3;',
                'std::fprintf(stderr, "@@ %d\\n", k); std::fflush(stderr); std::fprintf(stdout, "@@ %d\\n", k); std::fflush(stdout);', "switch (k) {"]
        main += ["case %d: n%d::run(in, want); break;" % (k, k) for k in range(len(items))]
        main += ["}", 'std::fprintf(stdout, "E\\n"); std::fflush(stdout); }', "return 0; }"]
        src.write_text("\n".join([driver(k, it) for k, it in enumerate(items)] + main))
        p = subprocess.run(["clang++", "-include-pch", str(h) + ".pch", str(src), "-o", str(exe)] + BASE + list(extra), env=self.env(), capture_output=True, text=True)
        if p.returncode:
            raise CompileError(p.stderr)
        src.unlink()
        return exe

    def run(self, items):
        try:
            exe = self.compile(items)
        except CompileError as e:
            if len(items) == 1:
                err = [l for l in str(e).split("\n") if "error" in l] or [str(e)]
                return ["does not compile: " + "\n".join(err[:6])]
            h = len(items) // 2
            return self.run(items[:h]) + self.run(items[h:])
        out = [[] for _ in items]
        todo = []
        for k, it in enumerate(items):
            opts = [o[1] for o in it["spec"]["outputs"] if o[0] == "opt"]
            for p, w in zip(it["points"], it["want"]):
                todo.append((k, "%d %d %d %s" % (k, len(p), sum(1 << i for i, o in enumerate(opts) if o in w), " ".join(float(x).hex() for x in p))))
        while todo:
            p = subprocess.run([str(exe)], input="\n".join(t for _, t in todo) + "\n", env=self.env(), capture_output=True, text=True, timeout=300)
            chunks = p.stdout.split("@@ ")[1:]
            errs = p.stderr.split("@@ ")[1:]
            done = 0
            for c, e in zip(chunks, errs):
                k = int(c.split("\n", 1)[0])
                bad = e.split("\n", 1)[1].strip()
                ok = c.rstrip().endswith("E")
                if bad or not ok:
                    out[k].append("sanitizer report: %s" % (bad[:1500] or "died with status %d" % p.returncode))
                else:
                    out[k].append(self.parse(c, items[k]["spec"]))
                done += 1
                if not ok:
                    break
            if done == 0:
                for k, _ in todo: out[k].append("the program died with status %d: %s" % (p.returncode, p.stderr[:500]))
                break
            todo = todo[done:]
        exe.unlink()
        return out

    def parse(self, text, spec):
        rows, vals, calls = {}, [], []
        for l in text.split("\n")[1:]:
            if l.startswith("V "): vals.append(float.fromhex(l[2:]) if "nan" not in l and "inf" not in l else float(l[2:]))
            elif l.startswith("O "):
                rows[l[2:]] = vals or None
                vals = []
            elif l.startswith("C "):
                w = l.split()
                calls.append([w[1], [float.fromhex(x) if "n" not in x else float(x) for x in w[2:]]])
            elif l.startswith("X "):
                return l[2:]
        return [[rows.get(o[1]) for o in spec["outputs"]], calls]
