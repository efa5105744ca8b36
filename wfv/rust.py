"""Compiles and runs generated Rust functions with debug assertions and overflow checks (same items as wfv.cxx)."""
import os, pathlib, shutil, struct, subprocess, tempfile
from . import build as B, fd
from .cxx import all_types, CompileError, Runner as CxxRunner

FLAGS = ["--edition=2021", "-Awarnings", "-Copt-level=0", "-Coverflow-checks=on", "-Cdebug-assertions=on", "-Cdebuginfo=0", "-Ccodegen-units=8"]
PRELUDE = """
use std::io::{Read, Write};
thread_local! { static OUT: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn put(s: &str) { OUT.with(|o| o.borrow_mut().push_str(s)); }
pub fn rec(name: &str, v: &[f64]) { put(&format!("C {}", name)); for x in v { put(&format!(" {:016x}", x.to_bits())); } put("\\n"); }
pub fn emit(v: f64) { put(&format!("V {:016x}\\n", v.to_bits())); }
pub const PAD: f64 = -123456.75;
pub struct Mat<const R: usize, const C: usize> { pub d: Vec<f64>, pub rs: usize, pub cs: usize, pub writes: usize }
impl<const R: usize, const C: usize> Mat<R, C> {
  pub fn new(rs: usize, cs: usize, v: f64) -> Self { Mat { d: vec![v; (R - 1) * rs + (C - 1) * cs + 1], rs, cs, writes: 0 } }
  fn at(&self, i: usize, j: usize) -> usize { assert!(i < R && j < C, "matrix index out of range"); i * self.rs + j * self.cs }
  pub fn put(&mut self, i: usize, j: usize, v: f64) { let k = self.at(i, j); self.d[k] = v; }
  pub fn val(&self, i: usize, j: usize) -> f64 { self.d[self.at(i, j)] }
}
impl<const R: usize, const C: usize> wrenfold_traits::Span2D<R, C> for Mat<R, C> { type ValueType = f64; fn get(&self, i: usize, j: usize) -> f64 { self.val(i, j) } }
impl<const R: usize, const C: usize> wrenfold_traits::OutputSpan2D<R, C> for Mat<R, C> { type ValueType = f64; fn set(&mut self, i: usize, j: usize, v: f64) { self.writes += 1; self.put(i, j, v); } }
"""


def rtype(t):
    if t[0] == "f": return "f64"
    if t[0] == "i": return "i64"
    if t[0] == "m": return "Mat<%d, %d>" % (t[1], t[2])
    return t[1]


def struct_defs(types):
    done, out = set(), []

    def add(t):
        if t[0] != "s" or t[1] in done:
            return
        for _, x in t[2]:
            add(x)
        done.add(t[1])
        out.append("#[derive(Clone, Copy)] pub struct %s { %s }" % (t[1], ", ".join("pub %s: %s" % (f, rtype(x)) for f, x in t[2])))
    for t in types:
        add(t)
    return out


def elements(t, e):
    if t[0] in "fi": return [e]
    return [y for f, x in t[2] for y in elements(x, "%s.%s" % (e, f))]


def construct(t, vals):
    """An expression of type t from an iterator of element expressions (f64)."""
    if t[0] == "f": return next(vals)
    if t[0] == "i": return "((%s) as i64)" % next(vals)
    return "%s { %s }" % (t[1], ", ".join("%s: %s" % (f, construct(x, vals)) for f, x in t[2]))


def externals(spec):
    out = []
    for name, args, ret in spec["exts"]:
        ps = ", ".join("p%d: %s%s" % (j, "&" if t[0] == "s" else "", rtype(t)) for j, (_, t) in enumerate(args))
        el = ["((%s) as f64)" % x for j, (_, t) in enumerate(args) for x in elements(t, "p%d" % j)]
        vals = []
        for i in range(fd.flat(ret)):
            if fd.flat_types(ret)[i] == "i":
                vals.append("%df64" % (7 * i + 3))
            else:
                vals.append(" + ".join(["%rf64" % (0.125 * (i + 1))] + ["(%rf64) * a[%d]" % (fd.ext_weights(name, i, j), j) for j in range(len(el))]))
        out.append('pub fn %s(%s) -> %s { let a = [%s]; rec("%s", &a); %s }' % (name, ps, rtype(ret), ", ".join(el), name, construct(ret, iter(vals))))
    return out


def driver(k, it):
    spec, lay = it["spec"], it["layout"]
    body, actual, post = [], [], []
    ki = 0
    for j, (a, t) in enumerate(spec["args"]):
        v = "a%d" % j
        if t[0] == "m":
            rs, cs = strides(t, (lay + j) % 3)
            body.append("let mut %s = Mat::<%d, %d>::new(%d, %d, f64::NAN);" % (v, t[1], t[2], rs, cs))
            body += ["%s.put(%d, %d, inp[%d]);" % (v, r, c, ki + r * t[2] + c) for r in range(t[1]) for c in range(t[2])]
        else:
            body.append("let %s: %s = %s;" % (v, rtype(t), construct(t, iter("inp[%d]" % (ki + i) for i in range(fd.flat(t))))))
        ki += fd.flat(t)
        actual.append(("&" if t[0] in "ms" else "") + v)
    nopt, ret = 0, None
    for j, (kind, name, t, _) in enumerate(spec["outputs"]):
        v = "o%d" % j
        if kind == "ret":
            ret = (name, t)
            continue
        cond = "true"
        if kind == "opt":
            cond = "(want >> %d & 1) == 1" % nopt
            nopt += 1
        if t[0] == "m":
            rs, cs = strides(t, (lay + j) % 3)
            body.append("let mut %s = Mat::<%d, %d>::new(%d, %d, PAD);" % (v, t[1], t[2], rs, cs))
            els = ["%s.val(%d, %d)" % (v, r, c) for r in range(t[1]) for c in range(t[2])]
            used = {r * rs + c * cs for r in range(t[1]) for c in range(t[2])}
            post.append('if %s { if %s.writes != %d { put("X an element was not written exactly once\\n"); } } else if %s.writes != 0 { put("X absent output was written\\n"); }' % (cond, v, t[1] * t[2], v))
        else:
            body.append("let mut %s: %s = %s;" % (v, rtype(t), construct(t, iter(["f64::NAN" if y == "f" else "-77777.0f64" for y in fd.flat_types(t)]))))
            els = ["(%s) as f64" % x for x in elements(t, v)]
        actual.append("&mut " + v if kind == "out" else "if %s { Some(&mut %s) } else { None }" % (cond, v))
        post.append("if %s { %s }" % (cond, " ".join("emit(%s);" % x for x in els)) + ' put("O %s\\n");' % name)
    call = "%s(%s)" % (spec["name"], ", ".join(actual))
    body.append(("let ret: %s = " % rtype(ret[1]) if ret else "") + call + ";")
    if ret:
        post.append(" ".join("emit((%s) as f64);" % x for x in elements(ret[1], "ret")) + ' put("O %s\\n");' % ret[0])
    return "\n".join(["mod n%d {" % k, "use super::*;"] + struct_defs(all_types(spec)) + externals(spec) +
                     [it["code"], "pub fn run(inp: &[f64], want: u32) {"] + body + post + ["}", "}"])


def strides(t, mode):
    if mode == 0: return t[2], 1
    if mode == 1: return 1, t[1]
    return 2 * t[2] + 1, 2


class Runner(CxxRunner):
    traits = None

    def lib(self):
        if self.traits is None:
            self.traits = self.dir / "libwrenfold_traits.rlib"
            p = subprocess.run(["rustc", "--crate-name", "wrenfold_traits", "--crate-type", "rlib", "--edition=2021", "-Awarnings", "-o", str(self.traits),
                                str(B.REPO / "components/rust/wrenfold-traits/src/lib.rs")], env=self.env(), capture_output=True, text=True)
            if p.returncode:
                raise CompileError("wrenfold-traits: " + p.stderr[:3000])
        return self.traits

    def compile(self, items, extra=()):
        lib = self.lib()
        self.n += 1
        src, exe = self.dir / ("t%d.rs" % self.n), self.dir / ("t%d" % self.n)
        main = ["fn main() {", "std::panic::set_hook(Box::new(|_| {}));", "let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();", "for l in s.lines() {",
                "let w: Vec<&str> = l.split_whitespace().collect(); let k: usize = w[0].parse().unwrap(); let want: u32 = w[2].parse().unwrap();",
                "let inp: Vec<f64> = w[3..].iter().map(|x| f64::from_bits(u64::from_str_radix(x, 16).unwrap())).collect();",
                "let r = std::panic::catch_unwind(|| match k {"]
        main += ["%d => n%d::run(&inp, want)," % (k, k) for k in range(len(items))]
        main += ['_ => panic!("?") });', 'if let Err(e) = r { let m = e.downcast_ref::<String>().map(|x| x.clone()).or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default(); put(&format!("X panicked: {}\\n", m)); }',
                 'let t = OUT.with(|o| std::mem::take(&mut *o.borrow_mut())); let mut so = std::io::stdout().lock(); write!(so, "@@ {}\\n{}E\\n", k, t).unwrap(); so.flush().unwrap(); }', "}"]
        src.write_text("\n".join([PRELUDE] + [driver(k, it) for k, it in enumerate(items)] + main))
        p = subprocess.run(["rustc", str(src), "-o", str(exe), "--extern", "wrenfold_traits=" + str(lib)] + FLAGS + list(extra), env=self.env(), capture_output=True, text=True)
        if p.returncode:
            raise CompileError(p.stderr)
        src.unlink()
        return exe

    def run(self, items):
        try:
            exe = self.compile(items)
        except CompileError as e:
            if len(items) == 1 or str(e).startswith("wrenfold-traits"):
                err = str(e).split("\n")
                k = next((i for i, l in enumerate(err) if l.startswith("error")), 0)
                return ["does not compile: " + "\n".join(err[k:k + 14])] * len(items)
            h = len(items) // 2
            return self.run(items[:h]) + self.run(items[h:])
        out = [[] for _ in items]
        todo = []
        for k, it in enumerate(items):
            opts = [o[1] for o in it["spec"]["outputs"] if o[0] == "opt"]
            for p, w in zip(it["points"], it["want"]):
                todo.append((k, "%d %d %d %s" % (k, len(p), sum(1 << i for i, o in enumerate(opts) if o in w), " ".join(struct.pack(">d", float(x)).hex() for x in p))))
        p = subprocess.run([str(exe)], input="\n".join(t for _, t in todo) + "\n", env=self.env(), capture_output=True, text=True, timeout=300)
        chunks = p.stdout.split("@@ ")[1:]
        for i, (k, _) in enumerate(todo):
            if i >= len(chunks) or not chunks[i].rstrip().endswith("E"):
                out[k].append("the program died with status %d: %s" % (p.returncode, p.stderr[:800]))
                break
            out[k].append(self.parse(chunks[i], items[k]["spec"]))
        exe.unlink()
        return out

    def parse(self, text, spec):
        f = lambda x: struct.unpack(">d", bytes.fromhex(x))[0]
        rows, vals, calls = {}, [], []
        for l in text.split("\n")[1:]:
            if l.startswith("V "): vals.append(f(l[2:]))
            elif l.startswith("O "):
                rows[l[2:]] = vals or None
                vals = []
            elif l.startswith("C "):
                w = l.split()
                calls.append([w[1], [f(x) for x in w[2:]]])
            elif l.startswith("X "):
                return l[2:]
        return [[rows.get(o[1]) for o in spec["outputs"]], calls]
