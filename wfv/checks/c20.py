"""C20: runtime spans address exactly the intended elements."""
import ast, itertools, random, re, subprocess
from .. import cxx
from ..worker import Violation

RULE = ("generated C++ programs (clang and gcc, C++14 to 20, ASan+UBSan with exactly sized buffers) that build spans over pointers, C arrays, std containers, Eigen matrices, blocks, maps, transposes and quaternions in one to four dimensions, with every "
        "mixture of compile- and run-time dimensions, strides, offsets and index types, and apply random chains of blocks, const conversions, copies and argument conversions; the addresses of all elements, sizes, strides, nullness, values read and "
        "bytes written are compared with the dimension-and-stride rule (for Eigen: with Eigen's own element addresses); non-trivial if an address was compared; distinct by program text")
MIN_EVENTS = {"addresses compared": 20000, "elements written and found": 8000, "span chains": 600, "eigen objects": 250, "far indices": 500, "null spans": 25, "blocks": 600, "containers": 60}
PER = {"quick": 60, "thorough": 80}

PRE = """
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>
%s
#include "wrenfold/span.h"
using namespace wf;
struct V3 { double a; float b; char c; bool operator==(const V3& o) const { return a == o.a; } };
template <typename T> struct mk { static T of(long v) { return static_cast<T>(v); } };
template <> struct mk<V3> { static V3 of(long v) { V3 r{}; r.a = static_cast<double>(v); return r; } };
static void ll(const char* k, long long v) { std::printf("%%s %%lld\\n", k, v); }
template <typename T> struct Dense { std::vector<T> d; std::size_t r, c; T* data() { return d.data(); } const T* data() const { return d.data(); } };
template <int R, int C, bool RM> struct Fix { double d[R * C]; double* data() { return d; } const double* data() const { return d; } };
namespace wf {
template <typename Dims, int R, int C, bool RM> struct convert_to_span<Dims, Fix<R, C, RM>> {
  template <typename U> constexpr auto convert(U&& m) const noexcept {
    static_assert(constant_value_pack_axis_v<0, Dims> == R, ""); static_assert(constant_value_pack_axis_v<1, Dims> == C, "");
    return make_span(m.data(), make_constant_value_pack<R, C>(), make_constant_value_pack<RM ? C : 1, RM ? 1 : R>());
  }
};
}
"""
TYPES = ["double", "float", "int", "char", "V3", "std::int64_t", "std::uint16_t"]
ITYPES = ["int", "long", "std::size_t", "short", "unsigned", "std::int8_t", "std::uint8_t", "std::ptrdiff_t", "bool"]


def val(v, const, rng, it=None):
    """A dimension or stride as the library accepts it."""
    if const: return "constant<%d>{}" % v
    k = rng.random()
    if k < 0.4: return "dynamic(rt(%d))" % v
    if k < 0.7: return "static_cast<int>(rt(%d))" % v
    return rng.choice(["static_cast<std::size_t>(rt(%d))", "static_cast<long>(rt(%d))", "static_cast<unsigned>(rt(%d))"]) % v


def pack(vs, rng, consts=None):
    consts = [rng.random() < rng.choice([0.0, 0.5, 1.0]) for _ in vs] if consts is None else consts
    if all(consts) and rng.random() < 0.5: return "make_constant_value_pack<%s>()" % ", ".join(map(str, vs))
    return "make_value_pack(%s)" % ", ".join(val(v, c, rng) for v, c in zip(vs, consts))


def index(v, rng):
    ts = [t for t in ITYPES if (t != "bool" or v in (0, 1)) and (v >= 0 or not t.startswith(("std::u", "un", "std::s"))) and (abs(v) < 127 or t not in ("std::int8_t", "std::uint8_t")) and (abs(v) < 32000 or t != "short")
          and (abs(v) < 2 ** 31 or t in ("long", "std::size_t", "std::ptrdiff_t"))]
    t = rng.choice(ts)
    if t == "bool": return "true" if v else "false"
    return "static_cast<%s>(%s)" % (t, "rt(%dL)" % v if rng.random() < 0.5 else "%dL" % v)


class Model:
    def __init__(self, off, dims, strides, const):
        self.off, self.dims, self.strides, self.const = off, list(dims), list(strides), const

    def at(self, ix): return self.off + sum(i * s for i, s in zip(ix, self.strides))

    def all(self): return itertools.product(*[range(d) for d in self.dims])


def probe(name, m, T, base, rng, want, out, write=True):
    """Statements that report what a span does; want collects the expected report."""
    nd = len(m.dims)
    out.append('ll("D", %s);' % "), ll(\"D\", ".join("static_cast<long long>(%s.template dimension<%d>())" % (name, a) for a in range(nd)))
    want += ["D %d" % d for d in m.dims]
    out.append('ll("S", %s);' % "), ll(\"S\", ".join("static_cast<long long>(%s.template stride<%d>())" % (name, a) for a in range(nd)))
    want += ["S %d" % s for s in m.strides]
    out.append('ll("R", static_cast<long long>(%s.rows()));' % name)
    want.append("R %d" % m.dims[0])
    if nd > 1:
        out.append('ll("C", static_cast<long long>(%s.cols()));' % name)
        want.append("C %d" % m.dims[1])
    out.append('ll("N", %s ? 1 : 0);' % name)
    want.append("N 1")
    out.append('ll("P", %s.data() - %s);' % (name, base))
    want.append("P %d" % m.off)
    out.append('ll("K", std::is_const<std::remove_reference_t<decltype(%s(%s))>>::value);' % (name, ", ".join("0" * nd)))
    want.append("K %d" % m.const)
    loops, names = "", ["i", "j", "k", "l"][:nd]
    for n, d in zip(names, m.dims):
        loops += "for (%s %s = 0; %s < %d; ++%s) " % (rng.choice(["int", "std::size_t", "long", "short"]), n, n, d, n)
    acc = "%s(%s)" % (name, ", ".join(names))
    if nd == 1 and rng.random() < 0.5: acc = "%s[%s]" % (name, names[0])
    out.append("%sll(\"A\", &%s - %s);" % (loops, acc, base))
    a = [m.at(ix) for ix in m.all()]
    want += ["A %d" % x for x in a]
    out.append("{ long c = 0; %sc += !(%s == mk<%s>::of((&%s - %s) %% 100)); ll(\"V\", c); }" % (loops, acc, T, acc, base))
    want.append("V 0")
    if write and not m.const:
        # assign distinct values through the span, find them where they belong, put the old ones back
        out.append("{ long c = 0; %s%s = mk<%s>::of(100 + (c++ %% 27)); }" % (loops, acc, T))
        seen = {}
        for k, x in enumerate(a): seen[x] = k
        for x in sorted(seen):
            out.append('ll("W", %s[%d] == mk<%s>::of(%d));' % (base, x, T, 100 + seen[x] % 27))
            want.append("W 1")
        out.append("%s%s = mk<%s>::of((&%s - %s) %% 100);" % (loops, acc, T, acc, base))
    return len(a)


def chain(rng, k, stats):
    """A span over a buffer of exactly the necessary size and a chain of derived spans."""
    T = rng.choice(TYPES)
    nd = rng.choice([1, 2, 2, 2, 3, 4])
    dims = [rng.choice([1, 2, 3, 4, 5, 7]) if nd < 4 else rng.choice([1, 2, 3]) for _ in range(nd)]
    kind = rng.choice(["row", "col", "padded", "perm", "broadcast"])
    order = list(range(nd))
    if kind == "row": order.reverse()
    elif kind in ("perm", "padded"): rng.shuffle(order)
    strides, s = [0] * nd, rng.choice([1, 1, 2, 3]) if kind == "padded" else 1
    for a in order:
        strides[a] = s
        s *= dims[a]
        if kind == "padded": s += rng.choice([0, 1, 5])
    if kind == "broadcast": strides[rng.randrange(nd)] = 0
    off = rng.choice([0, 0, 3])
    size = off + sum((d - 1) * x for d, x in zip(dims, strides)) + 1
    const = rng.random() < 0.3
    out, want = [], []
    out.append("{ %s* const b0 = new %s[%d]; for (long q = 0; q < %d; ++q) b0[q] = mk<%s>::of(q %% 100); %s%s* b = b0;" % (T, T, size, size, T, "const " if const else "", T))
    form = rng.random()
    cons = "%s s0 = make_span(b + %d, %s, %s);" % ("auto" if rng.random() < 0.5 else "const auto", off, pack(dims, rng), pack(strides, rng))
    if form < 0.2: cons = "const auto d0 = %s; const auto t0 = %s; const span<%s%s, std::decay_t<decltype(d0)>, std::decay_t<decltype(t0)>> s0{b + %d, d0, t0};" % (pack(dims, rng), pack(strides, rng), "const " if const else "", T, off)
    out.append(cons)
    m = Model(off, dims, strides, const)
    n = probe("s0", m, T, "b0", rng, want, out)
    for j in range(1, rng.randint(1, 4)):
        q = rng.random()
        src, dst = "s%d" % (j - 1), "s%d" % j
        if q < 0.5 and all(d > 0 for d in m.dims):
            o = [rng.randrange(d) for d in m.dims]
            d = [rng.randint(1, x - y) for x, y in zip(m.dims, o)]
            out.append("const auto %s = %s.block(%s, %s);" % (dst, src, pack(o, rng), pack(d, rng)))
            m = Model(m.at(o), d, m.strides, m.const)
            stats["blocks"] += 1
        elif q < 0.65:
            out.append("const auto %s = %s.as_const();" % (dst, src))
            m = Model(m.off, m.dims, m.strides, True)
        elif q < 0.8:
            out.append("const span<const %s, std::decay_t<decltype(%s.dimensions())>, std::decay_t<decltype(%s.strides())>> %s = %s;" % (T, src, src, dst, src))
            m = Model(m.off, m.dims, m.strides, True)
        elif q < 0.9:
            out.append("const auto %s = make_input_span<std::decay_t<decltype(%s.dimensions())>>(%s);" % (dst, src, src))
        else:
            out.append("auto %s = %s;" % (dst, src) if m.const else "auto %s = %s<std::decay_t<decltype(%s.dimensions())>>(%s);" % (dst, rng.choice(["make_output_span", "make_optional_output_span"]), src, src))
        n += probe(dst, m, T, "b0", rng, want, out)
    out.append("delete[] b0; }")
    stats["span chains"] += 1
    stats["addresses compared"] += n
    return out, want


def far(rng, k, stats):
    """Indices and strides far beyond 32 bits: the linear index only."""
    nd = rng.choice([1, 2, 3])
    strides = [rng.choice([1, 3, 2 ** 31, 2 ** 33 + 1, 2 ** 20, 65537, rng.randint(1, 2 ** 36)]) for _ in range(nd)]
    dims = [rng.choice([2, 2 ** 31, 2 ** 32 + 5, 10 ** 6]) for _ in range(nd)]
    consts = [rng.random() < 0.5 for _ in range(nd)]
    out, want = [], []
    lit = lambda v, c: "constant<%dUL>{}" % v if c else "dynamic(static_cast<std::size_t>(rt(%dL)))" % v
    out.append("{ double b[1] = {0}; const auto s = make_span(&b[0], make_value_pack(%s), make_value_pack(%s));" % (", ".join(lit(v, rng.random() < 0.5) for v in dims), ", ".join(lit(v, c) for v, c in zip(strides, consts))))
    for a in range(nd):
        out.append('ll("D", static_cast<long long>(s.template dimension<%d>())); ll("S", static_cast<long long>(s.template stride<%d>()));' % (a, a))
        want += ["D %d" % dims[a], "S %d" % strides[a]]
    for _ in range(4):
        ix = [rng.choice([0, 1, 7, 100000, 2 ** 24, 2 ** 31 - 1, -1, -5]) for _ in range(nd)]
        v = sum(i * s for i, s in zip(ix, strides))
        if abs(v) >= 2 ** 61: continue
        out.append('ll("I", s.compute_index(%s));' % ", ".join(index(i, rng) for i in ix))
        want.append("I %d" % v)
        stats["far indices"] += 1
    out.append("}")
    return out, want


def containers(rng, k, stats):
    out, want = [], []
    n = rng.randint(1, 9)
    kind = rng.choice(["vector", "cvector", "array", "carray", "const carray", "string", "empty", "Fix", "null"])
    stats["null spans" if kind == "null" else "containers"] += 1
    init = ", ".join(str(q) for q in range(n))
    T = rng.choice(["double", "int", "float"])
    m = Model(0, [n], [1], False)
    if kind == "vector": out.append("{ std::vector<%s> x{%s}; x.shrink_to_fit(); auto* b0 = x.data(); const auto s = make_array_span(x);" % (T, init))
    elif kind == "cvector":
        out.append("{ const std::vector<%s> x{%s}; auto* b0 = x.data(); const auto s = make_array_span(x);" % (T, init))
        m.const = True
    elif kind == "array": out.append("{ std::array<%s, %d> x{{%s}}; auto* b0 = x.data(); const auto s = make_array_span(x);" % (T, n, init))
    elif kind == "carray": out.append("{ %s x[%d] = {%s}; auto* b0 = &x[0]; const auto s = make_array_span(x);" % (T, n, init))
    elif kind == "const carray":
        out.append("{ const %s x[%d] = {%s}; auto* b0 = &x[0]; const auto s = make_array_span(x);" % (T, n, init))
        m.const = True
    elif kind == "string":
        out.append("{ std::string x; for (int q = 0; q < %d; ++q) x.push_back(static_cast<char>(q)); auto* b0 = const_cast<char*>(x.data()); const auto s = make_array_span(static_cast<const std::string&>(x));" % n)
        T = "char"
        m.const = True
    elif kind == "empty":
        out.append("{ std::vector<%s> x; const auto s = make_array_span(x); ll(\"R\", static_cast<long long>(s.rows())); }" % T)
        return out, ["R 0"]
    elif kind == "null":
        r, c = rng.randint(1, 5), rng.randint(1, 5)
        out.append("{ const auto s = make_optional_output_span<%d, %d>(nul); ll(\"N\", s ? 1 : 0); ll(\"R\", static_cast<long long>(s.rows())); ll(\"C\", static_cast<long long>(s.cols()));" % (r, c))
        out.append("const auto u = make_always_null_span<constant_value_pack<%d, %d>>(); ll(\"N\", u ? 1 : 0); ll(\"Z\", u.compute_index(%d, %d)); }" % (r, c, r - 1, c - 1))
        return out, ["N 0", "R %d" % r, "C %d" % c, "N 0", "Z 0"]
    else:
        r, c, rm = rng.randint(1, 4), rng.randint(1, 4), rng.random() < 0.5
        const = rng.random() < 0.3
        out.append("{ using M = Fix<%d, %d, %s>; M* x = new M; for (int q = 0; q < %d; ++q) x->d[q] = q; double* b0 = x->d;" % (r, c, str(rm).lower(), r * c))
        f = "make_input_span<%d, %d>(*x)" % (r, c) if const else rng.choice(["make_output_span<%d, %d>(*x)", "make_optional_output_span<%d, %d>(*x)", "make_output_span<constant_value_pack<%d, %d>>(*x)"]) % (r, c)
        out.append("const auto s = %s;" % f)
        m = Model(0, [r, c], [c, 1] if rm else [1, r], const)
        stats["addresses compared"] += probe("s", m, "double", "b0", rng, want, out)
        out.append("delete x; }")
        return out, want
    stats["addresses compared"] += probe("s", m, T, "b0", rng, want, out)
    out.append("}")
    return out, want


def eigen(rng, k, stats):
    """Eigen objects: the element addresses are compared with Eigen's own."""
    T = rng.choice(["double", "float"])
    r, c = rng.randint(1, 5), rng.randint(1, 5)
    R, C = r + rng.randint(0, 3), c + rng.randint(0, 3)
    opt = lambda a, b: "Eigen::RowMajor" if a == 1 and b > 1 or b > 1 and rng.random() < 0.4 else "Eigen::ColMajor"
    kind = rng.choice(["matrix", "block", "map", "smap", "transpose", "ref", "quat", "qmap", "dynblock", "row", "col", "nullmap", "negmap", "blockblock", "cmatrix"])
    stats["eigen objects"] += 1
    out = ["{"]
    O = "Eigen::Matrix<%s, %d, %d, %s>" % (T, R, C, opt(R, C))
    new = "%s x = %s::Zero(); " % (O, O)
    i, j = rng.randint(0, R - r), rng.randint(0, C - c)
    const = False
    if kind in ("matrix", "cmatrix"):
        out.append(new + "auto& m = x;")
        r, c, const = R, C, kind == "cmatrix"
    elif kind == "block": out.append(new + "auto m = x.template block<%d, %d>(%d, %d);" % (r, c, i, j))
    elif kind == "dynblock": out.append("Eigen::Matrix<%s, Eigen::Dynamic, Eigen::Dynamic, %s> x(%d, %d); x.setZero(); auto m = x.template block<%d, %d>(%d, %d);" % (T, rng.choice(["Eigen::RowMajor", "Eigen::ColMajor"]), R, C, r, c, i, j))
    elif kind == "blockblock":
        r2, c2 = rng.randint(1, r), rng.randint(1, c)
        out.append(new + "auto y = x.template block<%d, %d>(%d, %d); auto m = y.template block<%d, %d>(%d, %d);" % (r, c, i, j, r2, c2, rng.randint(0, r - r2), rng.randint(0, c - c2)))
        r, c = r2, c2
    elif kind == "transpose":
        out.append(new + "auto m = x.transpose();")
        r, c = C, R
    elif kind == "row":
        out.append(new + "auto m = x.row(%d);" % rng.randrange(R))
        r, c = 1, C
    elif kind == "col":
        out.append(new + "auto m = x.col(%d);" % rng.randrange(C))
        r, c = R, 1
    elif kind == "ref":
        out.append(new + "Eigen::Ref<%s> m(x);" % O)
        r, c = R, C
    elif kind == "map":
        o = opt(r, c)
        out.append("std::vector<%s> x(%d); Eigen::Map<Eigen::Matrix<%s, %d, %d, %s>> m(x.data());" % (T, r * c, T, r, c, o))
    elif kind == "smap":
        inner, o = rng.randint(1, 3), opt(r, c)
        n_in, n_out = (c, r) if "Row" in o else (r, c)
        outer = n_in * inner + rng.randint(0, 4)
        st = rng.choice(["Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>", "Eigen::Stride<%d, Eigen::Dynamic>" % outer, "Eigen::Stride<Eigen::Dynamic, %d>" % inner, "Eigen::Stride<%d, %d>" % (outer, inner)])
        out.append("std::vector<%s> x(%d); x.shrink_to_fit(); Eigen::Map<Eigen::Matrix<%s, %d, %d, %s>, 0, %s> m(x.data(), %s(%d, %d));" % (T, (n_out - 1) * outer + (n_in - 1) * inner + 1, T, r, c, o, st, st, outer, inner))
    elif kind == "negmap":
        o = opt(r, c)
        n_in, n_out = (c, r) if "Row" in o else (r, c)
        out.append("std::vector<%s> x(%d); using S = Eigen::Stride<Eigen::Dynamic, Eigen::Dynamic>; Eigen::Map<Eigen::Matrix<%s, %d, %d, %s>, 0, S> m(x.data() + %d, S(%d, 1));" % (T, n_in * n_out, T, r, c, o, (n_out - 1) * n_in, -n_in))
    elif kind == "nullmap":
        o = opt(r, c)
        out.append("Eigen::Map<Eigen::Matrix<%s, %d, %d, %s>> m(nullptr); const auto s = make_optional_output_span<%d, %d>(m); ll(\"N\", s ? 1 : 0); }" % (T, r, c, o, r, c))
        stats["null spans"] += 1
        return out, ["N 0"]
    elif kind in ("quat", "qmap"):
        out.append("%s Eigen::Quaternion<%s> x(1, 2, 3, 4);" % ("", T) if kind == "quat" else "std::vector<%s> w(4); Eigen::Map<Eigen::Quaternion<%s>> x(w.data()); x.w() = 1; x.x() = 2; x.y() = 3; x.z() = 4;" % (T, T))
        out.append("%sauto s = %s<4, 1>(x); ll(\"B\", (&s(0, 0) != &x.x()) + (&s(1, 0) != &x.y()) + (&s(2, 0) != &x.z()) + (&s(3, 0) != &x.w())); ll(\"R\", s.rows() * 10 + s.cols()); }" % (rng.choice(["", "const "]), rng.choice(["make_input_span", "make_output_span", "make_optional_output_span"])))
        stats["addresses compared"] += 4
        return out, ["B 0", "R 41"]
    f = rng.choice(["make_input_span", "make_output_span", "make_optional_output_span", "make_input_span"]) if not const else "make_input_span"
    q = "const auto& mm = m;" if const else "auto& mm = m;"
    out.append("%s const auto s = %s<%d, %d>(mm); ll(\"N\", s ? 1 : 0); ll(\"R\", static_cast<long long>(s.rows() * 100 + s.cols())); long bad = 0, w = 0;" % (q, f, r, c))
    out.append("for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) bad += static_cast<const void*>(&s(p, q)) != static_cast<const void*>(&mm.coeffRef(p, q));" % (r, c) if not const else
               "for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) bad += static_cast<const void*>(&s(p, q)) != static_cast<const void*>(&m(p, q));" % (r, c))
    out.append('ll("B", bad);')
    want = ["N 1", "R %d" % (r * 100 + c), "B 0"]
    if f != "make_input_span":
        out.append("for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) s(p, q) = static_cast<%s>(10 * p + q + 1); for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) w += mm(p, q) != static_cast<%s>(10 * p + q + 1); ll(\"W\", w);" % (r, c, T, r, c, T))
        want.append("W 0")
    i, j = rng.randrange(r), rng.randrange(c)
    dr, dc = rng.randint(1, r - i), rng.randint(1, c - j)
    out.append("const auto k = s.block(%s, %s); bad = 0; for (int p = 0; p < %d; ++p) for (int q = 0; q < %d; ++q) bad += static_cast<const void*>(&k(p, q)) != static_cast<const void*>(&mm%s(p + %d, q + %d)); ll(\"B\", bad);" % (pack([i, j], rng), pack([dr, dc], rng), dr, dc, "" if const else ".coeffRef", i, j))
    want.append("B 0")
    out.append("}")
    stats["addresses compared"] += r * c + dr * dc
    stats["blocks"] += 1
    return out, want


class Check:
    RANDOM = {"quick": 32, "thorough": 900}

    def __init__(self, ctx, tier, seed):
        self.ctx, self.tier = ctx, tier
        self.runner = cxx.Runner("c20")
        import atexit
        atexit.register(self.runner.close)
        self.n = 0

    def total(self): return self.RANDOM[self.tier]

    def run(self, i, rng):
        self.program(i % 4 == 3, rng.getrandbits(60), rng.choice([("clang++", "c++17"), ("clang++", "c++17"), ("clang++", "c++20"), ("g++", "c++17")]), rng.choice(["-O0", "-O1", "-O2"]), None)

    def replay(self, text):
        self.ctx.describe(text)
        eig, seed, comp, opt, only = ast.literal_eval(text)
        self.program(eig, seed, comp, opt, only)

    def program(self, eig, seed, comp, opt, only):
        import collections
        ctx = self.ctx
        ctx.describe(repr((eig, seed, comp, opt, only)))
        rng = random.Random(seed)
        stats = collections.Counter()
        cases = []
        for k in range(PER[self.tier]):
            f = eigen if eig else rng.choices([chain, far, containers], [6, 2, 1])[0]
            cases.append(f(random.Random(rng.getrandbits(60)), k, stats))
        todo = [k for k in range(len(cases)) if only is None or k == only]
        text = (PRE % ("#define WF_SPAN_EIGEN_SUPPORT 1" if eig else "")).replace("%%", "%")
        text += "static volatile long rtz = 0; static long rt(long v) { return v + rtz; }\n[[maybe_unused]] static std::nullptr_t nul = nullptr;\n"
        for k in todo: text += "static void f%d() {\n%s\n}\n" % (k, "\n".join(cases[k][0]))
        text += "int main() {\n" + "".join('std::printf("@ %d\\n"); std::fflush(stdout); f%d(); std::fflush(stdout);\n' % (k, k) for k in todo) + "return 0; }\n"
        self.n += 1
        src, exe = self.runner.dir / ("s%d.cc" % self.n), self.runner.dir / ("s%d" % self.n)
        src.write_text(text)
        ctx.sample(text)
        cmd = [comp[0], "-std=" + comp[1], opt, "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I/repo/components/runtime", "-I/usr/include/eigen3", str(src), "-o", str(exe)]
        p = subprocess.run(cmd, env=self.runner.env(), capture_output=True, text=True)
        if p.returncode:
            m = re.search(r"error: .*", p.stderr)
            f = None
            if only is None:
                lines = text.split("\n")
                for l in re.findall(r"s%d\.cc:(\d+):" % self.n, p.stderr):
                    d = [k for k in range(int(l)) if lines[k].startswith("static void f")]
                    if d:
                        f = int(re.match(r"static void f(\d+)", lines[d[-1]])[1])
                        break
            src.unlink()
            self.fail(eig, seed, comp, opt, f if only is None else only, cases, "does not compile with %s: %s" % (" ".join(cmd[:3]), m[0] if m else p.stderr[:500]), p.stderr[:1500])
            return
        src.unlink()
        env = dict(self.runner.env(), ASAN_OPTIONS="detect_leaks=1:exitcode=77:symbolize=0:detect_stack_use_after_return=1")
        r = subprocess.run([str(exe)], env=env, capture_output=True, text=True, timeout=120)
        exe.unlink()
        got = {}
        for ch in r.stdout.split("@ ")[1:]:
            h, _, rest = ch.partition("\n")
            got[int(h)] = rest.split("\n")[:-1]
        last = max(got) if got else None
        for k in todo:
            if k not in got or (r.returncode and k == last):
                if k == last or last is None:
                    self.fail(eig, seed, comp, opt, k, cases, "the program stops with status %d: %s" % (r.returncode, (re.findall(r"(?:ERROR|runtime error): .*", r.stderr) or [r.stderr[:300]])[0][:300]), r.stderr[:2500])
                break
            if got[k] != cases[k][1]:
                d = next((q for q, (a, b) in enumerate(zip(got[k], cases[k][1])) if a != b), -1)
                self.fail(eig, seed, comp, opt, k, cases, "reports %r instead of %r" % (got[k][d] if d >= 0 else len(got[k]), cases[k][1][d] if d >= 0 else len(cases[k][1])), "")
                continue
            ctx.event("elements written and found", sum(w.startswith("W") for w in cases[k][1]))
            ctx.event("programs checked")
            ctx.distinct("\n".join(cases[k][0]))
        for q, c in stats.items(): ctx.event(q, c)

    def fail(self, eig, seed, comp, opt, k, cases, what, detail):
        body = "\n".join(cases[k][0]) if k is not None else "(whole program)"
        what = re.sub(r"s\d+\.cc", "s.cc", what)
        self.ctx.violation("span: " + what[:160], "%s\n%s\n%s" % (what, body, detail), repr((eig, seed, comp, opt, k)))
