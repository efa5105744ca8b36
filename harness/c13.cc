// Thread harness (built against a ThreadSanitizer build of wf_core).
//   c13 run SEED THREADS PHASES OPS MODE   : MODE par | seq ; prints one line per operation: thread phase op kind hash
//   c13 unique SEED THREADS COUNT          : creates unique symbols concurrently, prints duplicates
#include <atomic>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "wf/code_generation/ast_conversion.h"
#include "wf/code_generation/ast_formatters.h"
#include "wf/code_generation/control_flow_graph.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/declare_external_function.h"
#include "wf/code_generation/function_description.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/code_generation/python_code_generator.h"
#include "wf/code_generation/rust_code_generator.h"
#include "wf/collect.h"
#include "wf/compound_expression.h"
#include "wf/constants.h"
#include "wf/cse.h"
#include "wf/derivative.h"
#include "wf/distribute.h"
#include "wf/expression.h"
#include "wf/expressions/all_expressions.h"
#include "wf/external_function.h"
#include "wf/functions.h"
#include "wf/geometry/quaternion.h"
#include "wf/matrix_functions.h"
#include "wf/substitute.h"
#include "wf/type_annotations.h"

using namespace wf;
namespace ta = wf::type_annotations;

struct point_type {
  scalar_expr x{0};
  scalar_expr y{0};
  ta::static_matrix<2, 2> m{make_zeros(2, 2)};
};
struct pose_type {
  point_type p{};
  scalar_expr s{0};
};
namespace wf {
template <>
struct custom_type_registrant<point_type> {
  auto operator()(custom_type_registry& r) const {
    return custom_type_builder<point_type>(r, "point_type")
        .add_field("x", &point_type::x).add_field("y", &point_type::y).add_field("m", &point_type::m);
  }
};
template <>
struct custom_type_registrant<pose_type> {
  auto operator()(custom_type_registry& r) const {
    return custom_type_builder<pose_type>(r, "pose_type").add_field("p", &pose_type::p).add_field("s", &pose_type::s);
  }
};
}  // namespace wf

struct ext_scalar : declare_external_function<ext_scalar, scalar_expr, type_list<scalar_expr, scalar_expr>> {
  static constexpr std::string_view name() noexcept { return "ext_scalar"; }
  static constexpr auto arg_names() noexcept { return std::make_tuple("a", "b"); }
};
struct ext_vec : declare_external_function<ext_vec, ta::static_matrix<2, 1>, type_list<ta::static_matrix<2, 1>>> {
  static constexpr std::string_view name() noexcept { return "ext_vec"; }
  static constexpr auto arg_names() noexcept { return std::make_tuple("v"); }
};
struct ext_point : declare_external_function<ext_point, point_type, type_list<scalar_expr, point_type>> {
  static constexpr std::string_view name() noexcept { return "ext_point"; }
  static constexpr auto arg_names() noexcept { return std::make_tuple("s", "p"); }
};

static std::uint64_t fnv(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

static bool has_unique(const std::string& s) {
  return s.find("$u_") != std::string::npos || s.find("UniqueVariable (") != std::string::npos;
}

// Unique symbols are numbered by a global counter and operands are ordered by their numbers: texts with unique symbols
// are reduced to the multiset of their words, every unique symbol standing for any other.
static std::string normalised(const std::string& s) {
  if (!has_unique(s)) return s;
  std::vector<std::string> words;
  std::string w;
  for (std::size_t i = 0; i <= s.size();) {
    std::size_t skip = 0;
    if (s.compare(i, 3, "$u_") == 0) skip = 3;
    else if (s.compare(i, 16, "UniqueVariable (") == 0) skip = 16;
    if (skip) {
      i += skip;
      while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
      words.push_back("#");
      continue;
    }
    const char c = i < s.size() ? s[i] : ' ';
    if (std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '.') w += c;
    else if (!w.empty()) { words.push_back(w); w.clear(); }
    ++i;
  }
  std::sort(words.begin(), words.end());
  std::string out = "words:";
  for (const auto& x : words) out += " " + x;
  return out;
}

struct Rng {
  std::mt19937_64 g;
  explicit Rng(std::uint64_t s) : g(s) {}
  int below(int n) { return static_cast<int>(g() % static_cast<std::uint64_t>(n)); }
  bool p(int pct) { return below(100) < pct; }
};

struct Rec { int phase, op; const char* kind; std::string text; std::size_t seq; };
static std::atomic<std::size_t> g_seq{0};   // completion order of the operations (relaxed: orders nothing)

static int g_threads = 4, g_phases = 3, g_ops = 20;
static bool g_par = true;
static std::uint64_t g_seed = 1;
static std::vector<std::vector<scalar_expr>> g_pool;   // one list per phase; written between barriers
static std::vector<std::vector<scalar_expr>> g_next;   // one list per thread
static std::vector<function_description> g_desc;       // descriptions shared between the threads
static std::vector<matrix_expr> g_mats;
static std::mutex g_slot_mutex;
static std::vector<scalar_expr> g_slots;               // handed over between threads at random times

struct Barrier {
  std::atomic<int> waiting{0}, gen{0};
  void wait(int n) {
    const int g = gen.load();
    if (waiting.fetch_add(1) + 1 == n) { waiting.store(0); gen.fetch_add(1); }
    else while (gen.load() == g) std::this_thread::yield();
  }
};
static Barrier g_barrier;

struct Thread {
  int id;
  std::vector<Rec> recs;
  std::vector<scalar_expr> local;
  std::uint64_t noise;

  void jitter() {
    if (!g_par) return;
    noise = noise * 6364136223846793005ull + 1442695040888963407ull;
    const int k = static_cast<int>(noise >> 60);
    if (k < 3) std::this_thread::yield();
    else if (k == 3) for (volatile int i = 0; i < static_cast<int>((noise >> 40) & 2047); ++i) {}
  }

  scalar_expr sym(Rng& r) {
    static constexpr number_set sets[] = {number_set::unknown, number_set::real, number_set::real_positive, number_set::real_non_negative, number_set::complex};
    const int k = r.below(8);
    static constexpr const char* names[] = {"x", "y", "z", "w", "a", "b", "c", "d"};
    return scalar_expr{names[k], sets[k % 5]};
  }
  scalar_expr num(Rng& r) {
    switch (r.below(9)) {
      case 0: return constants::pi;
      case 1: return constants::euler;
      case 2: return constants::imaginary_unit;
      case 3: return scalar_expr{0.25 * r.below(40) - 5.0};
      case 4: return scalar_expr{rational_constant(r.below(19) - 9, 1 + r.below(7))};
      case 5: return constants::one;
      default: return scalar_expr{r.below(15) - 7};
    }
  }
  scalar_expr pick(Rng& r, int phase) {
    const int k = r.below(10);
    if (k < 2) return sym(r);
    if (k < 3) return num(r);
    if (k < 7 && phase > 0) {
      const auto& v = g_pool[static_cast<std::size_t>(r.below(phase))];
      if (!v.empty()) return v[static_cast<std::size_t>(r.below(static_cast<int>(v.size())))];
    }
    if (!local.empty()) return local[static_cast<std::size_t>(r.below(static_cast<int>(local.size())))];
    return sym(r);
  }
  boolean_expr cond(Rng& r, int ph) {
    const scalar_expr a = pick(r, ph), b = pick(r, ph);
    switch (r.below(5)) {
      case 0: return a < b;
      case 1: return a <= b;
      case 2: return a == b;
      case 3: return a > b;
      default: return a >= b;
    }
  }
  scalar_expr fn(Rng& r, int ph) {
    const scalar_expr a = pick(r, ph);
    switch (r.below(20)) {
      case 0: return cos(a); case 1: return sin(a); case 2: return tan(a); case 3: return acos(a); case 4: return asin(a);
      case 5: return atan(a); case 6: return cosh(a); case 7: return sinh(a); case 8: return tanh(a); case 9: return acosh(a);
      case 10: return asinh(a); case 11: return atanh(a); case 12: return sqrt(a); case 13: return wf::abs(a); case 14: return signum(a);
      case 15: return wf::floor(a); case 16: return log(a); case 17: return exp(a); case 18: return atan2(a, pick(r, ph));
      default: return pow(a, r.p(50) ? scalar_expr{rational_constant(r.below(9) - 4, 1 + r.below(3))} : pick(r, ph));
    }
  }
  static constexpr std::size_t kMax = 400;
  void keep(const scalar_expr& e, const std::string& text) {
    if (text.size() < kMax && !has_unique(text)) local.push_back(e);   // (their order follows a global counter)
  }

  std::string gen_code(const function_description& d, Rng& r) {
    optimization_params p{};
    p.binarize_operations = r.p(50);
    p.factorization_passes = static_cast<std::size_t>(r.below(4));
    const control_flow_graph flat{d, p};
    std::string out = r.p(30) ? flat.to_string() : std::string{};
    const control_flow_graph cfg = control_flow_graph{d, p}.convert_conditionals_to_control_flow(r.p(50));
    const ast::function_definition def = ast::create_ast(cfg, d);
    for (const auto& e : def.body()) if (r.p(30)) out += fmt::format("{}\n", e);
    const int lang = r.below(5);
    if (lang == 0) out += cpp_code_generator{cpp_matrix_type_behavior::generic_span}(def);
    if (lang == 1) out += cpp_code_generator{cpp_matrix_type_behavior::eigen}(def);
    if (lang == 2) out += rust_code_generator{}(def);
    if (lang == 3) out += python_code_generator{python_generator_target::numpy, python_generator_float_width::float64, 2, r.p(50)}(def);
    if (lang == 4) out += python_code_generator{r.p(50) ? python_generator_target::jax : python_generator_target::pytorch,
                                                python_generator_float_width::float32, 4, false}(def);
    return out;
  }

  function_description describe(Rng& r, int ph) {
    custom_type_registry registry{};
    function_description d{"fn_" + std::to_string(r.below(100))};
    const scalar_expr x = d.add_input_argument("x", scalar_type(numeric_primitive_type::floating_point));
    const scalar_expr k = d.add_input_argument("k", scalar_type(numeric_primitive_type::integral));
    const matrix_expr m = d.add_input_argument("m", matrix_type(2, 2));
    const auto ann = detail::record_type<point_type>{}(registry);
    const custom_type& t = ann.inner();
    const compound_expr p = d.add_input_argument("p", t);
    const std::vector<scalar_expr> pe = create_expression_elements(p, t.total_size());
    auto bind = [&](scalar_expr e) {
      static constexpr const char* names[] = {"x", "y", "z", "w", "a", "b", "c", "d"};
      static constexpr number_set sets[] = {number_set::unknown, number_set::real, number_set::real_positive, number_set::real_non_negative, number_set::complex};
      const scalar_expr to[] = {x, k, m(0, 0), m(1, 0), m(0, 1), pe[0], pe[1], pe[3]};
      std::vector<scalar_or_boolean_pair> pairs;
      for (int i = 0; i < 8; ++i) pairs.push_back(std::make_tuple(scalar_expr{names[i], sets[i % 5]}, to[i]));
      return substitute(e, absl::Span<const scalar_or_boolean_pair>(pairs));
    };
    scalar_expr e1 = bind(pick(r, ph)), e2 = bind(pick(r, ph));
    scalar_expr e3 = where(x < k, e1, e2) + e1 * m(1, 1);
    if (r.p(50)) e3 = e3 + ext_scalar::call(x, e2);
    if (r.p(40)) { const auto v = ext_vec::call(ta::static_matrix<2, 1>{make_vector(x, m(0, 1))}); e3 = e3 * v[0] - v[1]; }
    if (r.p(40)) {
      point_type arg; arg.x = x; arg.y = e2; arg.m = m;
      const point_type q = ext_point::call(x, arg);
      e3 = e3 + q.x * q.m(1, 0);
    }
    d.add_output_argument("o", matrix_type(2, 1), r.p(50), make_vector(e3, e1 + e2));
    if (r.p(50)) d.add_output_argument("q", scalar_type(numeric_primitive_type::floating_point), true, e1 * e2 + x);
    d.set_return_value(scalar_type(numeric_primitive_type::floating_point), e3);
    return d;
  }

  void op(Rng& r, int ph, int k) {
    const char* kind = "raised";
    std::string text;
    auto scal = [&](const char* n, const scalar_expr& e) { kind = n; text = e.to_string(); keep(e, text); if (r.p(20)) text += e.to_expression_tree_string(); };
    auto mat = [&](const char* n, const matrix_expr& e) {
      kind = n; text = e.to_string();
      const scalar_expr& x = e(r.below(static_cast<int>(e.rows())), r.below(static_cast<int>(e.cols())));
      keep(x, x.to_string()); if (r.p(10)) text += e.to_expression_tree_string();
    };
    const int w = r.below(100);
    try {
      if (w < 8) scal("add", pick(r, ph) + pick(r, ph));
      else if (w < 12) scal("sub", pick(r, ph) - pick(r, ph));
      else if (w < 20) scal("mul", pick(r, ph) * pick(r, ph));
      else if (w < 23) scal("div", pick(r, ph) / pick(r, ph));
      else if (w < 33) scal("fn", fn(r, ph));
      else if (w < 36) scal("where", where(cond(r, ph), pick(r, ph), pick(r, ph)));
      else if (w < 38) scal("minmax", r.p(50) ? max(pick(r, ph), pick(r, ph)) : min(pick(r, ph), pick(r, ph)));
      else if (w < 40) { const boolean_expr b = cond(r, ph); scal("iverson", iverson(b)); text += b.to_string() + b.to_expression_tree_string(); }
      else if (w < 47) scal("diff", pick(r, ph).diff(sym(r), 1 + r.below(2), r.p(50) ? non_differentiable_behavior::constant : non_differentiable_behavior::abstract));
      else if (w < 51) scal("subs", pick(r, ph).subs(sym(r), pick(r, ph)));
      else if (w < 54) { const scalar_expr u = make_unique_variable_symbol(number_set::real); const scalar_expr s = sym(r); scal("unique", (pick(r, ph).subs(s, u) * u).diff(u).subs(u, s)); }
      else if (w < 57) scal("collect", pick(r, ph).collect(sym(r)));
      else if (w < 60) scal("distribute", (pick(r, ph) * (pick(r, ph) + pick(r, ph))).distribute());
      else if (w < 63) scal("eval", pick(r, ph).eval());
      else if (w < 66) scal("symfn", symbolic_function(r.p(50) ? "f" : "g")(pick(r, ph), sym(r)).diff(sym(r)));
      else if (w < 68) scal("unevaluated", r.p(50) ? make_unevaluated(pick(r, ph)) + pick(r, ph) : stop_diff(pick(r, ph)).diff(sym(r)));
      else if (w < 71) {
        auto [e, reps] = eliminate_subexpressions(pick(r, ph) * pick(r, ph) + pick(r, ph), nullptr, 2);
        scal("cse", e);
        for (const auto& [v, s] : reps) text += ";" + v.to_string() + "=" + s.to_string();
      } else if (w < 74) {
        const matrix_expr m = make_matrix(2, 2, pick(r, ph), pick(r, ph), pick(r, ph), pick(r, ph));
        mat("matrix", m.transposed() * m + make_identity(2));
      } else if (w < 76) {
        const matrix_expr m = make_matrix_of_symbols("m", 3, 3);
        kind = "det"; text = determinant(m).to_string();
      } else if (w < 78) {
        const matrix_expr m = make_matrix(2, 2, pick(r, ph), sym(r), num(r), sym(r));
        auto [P, L, U, Q] = factorize_full_piv_lu(m);
        mat("lu", L); text += U.to_string();
      } else if (w < 80) {
        const matrix_expr v = make_vector(pick(r, ph), pick(r, ph));
        mat("jacobian", v.jacobian(make_vector(scalar_expr{"x"}, scalar_expr{"b", number_set::unknown})));
      } else if (w < 84) {
        const quaternion q = quaternion::from_name_prefix("q");
        const std::optional<scalar_expr> eps = r.p(50) ? std::optional<scalar_expr>{scalar_expr{"eps"}} : std::nullopt;
        switch (r.below(8)) {
          case 0: mat("quaternion", q.to_rotation_matrix()); break;
          case 1: mat("quaternion", (q * quaternion::from_x_angle(pick(r, ph))).to_vector_wxyz()); break;
          case 2: mat("quaternion", q.to_rotation_vector(eps, r.p(50))); break;
          case 3: mat("quaternion", quaternion::from_rotation_vector(sym(r), sym(r), sym(r), eps).to_vector_xyzw()); break;
          case 4: mat("quaternion", left_jacobian_of_so3(make_vector(sym(r), sym(r), sym(r)), eps)); break;
          case 5: mat("quaternion", inverse_left_jacobian_of_so3(make_vector(sym(r), sym(r), sym(r)), eps)); break;
          case 6: mat("quaternion", quaternion::from_rotation_matrix(make_matrix_of_symbols("R", 3, 3)).to_vector_wxyz()); break;
          default: mat("quaternion", q.inverse().jacobian(q) * q.right_retract_derivative()); break;
        }
      } else if (w < 86) {
        const matrix_expr& m = g_mats[static_cast<std::size_t>(r.below(static_cast<int>(g_mats.size())))];
        mat("sharedmat", r.p(50) ? m.diff(sym(r)) : m.subs(sym(r), pick(r, ph)));
      } else if (w < 88) {
        std::vector<scalar_expr> v;
        for (int i = 0; i < 6; ++i) v.push_back(pick(r, ph));
        std::sort(v.begin(), v.end(), expression_order_struct{});
        kind = "order"; std::set<std::size_t> hs;
        for (const auto& e : v) { text += e.to_string() + ","; hs.insert(e.hash()); }
        text += std::to_string(*hs.begin());
      } else if (w < 91) {
  
        const scalar_expr e = ext_scalar::call(pick(r, ph), sym(r)) + ext_vec::call(ta::static_matrix<2, 1>{make_vector(sym(r), num(r))})[0];
        point_type a; a.x = sym(r); a.y = pick(r, ph);
        scal("ext", e * ext_point::call(sym(r), a).y);
      } else if (w < 94) {
        kind = "sharedcode"; text = gen_code(g_desc[static_cast<std::size_t>(r.below(static_cast<int>(g_desc.size())))], r);
      } else { kind = "code"; text = gen_code(describe(r, ph), r); }
    } catch (const std::exception& e) {
      text = std::string("exception: ") + e.what();
    }
    recs.push_back({ph, k, kind, normalised(text), g_seq.fetch_add(1, std::memory_order_relaxed)});
  }

  void phase(int ph) {
    // in even runs all the threads execute the same program in the first phase (they meet in the same code)
    const bool same = ph == 0 && (g_seed & 1) == 0;
    Rng r(g_seed * 1000003u + static_cast<std::uint64_t>(same ? 77 : id) * 7919u + static_cast<std::uint64_t>(ph) * 104729u);
    for (int k = 0; k < g_ops; ++k) {
      jitter();
      op(r, ph, k);
      if (g_par && g_seed % 5 != 0 && !local.empty() && (k % 5) == id % 5) {   // references migrate and die in other threads
        scalar_expr mine = local.back();
        {
          std::lock_guard<std::mutex> l(g_slot_mutex);
          auto& s = g_slots[static_cast<std::size_t>((k + id) % static_cast<int>(g_slots.size()))];
          std::swap(s, mine);
        }
        volatile std::size_t h = mine.hash(); (void)h;
        volatile bool b = mine.is_identical_to(local.back()); (void)b;
        (mine * local.back()).to_string();
      }
    }
    if (local.size() > 24) local.erase(local.begin(), local.end() - 24);
    auto& next = g_next[static_cast<std::size_t>(id)];
    next.clear();
    for (std::size_t i = 0; i < local.size() && next.size() < 6; ++i) next.push_back(local[local.size() - 1 - i]);
  }
};

static void collect_phase() {
  std::vector<scalar_expr> v;
  for (auto& n : g_next) { v.insert(v.end(), n.begin(), n.end()); n.clear(); }
  g_pool.push_back(std::move(v));
}

int main(int argc, char** argv) {
  if (argc < 5) return 2;
  g_seed = std::strtoull(argv[2], nullptr, 10);
  g_threads = std::atoi(argv[3]);
  if (!std::strcmp(argv[1], "unique")) {
    const int n = std::atoi(argv[4]);
    std::vector<std::vector<std::size_t>> idx(static_cast<std::size_t>(g_threads));
    std::vector<std::thread> ts;
    for (int t = 0; t < g_threads; ++t)
      ts.emplace_back([&, t] {
        auto& v = idx[static_cast<std::size_t>(t)];
        v.reserve(static_cast<std::size_t>(n));
        g_barrier.wait(g_threads);
        if ((g_seed + static_cast<std::uint64_t>(t)) % 2)
          for (int i = 0; i < n; ++i) v.push_back(unique_variable(number_set::real).index());
        else
          for (int i = 0; i < n; ++i) v.push_back(get<const unique_variable>(make_unique_variable_symbol(number_set::complex)).index());
      });
    for (auto& t : ts) t.join();
    std::vector<std::size_t> all;
    std::size_t unordered = 0;
    for (auto& v : idx) { all.insert(all.end(), v.begin(), v.end()); }
    std::sort(all.begin(), all.end());
    std::size_t dup = 0;
    for (std::size_t i = 1; i < all.size(); ++i) dup += all[i] == all[i - 1];
    std::size_t switches = 0;   // how often the counter moved between threads: the interleaving seen
    std::map<std::size_t, int> owner;
    for (int t = 0; t < g_threads; ++t) for (std::size_t x : idx[static_cast<std::size_t>(t)]) owner[x] = t;
    int prev = -1;
    for (auto& [x, t] : owner) { switches += t != prev; prev = t; }
    std::printf("unique total=%zu duplicates=%zu switches=%zu unordered=%zu\n", all.size(), dup, switches, unordered);
    return 0;
  }
  if (argc < 7) return 2;
  g_phases = std::atoi(argv[4]);
  g_ops = std::atoi(argv[5]);
  g_par = !std::strcmp(argv[6], "par");
  const bool text = argc > 7;
  g_next.resize(static_cast<std::size_t>(g_threads));
  std::vector<Thread> th(static_cast<std::size_t>(g_threads));
  for (int i = 0; i < g_threads; ++i) { th[static_cast<std::size_t>(i)].id = i; th[static_cast<std::size_t>(i)].noise = g_seed * 31 + static_cast<std::uint64_t>(i); }
  // shared objects are made by the main thread after the first phase: the first phase starts cold
  auto shared_objects = [&] {
    Thread m; m.id = 99; m.noise = 0;
    Rng r(g_seed * 13 + 5);
    const int np = static_cast<int>(g_pool.size());
    for (int i = 0; i < 40 && g_desc.size() < 2; ++i) try { g_desc.push_back(m.describe(r, np)); } catch (const std::exception&) {}
    for (int i = 0; i < 40 && g_mats.size() < 3; ++i) try { g_mats.push_back(make_matrix(2, 2, m.pick(r, np), m.pick(r, np), m.sym(r), m.fn(r, np))); } catch (const std::exception&) {}
  };
  // stand-ins for the cold phase
  const bool cold = (g_seed % 3) != 0;
  if (cold) { g_desc.emplace_back(function_description{"cold"}); 
    g_desc[0].set_return_value(scalar_type(numeric_primitive_type::floating_point), any_expression{g_desc[0].add_input_argument("x", scalar_type(numeric_primitive_type::floating_point))});
    g_mats.push_back(make_matrix_of_symbols("s", 2, 2)); }
  else shared_objects();
  g_slots.assign(7, scalar_expr{"slot"});
  if (g_par) {
    std::vector<std::thread> ts;
    for (int i = 0; i < g_threads; ++i)
      ts.emplace_back([&, i] {
        for (int ph = 0; ph < g_phases; ++ph) {
          g_barrier.wait(g_threads);
          th[static_cast<std::size_t>(i)].phase(ph);
          g_barrier.wait(g_threads);
          if (i == 0) { collect_phase(); if (ph == 0 && cold) { g_desc.clear(); g_mats.clear(); shared_objects(); } }
        }
        g_barrier.wait(g_threads);
      });
    for (auto& t : ts) t.join();
  } else {
    for (int ph = 0; ph < g_phases; ++ph) {
      for (auto& t : th) t.phase(ph);
      collect_phase();
      if (ph == 0 && cold) { g_desc.clear(); g_mats.clear(); shared_objects(); }
    }
  }
  for (const auto& t : th)
    for (const auto& r : t.recs) {
      std::printf("%d %d %d %s %016llx %zu %d\n", t.id, r.phase, r.op, r.kind, static_cast<unsigned long long>(fnv(r.text)), r.text.size(),
                  static_cast<int>(r.text.rfind("exception: ", 0) == 0));
      if (text) std::printf("    %s\n", r.text.c_str());
    }
  std::map<std::size_t, int> owner;
  for (const auto& t : th) for (const auto& r : t.recs) owner[r.seq] = t.id;
  std::size_t switches = 0;
  std::uint64_t order = 1469598103934665603ull;
  int prev = -1;
  for (const auto& [q, t] : owner) { switches += t != prev; prev = t; order = (order ^ static_cast<std::uint64_t>(t)) * 1099511628211ull; }
  std::printf("done switches=%zu order=%016llx\n", switches, static_cast<unsigned long long>(order));
  return 0;
}
