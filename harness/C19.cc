// Modifiers and adapters: the stated transformation of the underlying function
// needs: fparser
#include "common.hh"
#include <algorithm>
#include <cmath>
#include <complex>
#include <memory>
#include <variant>
#include "hnco/functions/collection/theory.hh"
#include "hnco/functions/collection/linear-function.hh"
#include "hnco/functions/collection/parsed-multivariate-function.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/functions/multiobjective-function-adapter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/permutation-function-adapter.hh"
#include "hnco/functions/universal-function-adapter.hh"
#include "hnco/multiobjective/functions/collection/parsed-multivariate-function.hh"
#include "hnco/multiobjective/functions/multivariate-function-adapter.hh"
#include "hnco/multiobjective/functions/universal-function-adapter.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "fparser/fparser.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::modifier;
using namespace hnco::representation;
namespace mo = hnco::multiobjective::function;

// A function with an arbitrary value everywhere; it records the points it is given.
struct Any: Function {
  int n; bool inc; double mul; std::vector<bv> seen; double last_value = 0; sparse_bit_vector_t last_flips;
  Any(int n_, bool inc_ = true): n(n_), inc(inc_), mul(rndd(-3, 3)) {}
  double at(const bv& x) const { std::size_t h = 1469598103u; for (auto b : x) h = (h ^ (b + 1)) * 1099511628211ull; return mul + double(h % 20001) / 16 - 600; }
  int get_bv_size() const override { return n; }
  bool provides_incremental_evaluation() const override { return inc; }
  double evaluate(const bv& x) override { seen.push_back(x); return at(x); }
  double evaluate_incrementally(const bv& x, double value, const sparse_bit_vector_t& f) override { last_value = value; last_flips = f; bv y(x); for (auto i : f) y[i] = !y[i]; return at(y); }
};
static bv slice(const bv& x, int start, int size) { return bv(x.begin() + start, x.begin() + start + size); }
template <class T> struct Rec {
  using domain_type = T; using codomain_type = T;
  int n; std::vector<std::vector<T>> seen; T out{};
  int get_num_variables() const { return n; }
  T evaluate(const std::vector<T>& v) { seen.push_back(v); return out; }
  void display(std::ostream&) const {} void describe(const std::vector<T>&, std::ostream&) {}
};
template <class T> struct RecMo {
  using domain_type = T; using codomain_type = T;
  int n, m; std::vector<std::vector<T>> seen; std::vector<T> out;
  int get_num_variables() const { return n; } int get_output_size() const { return m; }
  void evaluate(const std::vector<T>& v, std::vector<T>& values) { seen.push_back(v); values = out; }
  void display(std::ostream&) const {} void describe(const std::vector<T>&, std::ostream&) {}
};
struct RecPerm { int n; std::vector<permutation_t> seen; double out = 0; int get_num_elements() const { return n; } double evaluate(const permutation_t& p) { seen.push_back(p); return out; } void display(std::ostream&) const {} void describe(const permutation_t&, std::ostream&) {} };
struct Vars { bv b; std::vector<int> i; std::vector<double> f; std::vector<std::complex<double>> c; std::vector<int> k; std::vector<permutation_t> p; };
struct RecU: UniversalFunction { std::vector<Vars> seen; double out = 0; double evaluate(const bv& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t>& p) override { seen.push_back({b, i, f, c, k, p}); return out; } };
struct RecUMo: mo::UniversalFunction { std::vector<Vars> seen; std::vector<double> out; int get_output_size() const override { return out.size(); } void evaluate(const bv& b, const std::vector<int>& i, const std::vector<double>& f, const std::vector<std::complex<double>>& c, const std::vector<int>& k, const std::vector<permutation_t> p, mo::value_t& v) override { seen.push_back({b, i, f, c, k, p}); v = out; } };

static DyadicIntegerRepresentation<int> rint_rep() { int a = rnd(-50, 50), b = a + rnd(1, 300); return rnd(0, 1) ? DyadicIntegerRepresentation<int>(a, b) : DyadicIntegerRepresentation<int>(a, b, rnd(1, 8)); }
static DyadicFloatRepresentation<double> rfloat_rep() { double a = rndd(-10, 10); return DyadicFloatRepresentation<double>(a, a + rndd(0.5, 20), rnd(1, 9)); }
static ComplexRepresentation<DyadicFloatRepresentation<double>> rcomplex_rep() { return ComplexRepresentation<DyadicFloatRepresentation<double>>(rfloat_rep(), rfloat_rep()); }
template <class V> static void vec_eq(const V& got, const V& want, const char* what) { if (!(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin()))) fail_now(std::string(what) + ": the function was given other values than those of the slices"); }
// a permutation that sorts the codes in the slice
static void perm_ok(const permutation_t& p, const bv& s, int n, const char* what) {
  eq(int(p.size()), n, what); int w = s.size() / n; eq(int(s.size()), w * n, "size of the permutation slice");
  std::vector<int> q(p.begin(), p.end()); std::sort(q.begin(), q.end()); for (int i = 0; i < n; i++) ok(q[i] == i, std::string(what) + ": not a permutation");
  auto code = [&](int e) { unsigned long c = 0; for (int j = 0; j < w; j++) c |= (unsigned long)(s[e * w + j]) << j; return c; };
  for (int i = 0; i + 1 < n; i++) ok(code(p[i]) <= code(p[i + 1]), std::string(what) + ": elements are not in the order of their codes");
}
template <class A, class R, class I> static void check_universal(const char* name, A make, R& rec, I call) {
  int nb = rnd(0, 4);
  std::vector<DyadicIntegerRepresentation<int>> ir; for (int k = rnd(0, 3); k--; ) ir.push_back(rint_rep());
  std::vector<DyadicFloatRepresentation<double>> fr; for (int k = rnd(0, 3); k--; ) fr.push_back(rfloat_rep());
  std::vector<ComplexRepresentation<DyadicFloatRepresentation<double>>> cr; for (int k = rnd(0, 2); k--; ) cr.push_back(rcomplex_rep());
  std::vector<LinearCategoricalRepresentation> kr; for (int k = rnd(0, 2); k--; ) kr.push_back(LinearCategoricalRepresentation(rnd(2, 9)));
  std::vector<PermutationRepresentation> pr; for (int k = rnd(0, 2); k--; ) pr.push_back(PermutationRepresentation(rnd(1, 6), rnd(1, 3)));
  int total = nb; for (auto& r : ir) total += r.size(); for (auto& r : fr) total += r.size(); for (auto& r : cr) total += r.size(); for (auto& r : kr) total += r.size(); for (auto& r : pr) total += r.size();
  if (total == 0) return;
  std::string cfg = str(nb, "booleans", ir.size(), "integers", fr.size(), "floats", cr.size(), "complex", kr.size(), "categorical", pr.size(), "permutations");
  auto a = make(nb, ir, fr, cr, kr, pr);
  at(name, cfg); eq(a->get_bv_size(), total, "size is the sum of the sizes of the representations");
  for (int rep = 0; rep < 4; rep++) {
    bv x = rbv(total); at(name, cfg, x);
    rec.seen.clear(); call(*a, x);
    eq(rec.seen.size(), size_t(1), "number of evaluations of the underlying function");
    Vars v = rec.seen[0]; int start = nb;
    eq(v.b, slice(x, 0, nb), "boolean variables");
    std::vector<int> wi; for (auto& r : ir) { wi.push_back(r.unpack(slice(x, start, r.size()), 0)); start += r.size(); } vec_eq(v.i, wi, "integer variables");
    std::vector<double> wf; for (auto& r : fr) { wf.push_back(r.unpack(slice(x, start, r.size()), 0)); start += r.size(); } vec_eq(v.f, wf, "float variables");
    std::vector<std::complex<double>> wc; for (auto& r : cr) { wc.push_back(r.unpack(slice(x, start, r.size()), 0)); start += r.size(); } vec_eq(v.c, wc, "complex variables");
    std::vector<int> wk; for (auto& r : kr) { wk.push_back(r.unpack(slice(x, start, r.size()), 0)); start += r.size(); } vec_eq(v.k, wk, "categorical variables");
    eq(v.p.size(), pr.size(), "number of permutations"); for (size_t k = 0; k < pr.size(); k++) { perm_ok(v.p[k], slice(x, start, pr[k].size()), pr[k].get_num_elements(), "permutation variable"); start += pr[k].size(); }
    eq(start, total, "slices");
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const int N = (getenv("N") ? atoi(getenv("N")) : 400) * (thorough ? 8 : 1);
  for (int it = 0; it < N; it++) {
    int n = rnd(1, 12);
    { Any f(n, rnd(0, 1)); OppositeFunction o(&f); bv x = rbv(n);
      at("OppositeFunction", n, x); eq(o.get_bv_size(), n, "size"); eq(o.evaluate(x), -f.at(x), "value"); eq(f.seen.back(), x, "point"); eq(o.provides_incremental_evaluation(), f.inc, "incremental evaluation");
      sparse_bit_vector_t fl; for (int i = 0; i < n; i++) if (rnd(0, 2) == 0) fl.push_back(i); bv y(x); for (auto i : fl) y[i] = !y[i];
      at("OppositeFunction::evaluate_incrementally", n, x, std::vector<int>(fl.begin(), fl.end())); if (f.inc) { double v = o.evaluate(x); eq(o.evaluate_incrementally(x, v, fl), -f.at(y), "incremental value"); eq(f.last_value, f.at(x), "value handed to the function"); ok(f.last_flips == fl, "flips handed to the function"); } }
    { int m = rnd(1, 12); Any f(m); std::unique_ptr<map::Map> mp; std::string what; int kind = rnd(0, 4);
      if (kind == 0) { auto t = std::make_unique<map::Translation>(); t->random(m); mp = std::move(t); what = "translation"; }
      else if (kind == 1) { auto t = std::make_unique<map::Permutation>(); t->random(m); mp = std::move(t); what = "permutation"; }
      else if (kind == 2) { auto t = std::make_unique<map::LinearMap>(); t->random(m, n, false); mp = std::move(t); what = "linear"; }
      else if (kind == 3) { auto t = std::make_unique<map::AffineMap>(); t->random(m, n, false); mp = std::move(t); what = "affine"; }
      else { std::vector<int> p; for (int i = 0; i < m; i++) p.push_back(i); int out = m, in = m + rnd(0, 5); std::vector<int> q; for (int i = 0; i < in; i++) q.push_back(i); std::shuffle(q.begin(), q.end(), rng); q.resize(out); mp = std::make_unique<map::Projection>(q, in); what = "projection"; }
      FunctionMapComposition c(&f, mp.get()); at("FunctionMapComposition", what, n, m); eq(c.get_bv_size(), mp->get_input_size(), "size");
      for (int r = 0; r < 3; r++) { bv x = rbv(c.get_bv_size()), y(m); at("FunctionMapComposition", what, x); mp->map(x, y); f.seen.clear(); eq(c.evaluate(x), f.at(y), "value"); eq(f.seen, std::vector<bv>{y}, "points"); } }
    { Any f(n); int r = rnd(1, n); neighborhood::HammingSphere nh(n, r); PriorNoise p(&f, &nh); eq(p.get_bv_size(), n, "size"); eq(p.provides_incremental_evaluation(), false, "incremental");
      for (int k = 0; k < 3; k++) { bv x = rbv(n), x0 = x; at("PriorNoise", n, r, x); f.seen.clear(); double v = p.evaluate(x); eq(f.seen.size(), size_t(1), "evaluations"); eq(v, f.at(f.seen[0]), "value at the noisy point"); eq(hd(f.seen[0], x), r, "distance of the noisy point"); eq(x, x0, "point untouched"); } }
    { Any f(n); struct E { const char* s; double (*g)(double); };
      static const E es[] = {{"x", [](double x) { return x; }}, {"-x", [](double x) { return -x; }}, {"2*x+1", [](double x) { return 2 * x + 1; }}, {"x^2", [](double x) { return x * x; }}, {"x*x-3*x", [](double x) { return x * x - 3 * x; }}, {"abs(x)", [](double x) { return std::fabs(x); }}, {"if(x>0,x,7)", [](double x) { return x > 0 ? x : 7.0; }}, {"max(x,3)", [](double x) { return std::max(x, 3.0); }}};
      auto& e = es[rnd(0, 7)]; ParsedModifier p(&f, e.s); eq(p.get_bv_size(), n, "size");
      for (int k = 0; k < 3; k++) { bv x = rbv(n); at("ParsedModifier", e.s, x); f.seen.clear(); double v = p.evaluate(x), w = e.g(f.at(x)); ok(std::fabs(v - w) <= 1e-9 * std::max(1.0, std::fabs(w)), str("got", v, "expected", w)); eq(f.seen, std::vector<bv>{x}, "points"); } }
    // ---- multivariate adapters
    { int k = rnd(1, 5); std::vector<DyadicFloatRepresentation<double>> rs; int total = 0; for (int i = 0; i < k; i++) { rs.push_back(rfloat_rep()); total += rs.back().size(); }
      Rec<double> f; f.n = k; MultivariateFunctionAdapter<Rec<double>, DyadicFloatRepresentation<double>, ScalarToDouble<double>> a(&f, rs); MultivariateFunctionAdapter<Rec<double>, DyadicFloatRepresentation<double>, OppositeAbsoluteValue<double>> b(&f, rs); MultivariateFunctionAdapter<Rec<double>, DyadicFloatRepresentation<double>, AbsoluteValue<double>> c(&f, rs);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); at("MultivariateFunctionAdapter<double>", k, x); eq(a.get_bv_size(), total, "size"); f.out = rndd(-9, 9); f.seen.clear(); eq(a.evaluate(x), f.out, "value"); eq(b.evaluate(x), -std::fabs(f.out), "opposite absolute value"); eq(c.evaluate(x), std::fabs(f.out), "absolute value");
        std::vector<double> w; int st = 0; for (auto& q : rs) { w.push_back(q.unpack(slice(x, st, q.size()), 0)); st += q.size(); } eq(f.seen.size(), size_t(3), "evaluations"); for (auto& s : f.seen) vec_eq(s, w, "variables"); } }
    { int k = rnd(1, 5); std::vector<DyadicIntegerRepresentation<int>> rs; int total = 0; for (int i = 0; i < k; i++) { rs.push_back(rint_rep()); total += rs.back().size(); }
      Rec<int> f; f.n = k; MultivariateFunctionAdapter<Rec<int>, DyadicIntegerRepresentation<int>, ScalarToDouble<int>> a(&f, rs);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); at("MultivariateFunctionAdapter<int>", k, x); eq(a.get_bv_size(), total, "size"); f.out = rnd(-900, 900); f.seen.clear(); eq(a.evaluate(x), double(f.out), "value");
        std::vector<int> w; int st = 0; for (auto& q : rs) { w.push_back(q.unpack(slice(x, st, q.size()), 0)); st += q.size(); } eq(f.seen.size(), size_t(1), "evaluations"); vec_eq(f.seen[0], w, "variables"); } }
    { int k = rnd(1, 4); using CR = ComplexRepresentation<DyadicFloatRepresentation<double>>; using C = std::complex<double>; std::vector<CR> rs; int total = 0; for (int i = 0; i < k; i++) { rs.push_back(rcomplex_rep()); total += rs.back().size(); }
      Rec<C> f; f.n = k; MultivariateFunctionAdapter<Rec<C>, CR, SquaredMagnitude<double>> a(&f, rs); MultivariateFunctionAdapter<Rec<C>, CR, OppositeSquaredMagnitude<double>> b(&f, rs);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); f.out = C(rnd(-9, 9), rnd(-9, 9)); at("MultivariateFunctionAdapter<complex>", k, x, f.out); eq(a.get_bv_size(), total, "size"); f.seen.clear(); double w2 = f.out.real() * f.out.real() + f.out.imag() * f.out.imag(); eq(a.evaluate(x), w2, "value"); eq(b.evaluate(x), -w2, "opposite value");
        std::vector<C> w; int st = 0; for (auto& q : rs) { w.push_back(q.unpack(slice(x, st, q.size()), 0)); st += q.size(); } eq(f.seen.size(), size_t(2), "evaluations"); for (auto& s : f.seen) vec_eq(s, w, "variables"); } }
    { using V = std::variant<DyadicIntegerRepresentation<long>, DyadicFloatRepresentation<double>, ValueSetRepresentation<double>>; int k = rnd(1, 5), total = 0; std::vector<V> rs;
      for (int i = 0; i < k; i++) { int w = rnd(0, 2); if (w == 0) { int l = rnd(-40, 40); rs.push_back(DyadicIntegerRepresentation<long>(l, l + rnd(1, 99))); } else if (w == 1) rs.push_back(rfloat_rep()); else { std::vector<double> vs; for (int j = rnd(2, 6); j--; ) vs.push_back(rndd(-5, 5)); rs.push_back(ValueSetRepresentation<double>(vs)); } total += std::visit([](auto&& q) { return q.size(); }, rs.back()); }
      Rec<double> f; f.n = k; MixedRepresentationMultivariateFunctionAdapter<Rec<double>, V, ScalarToDouble<double>> a(&f, rs);
      RecMo<double> g; g.n = k; g.m = rnd(1, 3); mo::MixedRepresentationMultivariateFunctionAdapter<RecMo<double>, V, OppositeAbsoluteValue<double>> b(&g, rs);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); at("MixedRepresentationMultivariateFunctionAdapter", k, x); eq(a.get_bv_size(), total, "size"); f.out = rndd(-9, 9); f.seen.clear(); eq(a.evaluate(x), f.out, "value");
        std::vector<double> w; int st = 0; for (auto& q : rs) { int sz = std::visit([](auto&& z) { return z.size(); }, q); bv s = slice(x, st, sz); w.push_back(std::visit([&](auto&& z) { return double(z.unpack(s, 0)); }, q)); st += sz; } eq(f.seen.size(), size_t(1), "evaluations"); vec_eq(f.seen[0], w, "variables");
        at("multiobjective::MixedRepresentationMultivariateFunctionAdapter", k, x); eq(b.get_bv_size(), total, "size"); eq(b.get_output_size(), g.m, "output size"); g.out.clear(); for (int i = 0; i < g.m; i++) g.out.push_back(rndd(-9, 9)); g.seen.clear(); std::vector<double> val(g.m, 5); b.evaluate(x, val); vec_eq(g.seen.at(0), w, "variables"); for (int i = 0; i < g.m; i++) eq(val[i], -std::fabs(g.out[i]), "objective"); } }
    { int k = rnd(1, 4); using CR = ComplexRepresentation<DyadicFloatRepresentation<double>>; using C = std::complex<double>; std::vector<CR> rs; int total = 0; for (int i = 0; i < k; i++) { rs.push_back(rcomplex_rep()); total += rs.back().size(); }
      RecMo<C> g; g.n = k; g.m = rnd(1, 4); mo::MultivariateFunctionAdapter<RecMo<C>, CR, SquaredMagnitude<double>> a(&g, rs);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); at("multiobjective::MultivariateFunctionAdapter<complex>", k, g.m, x); eq(a.get_bv_size(), total, "size"); eq(a.get_output_size(), g.m, "output size"); g.out.clear(); for (int i = 0; i < g.m; i++) g.out.push_back(C(rnd(-9, 9), rnd(-9, 9))); g.seen.clear(); std::vector<double> val(g.m); a.evaluate(x, val); std::vector<C> w; int st = 0; for (auto& q : rs) { w.push_back(q.unpack(slice(x, st, q.size()), 0)); st += q.size(); } vec_eq(g.seen.at(0), w, "variables"); for (int i = 0; i < g.m; i++) eq(val[i], g.out[i].real() * g.out[i].real() + g.out[i].imag() * g.out[i].imag(), "objective"); } }
    { int k = rnd(1, 4); std::vector<DyadicFloatRepresentation<double>> rs; int total = 0; for (int i = 0; i < k; i++) { rs.push_back(rfloat_rep()); total += rs.back().size(); }
      RecMo<double> g; g.n = k; g.m = rnd(1, 4); mo::MultivariateFunctionAdapter<RecMo<double>, DyadicFloatRepresentation<double>, ScalarToDouble<double>> a(&g, rs); MultiobjectiveFunctionAdapter s(&a);
      for (int r = 0; r < 3; r++) { bv x = rbv(total); at("multiobjective::MultivariateFunctionAdapter<double>", k, g.m, x); eq(a.get_bv_size(), total, "size"); g.out.clear(); double sum = 0; for (int i = 0; i < g.m; i++) { g.out.push_back(rnd(-9, 9)); sum += g.out.back(); } g.seen.clear(); std::vector<double> val(g.m); a.evaluate(x, val); std::vector<double> w; int st = 0; for (auto& q : rs) { w.push_back(q.unpack(slice(x, st, q.size()), 0)); st += q.size(); } vec_eq(g.seen.at(0), w, "variables"); eq(val, g.out, "objectives");
        at("MultiobjectiveFunctionAdapter", k, g.m, x, g.out); eq(s.get_bv_size(), total, "size"); eq(s.evaluate(x), sum, "sum of the objectives"); } }
    { int k = rnd(1, 7); PermutationRepresentation pr(k, rnd(1, 4)); RecPerm f; f.n = k; PermutationFunctionAdapter<RecPerm> a(&f, pr); at("PermutationFunctionAdapter", k, pr.size()); eq(a.get_bv_size(), pr.size(), "size");
      for (int r = 0; r < 3; r++) { bv x = rbv(pr.size()); at("PermutationFunctionAdapter", k, x); f.out = rndd(-5, 5); f.seen.clear(); eq(a.evaluate(x), f.out, "value"); eq(f.seen.size(), size_t(1), "evaluations"); perm_ok(f.seen[0], x, k, "permutation"); }
      PermutationRepresentation other(k + 1, 1); bool threw = false; at("PermutationFunctionAdapter constructor", k, k + 1); try { PermutationFunctionAdapter<RecPerm> bad(&f, other); } catch (const std::runtime_error&) { threw = true; } ok(threw, "incompatible representation accepted"); }
    { RecU f; f.out = rndd(-9, 9); check_universal("UniversalFunctionAdapter", [&](auto... a) { return std::make_unique<UniversalFunctionAdapter>(&f, a...); }, f, [&](auto& a, const bv& x) { eq(a.evaluate(x), f.out, "value"); }); }
    { RecUMo f; for (int i = rnd(1, 3); i--; ) f.out.push_back(rndd(-9, 9)); check_universal("multiobjective::UniversalFunctionAdapter", [&](auto... a) { return std::make_unique<mo::UniversalFunctionAdapter>(&f, a...); }, f, [&](auto& a, const bv& x) { eq(a.get_output_size(), int(f.out.size()), "output size"); std::vector<double> v(f.out.size()); a.evaluate(x, v); eq(v, f.out, "objectives"); }); }
    // ---- parsed multivariate functions: variables in the stated order
    if (it % 4 == 0) { double a = rnd(-9, 9), b = rnd(-9, 9), c = rnd(-9, 9), k = rnd(-5, 5);
      at("ParsedMultivariateFunction", a, b, c, k); ParsedMultivariateFunction<FunctionParser> p("a + 10 * b - c ^ 2 + k"); p.add_constant("k", k); p.parse(); eq(p.get_num_variables(), 3, "variables"); auto names = p.get_variable_names(); std::map<std::string, double> env{{"a", a}, {"b", b}, {"c", c}}; std::vector<double> xs; for (auto& s : names) { ok(env.count(s), "unknown variable"); xs.push_back(env[s]); } ok(std::fabs(p.evaluate(xs) - (a + 10 * b - c * c + k)) < 1e-9, "value");
      at("multiobjective::ParsedMultivariateFunction", a, b, c, k); mo::ParsedMultivariateFunction<FunctionParser> q("c + 10 * b + k :: a - b :: c * c"); q.add_constant("k", k); q.parse(); eq(q.get_num_variables(), 3, "variables"); eq(q.get_output_size(), 3, "objectives"); eq(q.get_variable_names(), std::vector<std::string>({"a", "b", "c"}), "names in order"); std::vector<double> val(3); q.evaluate({a, b, c}, val); ok(std::fabs(val[0] - (c + 10 * b + k)) < 1e-9 && std::fabs(val[1] - (a - b)) < 1e-9 && std::fabs(val[2] - c * c) < 1e-9, str("objectives", val)); }
    // ---- converters
    { double v = rndd(-9, 9); int i = rnd(-99, 99); std::complex<double> z(rnd(-9, 9), rnd(-9, 9)); at("converters", v, i, z); eq(ScalarToDouble<double>()(v), v, "scalar"); eq(ScalarToDouble<int>()(i), double(i), "int"); eq(AbsoluteValue<double>()(v), std::fabs(v), "absolute value"); eq(OppositeAbsoluteValue<double>()(v), -std::fabs(v), "opposite absolute value"); eq(AbsoluteValue<int>()(i), double(std::abs(i)), "absolute value"); eq(SquaredMagnitude<double>()(z), z.real() * z.real() + z.imag() * z.imag(), "squared magnitude"); eq(OppositeSquaredMagnitude<double>()(z), -(z.real() * z.real() + z.imag() * z.imag()), "opposite squared magnitude"); }
  }
  // additive Gaussian noise: mean 0 and the stated deviation
  for (double sd : {0.5, 2.0, 10.0}) { int n = 6, S = 20000; Any f(n); AdditiveGaussianNoise g(&f, sd); eq(g.get_bv_size(), n, "size"); bv x = rbv(n); at("AdditiveGaussianNoise", sd, x); double s = 0, s2 = 0; for (int i = 0; i < S; i++) { double d = g.evaluate(x) - f.at(x); s += d; s2 += d * d; } ok(std::fabs(s / S) < 8 * sd / std::sqrt(S), str("mean of the noise", s / S)); double var = s2 / S; ok(std::fabs(var - sd * sd) < 8 * sd * sd * std::sqrt(2.0 / S), str("variance of the noise", var)); eq(f.seen.back(), x, "point"); }
  return done();
}
