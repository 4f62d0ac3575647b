// Walsh transforms against the definition, and the expansion against the function
#include <algorithm>
#include <cmath>
#include "common.hh"
#include "hnco/functions/function.hh"
#include "hnco/functions/collection/walsh/walsh-expansion.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
struct Table: Function {
  int n; std::vector<double> t;
  Table(int n): n(n), t(size_t(1) << n) {}
  int get_bv_size() const override { return n; }
  double evaluate(const bit_vector_t& x) override { ok(int(x.size()) == n, "the function is evaluated at a vector of another size"); ok(valid(x), "the function is evaluated at an invalid vector"); size_t u = 0; for (int i = 0; i < n; i++) if (x[i]) u |= size_t(1) << i; return t[u]; }
};
static void check(const char* name, int kind, Table& f, const std::vector<double>& w, bool exact, std::vector<WalshTerm> terms)
{
  const int n = f.n; const size_t N = size_t(1) << n;
  at(name, "n", n, "kind", kind, "values", n <= 6 ? str(f.t) : str("seed", seed, "case", cases));
  if (kind < 0) return;
  if (!strcmp(name, "compute_walsh_transform")) compute_walsh_transform(&f, terms); else compute_fast_walsh_transform(&f, terms);
  double scale = 1; for (double v : f.t) scale += std::fabs(v);
  std::vector<bool> seen(N);
  for (auto& t : terms) {
    ok(int(t.feature.size()) == n, "a feature has another size");
    size_t u = 0; for (int i = 0; i < n; i++) if (t.feature[i]) u |= size_t(1) << i;
    if (seen[u]) fail_now("feature listed twice: " + str(from_int(n, u)));
    seen[u] = true;
    ok(t.coefficient != 0, "a term has a null coefficient");
    if (exact ? t.coefficient != w[u] : !(std::fabs(t.coefficient - w[u]) <= 1e-9 * scale)) fail_now("coefficient of " + str(from_int(n, u)) + " is " + str(t.coefficient) + " expected " + str(w[u]));
  }
  for (size_t u = 0; u < N; u++) if (!seen[u] && (exact ? w[u] != 0 : std::fabs(w[u]) > 1e-9 * scale)) fail_now("no term for " + str(from_int(n, u)) + " whose coefficient is " + str(w[u]));
  if (terms.empty()) return;
  WalshExpansion e; e.set_terms(terms);
  eq(e.get_bv_size(), n, "size of the expansion");
  for (size_t v = 0; v < N; v += (n <= 7 ? 1 : 1 + rnd(0, 40))) {
    double got = e.evaluate(from_int(n, v)), want = double(N) * f.t[v];
    if (exact ? got != want : !(std::fabs(got - want) <= 1e-9 * scale * N)) fail_now("the expansion evaluates to " + str(got) + " at " + str(from_int(n, v)) + " expected 2^n times " + str(f.t[v]));
  }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int T = thorough ? 40 : 4;
  for (int n = 1; n <= (thorough ? 11 : 10); n++) for (int rep = 0; rep < (n <= 7 ? 25 * T : T); rep++) {
    const size_t N = size_t(1) << n;
    Table f(n); int kind = rnd(0, 6); bool exact = true;
    if (rep < 7) kind = rep;
    switch (kind) {
    case 0: for (auto& v : f.t) v = rnd(-9, 9); break;
    case 1: f.t[rnd(0, N - 1)] = rnd(1, 5); break;
    case 2: for (auto& v : f.t) v = rndd(-1, 1); exact = false; break;
    case 3: for (size_t u = 0; u < N; u++) f.t[u] = __builtin_popcountl(u); break;
    case 4: { size_t m = rnd(0, N - 1), m2 = rnd(0, N - 1); for (size_t u = 0; u < N; u++) f.t[u] = (__builtin_parityl(u & m) ? -3 : 3) + (__builtin_parityl(u & m2) ? 1 : -1); break; }
    case 5: { double c = rnd(-3, 3); for (auto& v : f.t) v = c; break; }
    case 6: for (auto& v : f.t) v = rnd(0, 20) ? 0 : rnd(-4, 4) / 8.0; break;
    }
    std::vector<double> w(N);
    for (size_t u = 0; u < N; u++) { long double s = 0; for (size_t x = 0; x < N; x++) s += __builtin_parityl(u & x) ? -f.t[x] : f.t[x]; w[u] = s; }
    std::vector<WalshTerm> stale; if (rnd(0, 1)) stale.assign(rnd(1, 5), WalshTerm{std::vector<bool>(rnd(1, 9)), 7});
    check("compute_walsh_transform", kind, f, w, exact, stale);
    check("compute_fast_walsh_transform", kind, f, w, exact, stale);
  }
  for (int rep = 0; rep < 200 * T; rep++) {          // expansions on their own: sizes beyond the transforms, repeated features
    int n = rnd(1, 150), k = rnd(1, 12); std::vector<WalshTerm> terms(k);
    for (auto& t : terms) { t.feature.resize(n); int p = rnd(0, 3); for (int i = 0; i < n; i++) t.feature[i] = p == 0 ? false : rnd(0, p) == 0; t.coefficient = rnd(-50, 50); }
    WalshExpansion e; if (rnd(0, 1)) e.random(n, 3); e.set_terms(terms); bv x = rbv(n);
    at("WalshExpansion::evaluate", "n", n, "terms", k, "x", x);
    double want = 0; for (auto& t : terms) { int c = 0; for (int i = 0; i < n; i++) c += x[i] && t.feature[i]; want += c % 2 ? -t.coefficient : t.coefficient; }
    eq(e.evaluate(x), want, "value of the expansion"); eq(e.get_bv_size(), n, "size");
  }
  return done();
}
