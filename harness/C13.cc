// Populations and selections: pairing, ranks, exactly the best survive, membership, tournaments
#include "common.hh"
#include <algorithm>
#include <cmath>
#include "hnco/algorithms/population.hh"
#include "hnco/algorithms/evolutionary-algorithms/selection.hh"
#include "hnco/algorithms/evolutionary-algorithms/random-selection.hh"
#include "hnco/multiobjective/algorithms/random-selection.hh"
#include "hnco/multiobjective/algorithms/population.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::algorithm;
struct Table: hnco::function::Function {
  int n; std::vector<double> t; long calls = 0, upd = 0; bool exact = true;
  Table(int n_, int kind): n(n_), t(size_t(1) << n_) { for (size_t i = 0; i < t.size(); i++) t[i] = kind == 0 ? rnd(-2, 2) : kind == 1 ? rndd(-1e6, 1e6) : kind == 2 ? 7 : rnd(0, 1); }
  double at(const bv& x) const { size_t u = 0; for (int i = 0; i < n; i++) u |= size_t(x[i] != 0) << i; return t[u]; }
  int get_bv_size() const override { return n; }
  double evaluate(const bv& x) override { calls++; return at(x); }
  double evaluate_safely(const bv& x) override { return at(x); }
  void update(const bv& x, double v) override { upd++; if (v != at(x)) exact = false; }
};
static std::vector<double> sorted(std::vector<double> v) { std::sort(v.begin(), v.end(), std::greater<double>()); return v; }
static bool is_perm(const std::vector<int>& p) { std::vector<int> q(p); std::sort(q.begin(), q.end()); for (size_t i = 0; i < q.size(); i++) if (q[i] != int(i)) return false; return true; }
static void paired(Population& p, Table& t, const char* what) { eq(p.bvs.size(), p.values.size(), "as many values as bit vectors"); for (size_t i = 0; i < p.bvs.size(); i++) { ok(valid(p.bvs[i]), std::string(what) + ": invalid bit vector"); if (p.values[i] != t.at(p.bvs[i])) fail_now(std::string(what) + ": individual " + str(i, p.bvs[i]) + " has value " + str(p.values[i]) + " expected " + str(t.at(p.bvs[i]))); } }
// the k first ranks hold the k best values in order
static void ranked(Population& p, int k, const char* what) {
  eq(p.permutation.size(), p.bvs.size(), "size of the permutation"); ok(is_perm(p.permutation), std::string(what) + ": ranks are not a permutation");
  auto s = sorted(p.values);
  for (int i = 0; i < k; i++) { eq(p.get_best_value(i), s[i], what); eq(p.get_best_bv(i), p.bvs[p.get_best_index(i)], "bit vector of rank"); eq(p.get_best_value(i), p.values[p.get_best_index(i)], "value of rank"); }
  if (k) { eq(p.get_best_value(), s[0], "best value"); eq(p.values[p.get_best_index()], s[0], "best index"); eq(p.get_best_bv(), p.bvs[p.get_best_index()], "best bit vector"); }
}
static std::vector<std::pair<bv, double>> content(const Population& p) { std::vector<std::pair<bv, double>> c; for (size_t i = 0; i < p.bvs.size(); i++) c.push_back({p.bvs[i], p.values[i]}); return c; }
static bool sub(std::vector<std::pair<bv, double>> a, std::vector<std::pair<bv, double>> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
static void selected(Population& p, int mu, const std::vector<std::pair<bv, double>>& source, Table& t, const char* what) {
  eq(p.get_size(), mu, "size of the parent population"); paired(p, t, what);
  std::vector<double> v; for (auto& q : source) v.push_back(q.second);
  auto s = sorted(v); s.resize(mu);
  eq(sorted(p.values), s, "values of the selected individuals"); ok(sub(content(p), source), std::string(what) + ": selected individuals do not all come from the source"); ranked(p, mu, "rank in the selected population");
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 20000 : 3000;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 7), kind = rnd(0, 3), N = rnd(1, rnd(1, 12)); Table t(n, kind);
    Population p(N, n);
    at("Population::Population", N, n); eq(p.get_size(), N, "size"); eq(p.get_bv_size(), n, "bit vector size"); eq(p.values.size(), size_t(N), "values"); ok(is_perm(p.permutation) && int(p.permutation.size()) == N, "permutation");
    at("Population::random", N, n); p.random(); eq(p.get_size(), N, "size"); for (auto& x : p.bvs) { eq(int(x.size()), n, "bit vector size"); ok(valid(x), "invalid bit vector"); }
    auto b = p.bvs;
    at("Population::evaluate", b, t.t); p.evaluate(&t); eq(p.bvs, b, "bit vectors unchanged"); paired(p, t, "evaluate"); eq(t.calls, long(N), "one evaluation per individual");
    at("Population::sort", p.bvs, p.values); { auto c = content(p); for (int k = 0; k < 2; k++) { p.sort(); ok(content(p) == c, "sorting changes individuals"); ranked(p, N, "rank after sort"); for (int i = 0; i < N; i++) eq(p.get_worst_bv(i), p.get_best_bv(N - 1 - i), "worst bit vector"); } }
    { int i = rnd(0, N - 1); at("Population::get_equivalent_bvs", p.values, p.permutation, i); auto q = p.get_equivalent_bvs(i); double v = p.get_best_value(i); int a = 0, c = 0; for (double u : p.values) { a += u > v; c += u >= v; } eq(q.first, a, "first equivalent rank"); eq(q.second, c, "end of equivalent ranks"); }
    { int k = rnd(1, N); at("Population::partial_sort", p.bvs, p.values, k); auto c = content(p); p.partial_sort(k); ok(content(p) == c, "sorting changes individuals"); ranked(p, k, "rank after partial sort"); }
    { at("Population::evaluate_in_parallel", b, t.t); std::fill(p.values.begin(), p.values.end(), 1e9); Table t2(t), t3(t), t4(t), t5(t), t6(t), t7(t), t8(t); std::vector<hnco::function::Function*> fs{&t, &t2, &t3, &t4, &t5, &t6, &t7, &t8}; t.upd = 0; if (r < 300) { p.evaluate_in_parallel(fs); eq(p.bvs, b, "bit vectors unchanged"); paired(p, t, "evaluate_in_parallel"); } else p.evaluate(&t); }
    int mu = rnd(1, 6), lambda = rnd(mu, 12);
    { Population a(mu, n), o(lambda, n); a.random(); CommaSelection s(a, o);
      for (int k = 0; k < 3; k++) { o.random(); o.evaluate(&t); auto c = content(o); at("CommaSelection::select", "mu", mu, "offsprings", o.bvs, o.values, "round", k); s.select(); selected(a, mu, c, t, "comma selection"); eq(o.get_size(), lambda, "size of the offspring population"); for (auto& x : o.bvs) eq(int(x.size()), n, "offspring size"); } }
    { lambda = rnd(1, 12); Population a(mu, n), o(lambda, n); a.random(); a.evaluate(&t); PlusSelection s(a, o); if (rnd(0, 1)) a.sort();
      for (int k = 0; k < 3; k++) { o.random(); o.evaluate(&t); auto c = content(o); auto d = content(a); c.insert(c.end(), d.begin(), d.end()); at("PlusSelection::select", "mu", mu, "parents", a.bvs, a.values, "offsprings", o.bvs, o.values, "round", k); s.select(); selected(a, mu, c, t, "plus selection"); eq(o.get_size(), lambda, "size of the offspring population"); for (auto& x : o.bvs) eq(int(x.size()), n, "offspring size"); } }
    // selection for reproduction
    { p.evaluate(&t); auto in = [&](const bv& x) { for (auto& y : p.bvs) if (&x == &y) return true; return false; };
      { UniformSelection s(p); s.init(); for (int k = 0; k < 5; k++) { at("UniformSelection::select", p.bvs); ok(in(s.select()), "not a member of the population"); } }
      if (N >= 3) {
        // distinct individuals, identified by their address
        int T = rnd(2, N - 1); TournamentSelection s(p); s.set_tournament_size(T); s.init();
        for (int round = 0; round < 4; round++) {
          std::set<const bv*> seen; int best = 0; auto v = sorted(p.values);
          for (int k = 0; k < N / T; k++) {
            at("TournamentSelection::select", "tournament size", T, "values", p.values, "round", round, "selection", k);
            const bv& x = s.select(); ok(in(x), "not a member of the population"); size_t i = &x - &p.bvs[0]; int worse = -1; for (double u : p.values) worse += u <= p.values[i];
            ok(worse >= T - 1, "the selected individual " + str(i) + " cannot be the best of a tournament: only " + str(worse) + " others are not better");
            ok(seen.insert(&x).second, "individual " + str(i) + " wins twice in a round of tournaments without replacement"); best += p.values[i] == v[0]; }
          if (N % T == 0) ok(best >= 1, "the best individual wins no tournament of a complete round"); } }
      if (N >= 3) {
        std::vector<int> f(N); for (auto& u : f) u = rnd(0, 4); int T = rnd(2, N - 1);
        multiobjective::algorithm::TournamentSelection<int, std::less<int>> s(p.bvs, f); s.set_tournament_size(T); s.init();
        for (int round = 0; round < 3; round++) { int best = 0; int m = *std::min_element(f.begin(), f.end()); std::set<const bv*> seen;
          for (int k = 0; k < N / T; k++) { at("multiobjective::TournamentSelection::select", "tournament size", T, "fronts", f, "round", round, "selection", k); const bv& x = s.select(); ok(in(x), "not a member of the population"); size_t i = &x - &p.bvs[0]; int worse = -1; for (int u : f) worse += u >= f[i]; ok(worse >= T - 1, "the selected individual cannot be the best of a tournament"); ok(seen.insert(&x).second, "an individual wins twice in a round"); best += f[i] == m; }
          if (N % T == 0) ok(best >= 1, "the best individual wins no tournament of a complete round"); } }
      { std::vector<double> keep = p.values; for (auto& u : p.values) u = rnd(0, 2) ? rndd(0.1, 3) : 0; p.values[rnd(0, N - 1)] = 1;
        FitnessProportionateSelection s(p); s.init(); for (int k = 0; k < 5; k++) { at("FitnessProportionateSelection::select", p.values); const bv& x = s.select(); ok(in(x), "not a member of the population"); ok(p.values[&x - &p.bvs[0]] > 0, "an individual of value zero is selected"); } p.values = keep; }
      { BoltzmannSelection s(p); s.set_beta(rndd(0, 1)); at("BoltzmannSelection::init", p.values); s.init(); for (int k = 0; k < 5; k++) { at("BoltzmannSelection::select", p.values); ok(in(s.select()), "not a member of the population"); } } }
  }
  // frequencies: a deviation of 8 standard deviations
  for (int r = 0; r < 6; r++) {
    int N = 4; Population p(N, 6); for (int i = 0; i < N; i++) { p.bvs[i] = from_int(6, i); p.values[i] = rndd(0.2, 2); }
    double beta = rndd(0.5, 2); const int D = 20000;
    std::vector<double> w0(N, 1.0), w1 = p.values, w2(N); for (int i = 0; i < N; i++) w2[i] = std::exp(beta * p.values[i]);
    UniformSelection a(p); FitnessProportionateSelection b(p); BoltzmannSelection c(p); c.set_beta(beta);
    auto check = [&](RandomSelection& s, std::vector<double> w, const char* name) { s.init(); double z = 0; for (double u : w) z += u; std::vector<int> h(N); for (int k = 0; k < D; k++) h[&s.select() - &p.bvs[0]]++; at(name, "values", p.values, "beta", beta); for (int i = 0; i < N; i++) { double q = w[i] / z; ok(std::fabs(h[i] - D * q) <= 8 * std::sqrt(D * q * (1 - q)), "individual " + str(i) + " is selected " + str(h[i]) + " times out of " + str(D) + ", expected about " + str(D * q)); } };
    check(a, w0, "UniformSelection: frequencies"); check(b, w1, "FitnessProportionateSelection: frequencies"); check(c, w2, "BoltzmannSelection: frequencies");
  }
  return done();
}
