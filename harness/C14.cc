// Crossover and mutation
#include "common.hh"
#include <cmath>
#include "hnco/algorithms/evolutionary-algorithms/crossover.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include <algorithm>
using namespace vh;
using namespace hnco;
using namespace hnco::algorithm;
using namespace hnco::neighborhood;
static void cross(const char* name, Crossover& c, int n, double bias) {
  bv x = rbv(n), y = rbv(n), z = rbv(n), x0 = x, y0 = y; if (rnd(0, 4) == 0) y0 = y = x; if (rnd(0, 4) == 0) for (int i = 0; i < n; i++) y0[i] = y[i] = 1 - x[i];
  at(name, x, y, "offspring was", z, "bias", bias); c.recombine(x, y, z);
  eq(x, x0, "first parent unchanged"); eq(y, y0, "second parent unchanged"); eq(int(z.size()), n, "size of the offspring");
  for (int i = 0; i < n; i++) if (z[i] != x[i] && z[i] != y[i]) fail_now("bit " + str(i) + "comes from no parent: offspring " + str(z));
}
// number of times each bit, and each pair of consecutive bits, comes from the second parent
static void freq(const char* name, Crossover& c, double p) {
  const int n = 12, D = 12000; std::vector<int> h(n), g(n); bv x(n, 0), y(n, 1); bool swap = rnd(0, 1); if (swap) std::swap(x, y);
  for (int k = 0; k < D; k++) { bv z(n); c.recombine(x, y, z); for (int i = 0; i < n; i++) { int a = z[i] == y[i], b = z[(i + 1) % n] == y[0]; h[i] += a; g[i] += a && b; } }
  at(name, "probability of the second parent", p); auto near = [&](double k, double q) { return std::fabs(k - D * q) <= 8 * std::sqrt(D * q * (1 - q)) + 1e-9; };
  for (int i = 0; i < n; i++) { ok(near(h[i], p), "bit " + str(i) + "comes from the second parent " + str(h[i]) + " times out of " + str(D)); ok(near(g[i], p * p), "bits " + str(i) + "and next come both from the second parent " + str(g[i]) + " times out of " + str(D)); }
}
// ---- the operators as configured in the algorithms, seen from the evaluated points (60 bits: random points are far apart)
static const int W = 60;
static double hash_value(const bv& x) { unsigned long h = 1469598103934665603ul; for (auto b : x) h = (h ^ (b + 1)) * 1099511628211ul; return double((h ^ (h >> 31)) % 1000003); }
struct Rec: function::Function { std::vector<bv> seen; std::vector<double> val; int get_bv_size() const override { return W; } double evaluate(const bv& x) override { ok(int(x.size()) == W && valid(x), "invalid point evaluated"); seen.push_back(x); val.push_back(hash_value(x)); return val.back(); } };
struct Rec2: multiobjective::function::Function { std::vector<bv> seen; int get_bv_size() const override { return W; } int get_output_size() const override { return 2; } void evaluate(const bv& x, std::vector<double>& v) override { ok(int(x.size()) == W && valid(x), "invalid point evaluated"); seen.push_back(x); v = {hash_value(x), -hash_value(x)}; } };
struct Tally { long n = 0, same = 0, complement = 0, mixed = 0; };
// offspring first..last against the parents 0..mu-1
static Tally tally(const std::vector<bv>& s, int mu, int first, int last) {
  Tally t; for (int i = first; i < last; i++) { int lo = W, hi = 0; for (int j = 0; j < mu; j++) { int d = hd(s[i], s[j]); lo = std::min(lo, d); hi = std::max(hi, d); } t.n++; t.same += lo == 0; t.complement += hi == W; t.mixed += lo > 8; } return t; }
static void acc(Tally& a, const Tally& b) { a.n += b.n; a.same += b.same; a.complement += b.complement; a.mixed += b.mixed; }
// generation(pc, rate, allow, seen, mu): evaluates the parents then one generation
static void configured(const std::string& name, bool crossover, const std::function<void(double, double, bool, std::vector<bv>&, int&)>& generation) {
  auto go = [&](const char* what, double pc, double rate, bool allow, int runs) { Tally t; for (int r = 0; r < runs; r++) { std::vector<bv> s; int mu = 0; at((name + what).c_str(), "crossover probability", pc, "mutation rate", rate, "allow no mutation", allow, r); generation(pc, rate, allow, s, mu); ok(int(s.size()) > mu, "no offspring evaluated"); acc(t, tally(s, mu, mu, s.size())); } return t; };
  Tally t = go(": neither crossover nor mutation", 0, 1e-14, true, 6); eq(t.same, t.n, "offspring equal to a parent");
  t = go(": mutation always changes", 0, 0.01, false, 12); eq(t.same, 0L, "offspring equal to a parent"); eq(t.mixed, 0L, "offspring far from every parent");
  t = go(": no mutation allowed", 0, 0.01, true, 30); double q = std::pow(0.99, W); ok(std::fabs(t.same - t.n * q) <= 7 * std::sqrt(t.n * q * (1 - q)), "offspring equal to a parent: " + str(t.same) + "out of " + str(t.n));
  t = go(": mutation rate 1", 0, 1, rnd(0, 1), 6); eq(t.complement, t.n, "offspring that complement a parent");
  if (crossover) { t = go(": crossover always", 1, 1e-14, true, 20); ok(t.mixed >= 0.75 * t.n, "offspring that mix parents: " + str(t.mixed) + "out of " + str(t.n));
    t = go(": crossover sometimes", 0.3, 1e-14, true, 40); ok(t.mixed <= 0.45 * t.n && t.mixed >= 0.15 * t.n, "offspring that mix parents: " + str(t.mixed) + "out of " + str(t.n)); }
}
static void algorithms() {
  for (int rep = 0; rep < (thorough ? 8 : 1); rep++) {
    configured("GeneticAlgorithm", true, [](double pc, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 12; GeneticAlgorithm a(W, mu); a.set_crossover_probability(pc); a.set_mutation_rate(rate); a.set_allow_no_mutation(allow); a.set_tournament_size(2); a.set_num_iterations(1); Rec f; if (rnd(0, 2) == 0) { Rec g; a.maximize({&g}); } a.maximize({&f}); s = f.seen; eq(int(s.size()), 2 * mu, "evaluations"); });
    configured("Nsga2", true, [](double pc, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 12; multiobjective::algorithm::Nsga2 a(W, 2, mu); a.set_crossover_probability(pc); a.set_mutation_rate(rate); a.set_allow_no_mutation(allow); a.set_tournament_size(2); a.set_num_iterations(1); Rec2 f; std::vector<multiobjective::function::Function*> fs{&f}; if (rnd(0, 2) == 0) { Rec2 g; std::vector<multiobjective::function::Function*> gs{&g}; a.minimize(gs); } a.minimize(fs); s = f.seen; eq(int(s.size()), 2 * mu, "evaluations"); });
    configured("MuPlusLambdaEa", false, [](double, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = rnd(1, 6); int la = rnd(1, 12); MuPlusLambdaEa a(W, mu, la); a.set_mutation_rate(rate); a.set_allow_no_mutation(allow); a.set_num_iterations(1); Rec f; if (rnd(0, 2) == 0) { Rec g; a.maximize({&g}); } a.maximize({&f}); s = f.seen; eq(int(s.size()), mu + la, "evaluations"); });
    configured("MuCommaLambdaEa", false, [](double, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 1; s = {bv(W, 0)}; MuCommaLambdaEa a(W, 1, 1); for (int k = 0; k < 10; k++) { a.set_mutation_rate(rate); a.set_allow_no_mutation(allow); a.set_num_iterations(2); Rec f; a.maximize({&f}); eq(int(f.seen.size()), 3, "evaluations"); bv d(W); for (int i = 0; i < W; i++) d[i] = f.seen[1][i] ^ f.seen[2][i]; s.push_back(d); } });
    configured("OnePlusOneEa", false, [](double, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 1; OnePlusOneEa a(W); for (int k = 0; k < 10; k++) { a.set_mutation_rate(rate); a.set_allow_no_mutation(allow); a.set_num_iterations(1); Rec f; a.maximize({&f}); eq(int(f.seen.size()), 2, "evaluations"); if (k == 0) s = {bv(W, 0)}; bv d(W); for (int i = 0; i < W; i++) d[i] = f.seen[0][i] ^ f.seen[1][i]; s.push_back(d); } });
    configured("TwoRateOnePlusLambdaEa", false, [](double, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 1; s = {bv(W, 0)}; for (int k = 0; k < 10; k++) { TwoRateOnePlusLambdaEa a(W, 2); bool hi = rate < 1 ? rnd(0, 1) : true; a.set_mutation_rate_init(hi ? rate / 2 : rate * 2); a.set_allow_no_mutation(allow); a.set_num_iterations(1); Rec f; a.maximize({&f}); eq(int(f.seen.size()), 3, "evaluations"); bv d(W); for (int i = 0; i < W; i++) d[i] = f.seen[0][i] ^ f.seen[hi ? 2 : 1][i]; s.push_back(d); } });
    configured("SelfAdjustingOnePlusOneEa", false, [](double, double rate, bool allow, std::vector<bv>& s, int& mu) { mu = 1; s = {bv(W, 0)}; SelfAdjustingOnePlusOneEa a(W); for (int k = 0; k < 10; k++) { a.set_mutation_rate_init(rate); a.set_allow_no_mutation(allow); a.set_num_iterations(1); Rec f; a.maximize({&f}); eq(int(f.seen.size()), 2, "evaluations"); bv d(W); for (int i = 0; i < W; i++) d[i] = f.seen[0][i] ^ f.seen[1][i]; s.push_back(d); } });
    // winners of tournaments
    for (int r = 0; r < 40; r++) { int mu = rnd(4, 14), ts = rnd(2, mu - 1); GeneticAlgorithm a(W, mu); a.set_crossover_probability(0); a.set_mutation_rate(1e-14); a.set_allow_no_mutation(true); a.set_tournament_size(ts); a.set_num_iterations(1); Rec f; at("GeneticAlgorithm: tournament size", mu, ts); a.maximize({&f}); for (int i = mu; i < 2 * mu; i++) { int better = 0; for (int j = 0; j < mu; j++) better += f.val[j] > f.val[i]; ok(better <= mu - ts, "winner of a tournament of " + str(ts) + "has " + str(better) + "better individuals"); } }
    // (1+(lambda,lambda)) GA: mutants at one common distance, then crossover with the configured bias
    for (int r = 0; r < 60; r++) { int la = rnd(2, 8); double rate = r % 3 ? rndd(0.02, 1) : 1, bias = r % 4 == 0 ? 1 - 1e-14 : r % 4 == 1 ? 1e-14 : rndd(0.1, 0.9); OnePlusLambdaCommaLambdaGa a(W, la); a.set_mutation_rate(rate); a.set_crossover_bias(bias); a.set_num_iterations(1); Rec f; at("OnePlusLambdaCommaLambdaGa", la, rate, bias); a.maximize({&f}); eq(int(f.seen.size()), 1 + 2 * la, "evaluations"); auto& s = f.seen;
      int d = hd(s[0], s[1]), best = 1; for (int i = 1; i <= la; i++) { eq(hd(s[0], s[i]), d, "distance of a mutant"); if (f.val[i] > f.val[best]) best = i; } if (rate == 1) eq(d, W, "distance of the mutants");
      for (int i = la + 1; i <= 2 * la; i++) { for (int j = 0; j < W; j++) ok(s[i][j] == s[0][j] || s[i][j] == s[best][j], "bit of no parent"); if (bias > 0.999) eq(s[i], s[best], "offspring with bias 1"); if (bias < 1e-9) eq(s[i], s[0], "offspring with bias 0"); } }
  }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 20000 : 3000;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 3) == 1 ? rnd(30, 70) : rnd(0, 9);
    UniformCrossover u; BiasedCrossover b, d; double bias = rndd(0.01, 0.99); b.set_bias(bias);
    cross("UniformCrossover::recombine", u, n, 0.5); cross("BiasedCrossover::recombine", b, n, bias); cross("BiasedCrossover::recombine", d, n, -1);
  }
  { UniformCrossover u; freq("UniformCrossover: frequencies", u, 0.5); BiasedCrossover b; freq("BiasedCrossover: default frequencies", b, 0.5);
    for (double p : {0.1, 0.35, 0.8}) { b.set_bias(p); freq("BiasedCrossover: frequencies", b, p); } }
  algorithms();
  // mutation
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 20); double p = rnd(0, 3) ? rndd(0.01, 1) : rnd(0, 1) ? 1 : 1.0 / n; bool allow = rnd(0, 1), rate = rnd(0, 1);
    StandardBitMutation m = rnd(0, 4) == 0 ? (p = 1.0 / n, StandardBitMutation(n)) : StandardBitMutation(n, p); if (rate) m.set_mutation_rate(p); m.set_allow_no_mutation(allow);
    for (int k = 0; k < 4; k++) { bv x = rbv(n), y = x; at("StandardBitMutation::mutate", x, "rate", p, "allow no mutation", allow, "set", rate); m.mutate(y); eq(int(y.size()), n, "size"); ok(valid(y), "invalid bit vector"); int d = hd(x, y);
      auto s = m.get_flipped_bits(); std::set<int> t(s.begin(), s.end()); ok(t.size() == s.size(), "a position is listed twice"); for (int i = 0; i < n; i++) eq(x[i] != y[i], t.count(i) == 1, "flipped exactly at the sampled positions");
      if (!allow) ok(d >= 1, "no bit flipped"); if (p == 1) eq(d, n, "all bits flipped"); }
  }
  for (int r = 0; r < 24; r++) {
    int n = r % 3 == 0 ? 3 : r % 3 == 1 ? 16 : 40; double p = r < 8 ? 1.0 / n : r < 16 ? 0.5 / std::sqrt(n) : rndd(0.3, 0.9); bool allow = (r / 3) % 2, rate = (r / 6) % 2; const int D = 6000;
    StandardBitMutation m(n, p); if (rate) m.set_mutation_rate(p); m.set_allow_no_mutation(allow); std::vector<int> h(n); long zero = 0, single = 0;
    for (int k = 0; k < D; k++) { bv x(n); m.mutate(x); int w = wt(x); zero += w == 0; single += w == 1; for (int i = 0; i < n; i++) h[i] += x[i]; }
    double nz = allow ? 1 : 1 - std::pow(1 - p, n); auto near = [&](double k, double q) { return std::fabs(k - D * q) <= 8 * std::sqrt(D * q * (1 - q)) + 8; };
    at("StandardBitMutation: frequencies", "n", n, "rate", p, "allow no mutation", allow, "set", rate);
    for (int i = 0; i < n; i++) ok(near(h[i], p / nz), "bit " + str(i) + "is flipped " + str(h[i]) + "times out of " + str(D) + ", expected about " + str(D * p / nz));
    ok(near(single, n * p * std::pow(1 - p, n - 1) / nz), "exactly one bit is flipped " + str(single) + "times out of " + str(D)); if (allow) ok(near(zero, std::pow(1 - p, n)), "no bit is flipped " + str(zero) + "times out of " + str(D));
  }
  return done();
}
