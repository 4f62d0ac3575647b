// Solutions returned by the search algorithms, after a normal end or after an interruption
#include "common.hh"
#include <algorithm>
#include <memory>
#include <omp.h>
#include "hnco/algorithms/complete-search.hh"
#include "hnco/algorithms/random-search.hh"
#include "hnco/algorithms/local-search/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/all.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/algorithms/walsh-moment/all.hh"
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/decorators/all.hh"
#include "hnco/algorithms/evolutionary-algorithms/it-ea.hh"
#include "hnco/algorithms/probability-vector/ram-umda.hh"
#include "hnco/exception.hh"
#include "hnco/logging/log-context.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::algorithm;
using hnco::function::Function;
using hnco::exception::LastEvaluation;
namespace nb = hnco::neighborhood;

static unsigned idx(const bv& x) { unsigned u = 0; for (size_t i = 0; i < x.size(); i++) u |= unsigned(x[i]) << i; return u; }
// function given by its table; records the evaluated points and stops after a number of evaluations
struct Table : Function {
  int n; std::vector<double> t; long budget = -1; bool incr; std::vector<unsigned> log;
  Table(int n, bool incr) : n(n), t(1u << n), incr(incr) {
    int kind = rnd(0, 4), lo = kind == 1 ? -40 : rnd(-3, 3), hi = kind == 1 ? -1 : lo + rnd(0, kind == 2 ? 1 : 20);
    for (auto& v : t) v = rnd(lo, hi);
    if (kind == 3) for (auto& v : t) v += rndd(-0.5, 0.5);
    if (kind == 4) for (size_t u = 0; u < t.size(); u++) t[u] = __builtin_popcount(u) + 0.25 * rnd(0, 1);
  }
  int get_bv_size() const override { return n; }
  bool provides_incremental_evaluation() const override { return incr; }
  double call(const bv& x) { ok(int(x.size()) == n, "evaluated bit vector of the wrong size " + str(x)); ok(valid(x), "invalid bit vector evaluated " + str(x)); if (budget >= 0 && long(log.size()) >= budget) throw LastEvaluation(); log.push_back(idx(x)); return t[idx(x)]; }
  double evaluate(const bv& x) override { return call(x); }
  double evaluate_incrementally(const bv& x, double v, const sparse_bit_vector_t& f) override {
    ok(int(x.size()) == n && valid(x), "invalid bit vector evaluated incrementally"); if (v != t[idx(x)]) fail_now("incremental evaluation of " + str(x) + "from " + str(v) + "which is not its value " + str(t[idx(x)]));
    bv y = x; for (int i : f) { ok(i >= 0 && i < n, "flipped bit out of range"); y[i] ^= 1; } return call(y);
  }
  double evaluate_safely(const bv& x) override { return call(x); }
};
enum Kind { normal, global_max, local_max, crossover_phase };
struct Algo { std::string name; std::shared_ptr<Algorithm> a; int init, batch; Kind kind = normal; bool incr = false, parallel = false; std::function<bool(const Table&, const bv&)> local; std::vector<std::shared_ptr<void>> keep; long total = -1; int patience = 0, its = 0; bool strict = false; };

static void check(Algo& al, int n, bool interrupt, bool parallel, int run) {
  std::vector<std::unique_ptr<Table>> fs; fs.emplace_back(new Table(n, al.incr));
  if (parallel) for (int i = 0; i < 2; i++) { fs.emplace_back(new Table(*fs[0])); }
  Table& f = *fs[0];
  if (interrupt) f.budget = al.init + rnd(0, 3 * al.batch + 20);
  std::vector<Function*> p; for (auto& g : fs) p.push_back(g.get());
  at(al.name.substr(0, al.name.find(' ')).c_str(), al.name, "n", n, "run", run, "budget", f.budget, "functions", p.size(), "table", f.t);
  bool stopped = false;
  try { al.a->maximize(p); } catch (LastEvaluation&) { stopped = true; }
  al.a->finalize();
  ok(!stopped || interrupt, "stopped without budget");
  if (!stopped && !parallel && al.total >= 0) eq(long(f.log.size()), al.total, "number of evaluations");
  if (!stopped && al.patience > 0) { // evaluations until the last iteration or the given number of consecutive failures
    double cur = f.t[f.log[0]]; int fails = 0; long k = 0;
    while (k + 1 < long(f.log.size())) { ok(fails < al.patience, "goes on after " + str(fails) + "consecutive failures"); double w = f.t[f.log[++k]]; if (al.strict ? w > cur : w >= cur) { cur = w; fails = 0; } else fails++; }
    ok(fails == al.patience || (al.its > 0 && k == al.its), "stops after " + str(k) + "iterations and " + str(fails) + "consecutive failures");
  }
  auto s = al.a->get_solution();
  eq(int(s.first.size()), n, "size of the solution"); ok(valid(s.first), "the solution is not a valid bit vector");
  eq(s.second, f.t[idx(s.first)], "value of the solution");
  std::vector<unsigned> all; for (auto& g : fs) all.insert(all.end(), g->log.begin(), g->log.end());
  ok(std::find(all.begin(), all.end(), idx(s.first)) != all.end(), "the solution has never been evaluated");
  size_t covered = all.size();
  if (stopped) covered = std::max<long>(al.init, long(covered) - (al.batch - 1));
  for (size_t i = 0; i < covered; i++) {
    if (al.kind == crossover_phase && i >= 1 && (i - 1) % al.batch < size_t(al.batch) / 2) continue;
    if (f.t[all[i]] > s.second) fail_now("evaluated point " + str(from_int(n, all[i])) + "of value " + str(f.t[all[i]]) + "is better than the solution " + str(s.first, s.second));
  }
  if (al.kind == global_max && !stopped) eq(s.second, *std::max_element(f.t.begin(), f.t.end()), "global maximum");
  if (al.kind == local_max && !stopped) ok(al.local(f, s.first), "the solution " + str(s.first) + "is not a local maximum");
}
static bool locally_max(const Table& f, const bv& x, int lo, int hi) { for (unsigned u = 0; u < f.t.size(); u++) { int d = __builtin_popcount(u ^ idx(x)); if (d >= lo && d <= hi && f.t[u] > f.t[idx(x)]) return false; } return true; }

static std::vector<Algo> algos(int n) {
  std::vector<Algo> v; int it = rnd(1, 25);
  auto add = [&](std::string name, auto a, int init, int batch, Kind k = normal) -> Algo& { v.push_back({name, a, init, batch, k}); v.back().total = init + long(batch) * it; return v.back(); };
  add("CompleteSearch", std::make_shared<CompleteSearch>(n), 1, 1, global_max).total = -1;
  { auto a = std::make_shared<RandomSearch>(n); a->set_num_iterations(it); add("RandomSearch", a, 1, 1); }
  for (int inc = 0; inc < 2; inc++) {
    for (int k = 0; k < 3; k++) {
      std::shared_ptr<nb::Neighborhood> h; std::string s;
      if (k == 0) { h = std::make_shared<nb::SingleBitFlip>(n); s = "single bit flip"; }
      if (k == 1) { auto m = std::make_shared<nb::StandardBitMutation>(n); m->set_allow_no_mutation(rnd(0, 1)); h = m; s = "standard bit mutation"; }
      if (k == 2) { h = std::make_shared<nb::HammingBall>(n, std::min(2, n)); s = "Hamming ball"; }
      std::string m = inc ? ", incremental" : "";
      bool start = rnd(0, 1); bv x0 = rbv(n); bool strict = rnd(0, 1); int pat = rnd(0, 2) * rnd(1, 5);
      { auto a = std::make_shared<RandomLocalSearch>(n, h.get()); int its = pat && strict && rnd(0, 1) ? 0 : it; a->set_num_iterations(its); a->set_incremental_evaluation(inc); if (strict) a->set_compare(std::greater<double>()); a->set_patience(pat); if (start) { a->set_random_initialization(false); a->set_starting_point(x0); } auto& r = add("RandomLocalSearch (" + s + m + ")", a, 1, 1); r.keep.push_back(h); r.incr = inc; if (pat) { r.total = -1; r.patience = pat; r.its = its; r.strict = strict; } }
      { auto a = std::make_shared<RandomWalk>(n, h.get()); a->set_num_iterations(it); a->set_incremental_evaluation(inc); if (start) { a->set_random_initialization(false); a->set_starting_point(x0); } auto& r = add("RandomWalk (" + s + m + ")", a, 1, 1); r.keep.push_back(h); r.incr = inc; }
      if (!inc) { auto a = std::make_shared<SimulatedAnnealing>(n, h.get()); a->set_num_iterations(it); int trials = rnd(1, 6); a->set_num_trials(trials); a->set_num_transitions(rnd(1, 5)); if (start) { a->set_random_initialization(false); a->set_starting_point(x0); } auto& r = add("SimulatedAnnealing (" + s + ")", a, 1, 1); r.keep.push_back(h); r.total = 1 + 2 * trials + it; }
    }
    { auto a = std::make_shared<OnePlusOneEa>(n); a->set_num_iterations(it); a->set_incremental_evaluation(inc); a->set_allow_no_mutation(rnd(0, 1)); add(inc ? "OnePlusOneEa (incremental)" : "OnePlusOneEa", a, 1, 1).incr = inc; }
    { auto a = std::make_shared<SelfAdjustingOnePlusOneEa>(n); a->set_num_iterations(it); a->set_incremental_evaluation(inc); a->set_allow_no_mutation(rnd(0, 1)); add(inc ? "SelfAdjustingOnePlusOneEa (incremental)" : "SelfAdjustingOnePlusOneEa", a, 1, 1).incr = inc; }
  }
  for (int r = 1; r <= std::min(n, 3); r++) for (int st = 0; st < 2; st++) {
    bool one = r == 1 && rnd(0, 1); std::shared_ptr<nb::NeighborhoodIterator> h; if (one) h = std::make_shared<nb::SingleBitFlipIterator>(n); else h = std::make_shared<nb::HammingSphereIterator>(n, r);
    int size = 1; for (int i = 0; i < r; i++) size = size * (n - i) / (i + 1);
    auto local = [r](const Table& f, const bv& x) { return locally_max(f, x, r, r); };
    std::string s = str("radius", r);
    bool start = rnd(0, 1); bv x0 = rbv(n);
    auto set = [&](auto a) { a->set_num_iterations(0); if (start) { a->set_random_initialization(false); a->set_starting_point(x0); } };
    if (st) { auto a = std::make_shared<SteepestAscentHillClimbing>(n, h.get()); set(a); auto& q = add("SteepestAscentHillClimbing " + s, a, 1, size, local_max); q.keep.push_back(h); q.local = local; q.total = -1; }
    else { auto a = std::make_shared<FirstAscentHillClimbing>(n, h.get()); set(a); auto& q = add("FirstAscentHillClimbing " + s, a, 1, 1, local_max); q.keep.push_back(h); q.local = local; q.total = -1; }
  }
  { int mu = rnd(1, 5), la = rnd(1, 5); auto a = std::make_shared<MuPlusLambdaEa>(n, mu, la); a->set_num_iterations(it); a->set_allow_no_mutation(rnd(0, 1)); add("MuPlusLambdaEa " + str(mu, la), a, mu, la).parallel = true; }
  { int mu = rnd(1, 4), la = mu + rnd(0, 4); auto a = std::make_shared<MuCommaLambdaEa>(n, mu, la); a->set_num_iterations(it); a->set_allow_no_mutation(rnd(0, 1)); add("MuCommaLambdaEa " + str(mu, la), a, 1, la).parallel = true; }
  if (n >= 8) { int la = 2 * rnd(1, 4); auto a = std::make_shared<TwoRateOnePlusLambdaEa>(n, la); a->set_num_iterations(it); a->set_allow_no_mutation(rnd(0, 1)); add("TwoRateOnePlusLambdaEa " + str(la), a, 1, la).parallel = true; }
  for (int r = 0; r < 5; r++) { int la = rnd(2, 6); auto a = std::make_shared<InformationTheoreticEa>(n, la); a->set_num_iterations(it); a->set_selection_size(rnd(1, la - 1)); a->set_replacement(r); a->set_learning_rate(rndd(0, 1)); a->set_initial_hamming_weight(rnd(0, n)); a->set_allow_no_mutation(rnd(0, 1)); add("InformationTheoreticEa " + str(la, "replacement", r), a, 1, la); v.back().parallel = true; if (r == 2 || r == 3) v.back().total = -1; }
  { int mu = rnd(3, 8); auto a = std::make_shared<GeneticAlgorithm>(n, mu); a->set_num_iterations(it); a->set_tournament_size(rnd(2, mu - 1)); a->set_crossover_probability(rndd(0, 1)); a->set_allow_no_mutation(rnd(0, 1)); add("GeneticAlgorithm " + str(mu), a, mu, mu).parallel = true; }
  { int la = rnd(2, std::min(n, 5)); auto a = std::make_shared<OnePlusLambdaCommaLambdaGa>(n, la); a->set_num_iterations(it); a->set_mutation_rate(std::min(1.0, la / double(n))); a->set_crossover_bias(1 / double(la)); add("OnePlusLambdaCommaLambdaGa " + str(la), a, 1, 2 * la, crossover_phase); }
  { int la = rnd(2, 6); auto a = std::make_shared<Pbil>(n, la); a->set_num_iterations(it); a->set_selection_size(rnd(1, la)); a->set_learning_rate(rndd(0, 1)); add("Pbil " + str(la), a, 1, la).parallel = true; }
  { int la = rnd(2, 6); auto a = std::make_shared<NpsPbil>(n, la); a->set_num_iterations(it); a->set_selection_size(rnd(1, la - 1)); a->set_learning_rate(rndd(0, 1)); add("NpsPbil " + str(la), a, 1, la).parallel = true; }
  { int la = rnd(2, 6); auto a = std::make_shared<Umda>(n, la); a->set_num_iterations(it); a->set_selection_size(rnd(1, la - 1)); add("Umda " + str(la), a, 1, la).parallel = true; }
  for (int k = 0; k < 2; k++) { int la = rnd(2, 6); auto set = [&](auto a) { a->set_num_iterations(it); a->set_selection_size(rnd(1, la)); a->set_ts_length(rnd(0, 6)); a->set_ts_length_mode(rnd(0, 5)); a->set_ts_length_increment_period(rnd(1, 4)); };
    if (k) { auto a = std::make_shared<RamUmda2>(n, la); set(a); a->set_crossover_probability(rndd(0, 1)); a->set_latent_space_probability(rndd(0, 1)); add("RamUmda2 " + str(la), a, 1, la).parallel = true; }
    else { auto a = std::make_shared<RamUmda>(n, la); set(a); add("RamUmda " + str(la), a, 1, la).parallel = true; } }
  { auto a = std::make_shared<CompactGa>(n); a->set_num_iterations(it); a->set_learning_rate(rndd(0, 0.5)); add("CompactGa", a, 1, 2).total = -1; }
  { auto a = std::make_shared<Mmas>(n); a->set_num_iterations(it); a->set_learning_rate(rndd(0, 1)); if (rnd(0, 1)) a->set_compare(std::greater<double>()); add("Mmas", a, 1, 1); }
  { int la = rnd(2, 6); auto a = std::make_shared<Mimic>(n, la); a->set_num_iterations(it); a->set_selection_size(rnd(1, la - 1)); add("Mimic " + str(la), a, 1, la).parallel = true; }
  using namespace hnco::algorithm::walsh_moment;
  auto hea = [&](auto a, const char* s, int la) { a->set_num_iterations(it); a->set_selection_size(rnd(1, la)); a->set_learning_rate(rndd(0, 1)); a->set_reset_period(rnd(0, 3)); add(s + str(la), a, 1, la).parallel = true; };
  { int la = rnd(2, 5); hea(std::make_shared<Hea<TriangularMomentHerding>>(n, la), "Hea triangular ", la); hea(std::make_shared<Hea<FullMomentHerding>>(n, la), "Hea full ", la); }
  auto bm = [&](auto a, const char* s, int la) { a->set_num_iterations(it); a->set_selection_size(rnd(1, la)); a->set_learning_rate(rndd(0, 0.1)); a->set_num_gs_steps(rnd(1, 10)); a->set_sampling_mode(rnd(0, 2)); a->set_reset_mode(rnd(0, 2)); a->set_negative_positive_selection(rnd(0, 1)); add(s + str(la), a, 1, la).parallel = true; };
  { int la = rnd(2, 5); bm(std::make_shared<BmPbil<TriangularMomentGibbsSampler>>(n, la), "BmPbil triangular ", la); bm(std::make_shared<BmPbil<FullMomentGibbsSampler>>(n, la), "BmPbil full ", la); }
  // restarts of algorithms which keep a consistent solution at any time
  size_t m = v.size();
  for (size_t i = 0; i < m; i++) {
    if (rnd(0, 2) || v[i].kind == crossover_phase) continue;
    auto r = std::make_shared<Restart>(v[i].a.get()); int k = rnd(1, 4); r->set_num_iterations(k);
    Algo al = v[i]; al.name = "Restart " + str(k) + al.name; al.kind = v[i].kind == global_max ? global_max : normal; al.keep.push_back(v[i].a); al.a = r; al.batch = std::max(al.batch, al.init); if (al.total >= 0) al.total *= k; al.patience = 0; v.push_back(al);
  }
  return v;
}

int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 400 : 40;
  for (int r = 0; r < R; r++) for (int n : {2, 3, 4, 5, 6, 8}) {
    if (n == 8 && r % 2) continue;
    for (auto& al : algos(n)) for (int run = 0; run < 3; run++) check(al, n, rnd(0, 2) != 0, false, run);
  }
  omp_set_num_threads(3);
  for (int r = 0; r < R / 8 + 2; r++) for (int n : {3, 5, 8})
    for (auto& al : algos(n)) if (al.parallel) check(al, n, false, true, 0);
  return done();
}
