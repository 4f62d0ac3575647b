// Incremental evaluation against full evaluation
#include "funcs.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/exception.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
static void one(const std::string& name, const std::string& par, Function& f, const bv& x, const sparse_bit_vector_t& s)
{
  at(name.c_str(), par.substr(0, 1200), "x", x, "flipped", s);
  bv y = x; for (int i : s) y[i] ^= 1;
  double vx = f.evaluate(x), vy = f.evaluate(y);
  bv z = x; sparse_bit_vector_t t = s;
  double got = f.evaluate_incrementally(z, vx, t);
  if (!close(got, vy)) fail_now("incremental value " + str(got) + " full value of the flipped vector " + str(vy));
  eq(z, x, "bit vector argument unchanged"); if (t != s) fail_now("list of flipped bits changed");
  got = f.evaluate_incrementally(x, vx, s); if (!close(got, vy)) fail_now("second call: incremental value " + str(got) + " full value " + str(vy));
  double back = f.evaluate(x); if (!close(back, vx)) fail_now("a full evaluation after an incremental one: got " + str(back) + " expected " + str(vx));
}
template <class F> static void flips(int n, F f) { for (unsigned u = 0; u < (1u << n); u++) { sparse_bit_vector_t s; for (int i = 0; i < n; i++) if (u >> i & 1) s.push_back(i); f(s); } }
static void run(const std::string& name, const std::string& par, Function& f, int n, int exh, int samples)
{
  if (!f.provides_incremental_evaluation()) return;
  if (n <= exh) all_bv(n, [&](const bv& x) { flips(n, [&](const sparse_bit_vector_t& s) { one(name, par, f, x, s); }); });
  else for (int k = 0; k < samples; k++) {
    bv x = rbv(n); sparse_bit_vector_t s; int p = rnd(0, 4); for (int i = 0; i < n; i++) if (rnd(0, 9) < 2 * p + (p == 0 && rnd(0, n) == 0)) s.push_back(i);
    if (k % 7 == 0) s = {0}; if (k % 7 == 1) s = {n - 1}; if (k % 7 == 2 && n > 1) s = {0, n - 1}; if (k % 7 == 3 && n > 2) { int i = rnd(0, n - 2); s = {i, i + 1}; }
    one(name, par, f, x, s); }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int T = thorough ? 6 : 1; std::set<std::string> seen;
  for (int rep = 0; rep < T; rep++) {
    for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 20, 25, 36, 64, 65, 100}) for (auto& i : instances(n)) {
      if (!i.f->provides_incremental_evaluation()) {
        if (seen.insert(i.name).second) { at((i.name + " (modified)").c_str(), n); OppositeFunction o(i.f.get()); CallCounter c(i.f.get()); OnBudgetFunction b(i.f.get(), 10); StopOnTarget t(i.f.get(), 0); ProgressTracker p(i.f.get()); Cache k(i.f.get());
          for (Function* q : std::vector<Function*>{&o, &c, &b, &t, &p, &k}) if (q->provides_incremental_evaluation()) { q->evaluate_incrementally(rbv(n), 0, {0}); fail_now("advertises incremental evaluation over a function without it"); } }
        continue; }
      Function* f = i.f.get(); int big = 60;
      run(i.name, i.par, *f, n, 5, big * 3);
      OppositeFunction o(f); run(i.name + " OppositeFunction", i.par, o, n, 3, big);
      OppositeFunction oo(&o); run(i.name + " OppositeFunction twice", i.par, oo, n, 2, 10);
      CallCounter c(f); run(i.name + " CallCounter", i.par, c, n, 3, 20);
      OnBudgetFunction b(f, 1 << 30); run(i.name + " OnBudgetFunction", i.par, b, n, 3, 20);
      StopOnTarget t(f, 1e300); run(i.name + " StopOnTarget", i.par, t, n, 3, 20);
      ProgressTracker p(f); run(i.name + " ProgressTracker", i.par, p, n, 3, 20);
      ProgressTracker r(f); r.set_record_bit_vector(true); r.set_record_evaluation_time(true); run(i.name + " ProgressTracker recording", i.par, r, n, 3, 20);
      CallCounter d(&o); run(i.name + " CallCounter of OppositeFunction", i.par, d, n, 2, 10);
      Cache k(f); run(i.name + " Cache", i.par, k, n, 3, 20);
      // a walk that only evaluates incrementally
      bv x = rbv(n); double v = f->evaluate(x); sparse_bit_vector_t s;
      for (int j = 0; j < 200; j++) { s.clear(); for (int q = 0; q < n; q++) if (rnd(0, n) < 2) s.push_back(q); at((i.name + " walk").c_str(), i.par.substr(0, 800), x, s); v = f->evaluate_incrementally(x, v, s); for (int q : s) x[q] ^= 1; double w = f->evaluate(x); if (!close(v, w)) fail_now("after " + str(j) + "steps: incremental " + str(v) + "full " + str(w)); } }
  }
  // the same object regenerated with another size
  for (int k = 0; k < 40 * T; k++) { NearestNeighborIsingModel1 f; NearestNeighborIsingModel2 h; LinearFunction l; WalshExpansion1 w; for (int j = 0; j < 3; j++) { auto g = gen(); int n = rnd(1, 9), r = rnd(1, 4), c = rnd(1, 4); f.generate(n, g, g); f.set_periodic_boundary_conditions(rnd(0, 1)); h.generate(r, c, g, g); h.set_periodic_boundary_conditions(rnd(0, 1)); l.generate(n, g); w.generate(n, g);
    run("NearestNeighborIsingModel1 regenerated", str(n, j), f, n, 0, 8); run("NearestNeighborIsingModel2 regenerated", str(r, c, j), h, r * c, 0, 8); run("LinearFunction regenerated", str(n), l, n, 0, 4); run("WalshExpansion1 regenerated", str(n), w, n, 0, 4); } }
  // non-integer weights
  for (int k = 0; k < 60 * T; k++) { int n = rnd(1, 20), r = rnd(1, 5), c = rnd(1, 5); auto g = [] { return rndd(-1, 1); }; LinearFunction l; l.generate(n, g); WalshExpansion1 w; w.generate(n, g); NearestNeighborIsingModel1 f; f.generate(n, g, g); NearestNeighborIsingModel2 h; h.generate(r, c, g, g); f.set_periodic_boundary_conditions(k & 1); h.set_periodic_boundary_conditions(k & 1);
    run("LinearFunction real", str(n), l, n, 0, 10); run("WalshExpansion1 real", str(n), w, n, 0, 10); run("NearestNeighborIsingModel1 real", str(n, k & 1), f, n, 0, 10); run("NearestNeighborIsingModel2 real", str(r, c, k & 1), h, r * c, 0, 10); }
  return done();
}
