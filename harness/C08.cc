// Declared maximum: never exceeded, attained
// needs: fparser
#include "funcs.hh"
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/functions/modifiers/prior-noise.hh"
#include "hnco/functions/modifiers/parsed-modifier.hh"
#include "hnco/maps/map.hh"
#include "hnco/neighborhoods/neighborhood.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
#include "hnco/exception.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace hnco::function::modifier;
// every point
static void all(const std::string& name, const std::string& par, Function& f)
{
  at((name + " (declaration)").c_str(), par.substr(0, 1500));
  if (!f.has_known_maximum()) { return; }
  double m = f.get_maximum(); int n = f.get_bv_size(); bool hit = n > 20;
  all_bv(n, [&](const bv& x) { at(name.c_str(), par.substr(0, 1500), x); double v = f.evaluate(x); if (!(v <= m)) fail_now("value " + str(v) + "above the declared maximum " + str(m)); hit = hit || v == m; });
  at((name + " (attained)").c_str(), par.substr(0, 1500)); if (!hit) fail_now("no bit vector has the declared maximum " + str(m));
  eq(f.get_maximum(), m, "declared maximum asked again");
}
// points around the optimum of the functions of the collection
static void some(const std::string& name, const std::string& par, Function& f)
{
  at((name + " (declaration)").c_str(), par.substr(0, 1500));
  if (!f.has_known_maximum()) return;
  double m = f.get_maximum(), best = -1e300; int n = f.get_bv_size(); bv arg;
  auto point = [&](const bv& x) { at(name.c_str(), par.substr(0, 1500), x); double v = f.evaluate(x); if (!(v <= m)) fail_now("value " + str(v) + "above the declared maximum " + str(m)); if (v > best) { best = v; arg = x; } };
  for (int k = 0; k <= n; k++) { bv x(n, 0), y(n, 1); for (int i = 0; i < k; i++) { x[i] = 1; y[i] = 0; } point(x); point(y); }
  for (int k = 0; k < 30; k++) point(rbv(n));
  for (int i = 0; i < n; i++) { bv x = arg; x[i] ^= 1; point(x); }
  if (best != m) { bv x = arg; double v = best; for (int i = 0; i < n; i++) { x[i] ^= 1; double w = f.evaluate(x); if (w > v) v = w; else x[i] ^= 1; } point(x); }
  if (best != m) fail_now("declared maximum " + str(m) + "but the best value found is " + str(best));
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int T = thorough ? 6 : 1;
  for (int rep = 0; rep < T; rep++) {
    for (int n = 1; n <= 9 + (thorough && rep == 0) * 5; n++) for (auto& i : instances(n)) {
      all(i.name, i.par, *i.f);
      if (n > 6) continue;
      Function* f = i.f.get(); if (!f->has_known_maximum() && rnd(0, 3)) continue;
      OppositeFunction o(f); all(i.name + " OppositeFunction", i.par, o);
      CallCounter c(f); all(i.name + " CallCounter", i.par, c); Cache k(f); all(i.name + " Cache", i.par, k); ProgressTracker p(f); all(i.name + " ProgressTracker", i.par, p);
      OnBudgetFunction b(f, 1 << 30); all(i.name + " OnBudgetFunction", i.par, b); StopOnTarget st(f, 1e300); all(i.name + " StopOnTarget", i.par, st);
      CallCounter oc(&o); all(i.name + " CallCounter of OppositeFunction", i.par, oc);
      for (const char* e : {"0 - x", "x * x", "2 * x + 1", "x"}) { ParsedModifier pm(f, e); all(i.name + " ParsedModifier " + e, i.par, pm); }
      { AdditiveGaussianNoise an(f, 0.5); all(i.name + " AdditiveGaussianNoise", i.par, an); }
      for (int q = 0; q < 6; q++) { // maps, onto or not
        int m = std::max(1, n + rnd(-1, 3)); std::shared_ptr<map::Map> mp; std::string w; std::shared_ptr<map::Map> keep, keep2;
        switch (q) {
          case 0: { auto a = std::make_shared<map::LinearMap>(); a->random(n, m, rnd(0, 1) && m >= n); mp = a; w = "LinearMap"; break; }
          case 1: { auto a = std::make_shared<map::AffineMap>(); a->random(n, m, rnd(0, 1) && m >= n); mp = a; w = "AffineMap"; break; }
          case 2: { auto a = std::make_shared<map::Translation>(); a->random(n); mp = a; w = "Translation"; break; }
          case 3: { auto a = std::make_shared<map::Permutation>(); a->random(n); mp = a; w = "Permutation"; break; }
          case 4: { m = std::min(n, m); std::vector<int> idx; for (int j = 0; j < n; j++) if (int(idx.size()) < m && rnd(0, 1)) idx.push_back(j); if (idx.empty()) idx.push_back(0); mp = std::make_shared<map::Injection>(idx, n); w = "Injection"; break; }
          default: { auto a = std::make_shared<map::LinearMap>(); int k2 = rnd(1, n + 2); a->random(k2, m, false); auto b2 = std::make_shared<map::LinearMap>(); b2->random(n, k2, false); keep = a; keep2 = b2; mp = std::make_shared<map::MapComposition>(b2.get(), a.get()); w = "MapComposition"; }
        }
        if (mp->get_output_size() != n) continue;
        FunctionMapComposition fc(f, mp.get()); all(i.name + " FunctionMapComposition " + w, i.par, fc); } }
    for (int n : {10, 12, 14, 16, 17, 18, 20, 24, 27, 32, 36, 60, 63, 64, 65, 90, 100, 128, 256}) {
      if (n <= 100) for (auto& i : instances(n)) some(i.name, i.par, *i.f);
      for (int k = 0; k < 4; k++) { LinearFunction f; WalshExpansion1 w; auto g = [] { return rndd(-1, 1); }; f.generate(n, g); w.generate(n, g); some("LinearFunction real", str(n, k), f); some("WalshExpansion1 real", str(n, k), w); }
      for (int t : {-1000, -5, -2, -1, 0, 1, 2, n / 4, n / 2 - 2, n / 2 - 1}) if (t <= n / 2 - 1) { FourPeaks f(n, t); some("FourPeaks", str(n, t), f); SixPeaks s(n, t); some("SixPeaks", str(n, t), s); }
      for (int g : {1, 2, n / 2, n - 1, n, n + 1, n + 7, 2 * n}) { DeceptiveJump d(n, g); some("DeceptiveJump", str(n, g), d); Jump j(n, g); some("Jump", str(n, g), j); }
      for (int k = 1; k <= n; k++) if (n % k == 0) { Trap t(n, k); some("Trap", str(n, k), t); if (k > 1) { LongPath l(n, k); some("LongPath", str(n, k), l); } } }
    for (int n = 2; n <= 130; n++) for (int k = 2; k <= n; k++) if (n % k == 0) { LongPath l(n, k); bv x(n, 0); for (int i = 0; i < k; i++) x[i] = 1; at("LongPath end of path", n, k); if (l.has_known_maximum()) { eq(l.evaluate(x), l.get_maximum(), "value at the end of the path"); x[k - 1] = 0; ok(l.evaluate(x) < l.get_maximum(), "before the end"); } }
    // every parameter value the constructors accept
    for (int n = 1; n <= 9; n++) for (int t = -3; t <= n + 3; t++) {
      auto tryit = [&](const char* name, const std::function<std::shared_ptr<Function>()>& mk) { std::shared_ptr<Function> f; at((std::string(name) + " (constructor)").c_str(), n, t); try { f = mk(); } catch (std::runtime_error&) { return; } all(name, str(n, t), *f); };
      tryit("FourPeaks", [&] { return std::make_shared<FourPeaks>(n, t); }); tryit("SixPeaks", [&] { return std::make_shared<SixPeaks>(n, t); });
      tryit("Jump", [&] { return std::make_shared<Jump>(n, t); }); tryit("DeceptiveJump", [&] { return std::make_shared<DeceptiveJump>(n, t); });
      if (t > 0) { tryit("Trap", [&] { return std::make_shared<Trap>(n, t); }); tryit("LongPath", [&] { return std::make_shared<LongPath>(n, t); }); }
      tryit("Hiff", [&] { return std::make_shared<Hiff>(n); });
    }
    // reused instances
    for (int k = 0; k < 40; k++) { LinearFunction f; WalshExpansion1 w; for (int j = 0; j < 3; j++) { int n = rnd(1, 9); auto g = gen(); f.generate(n, g); w.generate(n, g); all("LinearFunction regenerated", str(n, j), f); all("WalshExpansion1 regenerated", str(n, j), w); } }
    for (int n = 1; n <= 7; n++) { // prior noise never exceeds the declared maximum
      OneMax f(n); neighborhood::SingleBitFlip nh(n); PriorNoise p(&f, &nh); at("PriorNoise", n); if (p.has_known_maximum()) { double m = p.get_maximum(); bool hit = false; for (int r = 0; r < 40 * (1 << n); r++) { double v = p.evaluate(from_int(n, r % (1 << n))); ok(v <= m, "value above the declared maximum"); hit = hit || v == m; } ok(hit, "no evaluation reaches the declared maximum"); } }
    for (int n = 1; n <= 6; n++) for (auto& i : instances(n)) if (i.f->has_known_maximum()) { all_bv(n, [&](const bv& x) { at(("bv_is_globally_maximal " + i.name).c_str(), i.par.substr(0, 800), x); eq(bv_is_globally_maximal(x, *i.f), i.f->evaluate(x) == i.f->get_maximum(), "global maximum"); }); }
    // tests for local maximality, iterators used before
    for (int n = 1; n <= 6; n++) for (auto& i : instances(n)) { neighborhood::SingleBitFlipIterator it(n); std::vector<double> v(1 << n); int c = 0; all_bv(n, [&](const bv& x) { v[c++] = i.f->evaluate(x); });
      for (int q = 0; q < 6; q++) { int u = rnd(0, (1 << n) - 1); bv x = from_int(n, u); bool loc = true; for (int j = 0; j < n; j++) if (v[u ^ (1 << j)] > v[u]) loc = false; at(("bv_is_locally_maximal " + i.name).c_str(), i.par.substr(0, 800), x); eq(bv_is_locally_maximal(x, *i.f, it), loc, "local maximum"); } }
  }
  return done();
}
