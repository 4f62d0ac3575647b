// Controllers: transparency, budget, target, counters, progress, cache
#include "common.hh"
#include <cmath>
#include <limits>
#include "hnco/functions/controllers/controller.hh"
#include "hnco/functions/modifiers/modifier.hh"
#include "hnco/exception.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
using namespace hnco::function::controller;
using namespace hnco::exception;
// an arbitrary function: a table of values, counting the calls it receives
struct Table: Function {
  int n; std::vector<double> t; bool known = true; long full = 0, incr = 0, safe = 0, upd = 0; bv last; double last_value = 0;
  Table(int n_, int kind): n(n_), t(size_t(1) << n_) {
    for (auto& v : t) v = kind == 0 ? rnd(-3, 3) : kind == 1 ? -rnd(1, 1000) : kind == 2 ? rndd(-1e9, 1e9) : kind == 3 ? rnd(0, 1) : -1e300 * rnd(1, 9); }
  size_t ix(const bv& x) const { size_t u = 0; for (int i = 0; i < n; i++) u |= size_t(x[i] != 0) << i; return u; }
  double at(const bv& x) const { return t[ix(x)]; }
  int get_bv_size() const override { return n; }
  double get_maximum() const override { double m = t[0]; for (double v : t) m = std::max(m, v); return m; }
  bool has_known_maximum() const override { return known; }
  bool provides_incremental_evaluation() const override { return true; }
  double evaluate(const bv& x) override { full++; return at(x); }
  double evaluate_safely(const bv& x) override { safe++; return at(x); }
  double evaluate_incrementally(const bv& x, double v, const sparse_bit_vector_t& s) override { incr++; bv y = x; for (int i : s) y[i] ^= 1; return v - at(x) + at(y); }
  void update(const bv& x, double v) override { upd++; last = x; last_value = v; }
};
enum Op { FULL, INCR, SAFE };
struct Call { Op op; bv x; sparse_bit_vector_t s; bv y; };
static Call next(int n) { Call c; c.op = Op(rnd(0, 2)); c.x = rbv(n); for (int i = 0; i < n; i++) if (rnd(0, 2) == 0) c.s.push_back(i); c.y = c.x; if (c.op == INCR) for (int i : c.s) c.y[i] ^= 1; return c; }
// performs the call; a safe evaluation is an evaluate_safely followed by an update
static double perform(Function& f, Table& t, const Call& c) {
  bv x = c.x; double v;
  if (c.op == FULL) v = f.evaluate(x);
  else if (c.op == INCR) v = f.evaluate_incrementally(x, t.at(c.x), c.s);
  else { v = f.evaluate_safely(x); f.update(x, v); }
  eq(x, c.x, "bit vector argument unchanged");
  return v;
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
static void forwards(Controller& c, Table& t) { eq(c.get_bv_size(), t.n, "size"); eq(c.has_known_maximum(), t.known, "has_known_maximum"); eq(c.get_maximum(), t.get_maximum(), "maximum"); }
int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 4000 : 600;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 5), kind = rnd(0, 3); Table t(n, kind); t.known = rnd(0, 1); int L = rnd(1, 60);
    auto desc = [&](int k, const Call& c) { return str("n", n, "kind", kind, "call", k, "op", int(c.op), "x", c.x, "flipped", c.s, "table", t.t).substr(0, 1500); };
    { CallCounter c(&t); forwards(c, t); eq(c.provides_incremental_evaluation(), true, "incremental"); eq(c.get_num_calls(), 0, "initial number of calls");
      for (int k = 0; k < L; k++) { auto a = next(n); at("CallCounter", desc(k, a)); double v = perform(c, t, a); ok(near(v, t.at(a.y)), "value differs from the function's"); eq(c.get_num_calls(), k + 1, "number of calls"); if (a.op == SAFE) { eq(t.last, a.x, "update forwarded"); ok(near(t.last_value, v), "update value forwarded"); } }
      eq(t.full + t.incr + t.upd, long(L), "calls received by the function"); }
    { t.full = t.incr = t.upd = t.safe = 0; int B = rnd(0, 20); OnBudgetFunction c(&t, B); forwards(c, t); eq(c.provides_incremental_evaluation(), true, "incremental");
      for (int k = 0; k < L; k++) { auto a = next(n); at("OnBudgetFunction", "budget", B, desc(k, a)); bool thrown = false; double v = 0; try { v = perform(c, t, a); } catch (LastEvaluation&) { thrown = true; }
        eq(thrown, k >= B, "budget signal"); if (!thrown) ok(near(v, t.at(a.y)), "value differs from the function's"); eq(c.get_num_calls(), std::min(k + 1, B), "number of calls"); eq(t.full + t.incr + t.upd, long(std::min(k + 1, B)), "calls received by the function"); } }
    { double g = rnd(0, 4) ? t.t[rnd(0, t.t.size() - 1)] : rndd(-5, 5); bool mx = rnd(0, 3) == 0; if (mx) g = t.get_maximum(); t.known = true;
      std::unique_ptr<StopOnTarget> c(mx ? new StopOnMaximum(&t) : new StopOnTarget(&t, g)); forwards(*c, t); eq(c->provides_incremental_evaluation(), true, "incremental");
      for (int k = 0; k < L; k++) { auto a = next(n); at(mx ? "StopOnMaximum" : "StopOnTarget", "target", g, desc(k, a)); bool thrown = false; double v = 0; if (kind == 2 && a.op == INCR) a.op = FULL, a.y = a.x; try { v = perform(*c, t, a); } catch (TargetReached&) { thrown = true; }
        eq(thrown, t.at(a.y) >= g, "target signal"); if (!thrown) ok(near(v, t.at(a.y)), "value differs from the function's"); else { eq(c->get_trigger().first, a.y, "point that reached the target"); ok(near(c->get_trigger().second, t.at(a.y)), "value of that point"); } } }
    { t.full = 0; ProgressTracker c(&t); bool rec = rnd(0, 1), tim = rnd(0, 1); c.set_record_bit_vector(rec); c.set_record_evaluation_time(tim); forwards(c, t); eq(c.provides_incremental_evaluation(), true, "incremental"); eq(c.get_last_improvement().num_evaluations, 0, "no improvement yet");
      double best = 0; int when = 0; bv arg; double tm = 0;
      for (int k = 0; k < L; k++) { auto a = next(n); if (kind == 2 && a.op == INCR) a.op = FULL, a.y = a.x; at("ProgressTracker", "record", rec, tim, desc(k, a)); double v = perform(c, t, a); ok(near(v, t.at(a.y)), "value differs from the function's");
        if (k == 0 || t.at(a.y) > best) { best = t.at(a.y); when = k + 1; arg = a.y; }
        eq(c.get_num_calls(), k + 1, "number of calls"); auto& e = c.get_last_improvement(); eq(e.num_evaluations, when, "call of the last improvement"); ok(near(e.solution.second, best), "best value"); if (rec) eq(e.solution.first, arg, "best bit vector");
        ok(c.get_evaluation_time() >= tm, "evaluation time decreases"); tm = c.get_evaluation_time(); } }
    { ProgressTracker c(&t); c.set_log_improvement(true); std::ostringstream o, want; auto* b = std::cout.rdbuf(o.rdbuf()); double best = 0; std::string bad;
      for (int k = 0; k < 10; k++) { bv x = rbv(n); at("ProgressTracker(log)", k, x, t.t); double v = c.evaluate(x); if (k == 0 || v > best) { best = v; want << k + 1 << " " << v << std::endl; } }
      std::cout.rdbuf(b); eq(o.str(), want.str(), "logged improvements"); }
    { t.full = t.incr = t.upd = t.safe = 0; Cache c(&t); forwards(c, t); eq(c.provides_incremental_evaluation(), false, "incremental"); std::set<bv> seen; int look = 0;
      for (int k = 0; k < L; k++) { bv x = rbv(n); at("Cache", k, x, t.t); bv y = x; double v = c.evaluate(y); eq(y, x, "argument unchanged"); ok(v == t.at(x), "value differs from the function's"); if (!seen.insert(x).second) look++; eq(t.full, long(seen.size()), "evaluations of the function"); eq(c.get_lookup_ratio(), double(look) / (k + 1), "lookup ratio"); ok(near(c.evaluate_safely(x), t.at(x)), "safe evaluation"); } }
    // stacks of controllers, as the applications build them
    { t.full = t.incr = t.upd = t.safe = 0; int B = rnd(1, 25); double g = t.t[rnd(0, t.t.size() - 1)] + rnd(0, 1); ProgressTracker p(&t); p.set_record_bit_vector(true); OnBudgetFunction b(&p, B); StopOnTarget s(&b, g); double best = 0; int when = 0; bv arg;
      for (int k = 0; k < 30; k++) { auto a = next(n); a.op = FULL; a.y = a.x; at("StopOnTarget(OnBudgetFunction(ProgressTracker))", "budget", B, "target", g, desc(k, a)); bool last = false, hit = false; double v = 0; try { v = s.evaluate(a.x); } catch (LastEvaluation&) { last = true; } catch (TargetReached&) { hit = true; }
        eq(last, k >= B, "budget signal"); eq(hit, k < B && t.at(a.x) >= g, "target signal"); if (!last && !hit) ok(v == t.at(a.x), "value"); if (!last && (k == 0 || t.at(a.x) > best)) { best = t.at(a.x); when = k + 1; arg = a.x; }
        eq(p.get_num_calls(), std::min(k + 1, B), "number of calls"); eq(p.get_last_improvement().num_evaluations, when, "call of the last improvement"); eq(p.get_last_improvement().solution.second, best, "best value"); eq(p.get_last_improvement().solution.first, arg, "best bit vector"); } }
    { t.full = 0; Cache c(&t); CallCounter k1(&c); Cache outer(&k1); std::set<bv> seen; for (int k = 0; k < L; k++) { bv x = rbv(n); at("Cache(CallCounter(Cache))", k, x, t.t); ok(outer.evaluate(x) == t.at(x), "value"); seen.insert(x); eq(k1.get_num_calls(), int(seen.size()), "number of calls"); eq(t.full, long(seen.size()), "evaluations"); } }
  }
  // larger vectors in the cache
  for (int n : {1, 31, 32, 33, 63, 64, 65, 128, 200}) { struct Hash: Function { int n; Hash(int m): n(m) {} int get_bv_size() const override { return n; } double evaluate(const bv& x) override { double s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] ? std::sin(i + 1.0) : 0; return s; } } h(n); Cache c(&h); std::vector<bv> v; for (int i = 0; i < 60; i++) { v.push_back(rbv(n)); bv y = v.back(); y[rnd(0, n - 1)] ^= 1; v.push_back(y); }
    for (int k = 0; k < 400; k++) { auto& x = v[rnd(0, v.size() - 1)]; at("Cache(large)", n, x); ok(c.evaluate(x) == h.evaluate(x), "value differs from the function's"); } }
  // large budgets and long histories
  { Table t(3, 0); OnBudgetFunction b(&t, 5000); long k = 0; at("OnBudgetFunction", "budget 5000"); try { for (;;) { b.evaluate(rbv(3)); k++; } } catch (LastEvaluation&) {} eq(k, 5000l, "number of evaluations allowed"); }
  return done();
}
