// Pareto dominance, non-dominated sorting, NSGA-II
#include "common.hh"
#include <algorithm>
#include <cmath>
#include <limits>
#include "hnco/multiobjective/algorithms/nsga2.hh"
#include "hnco/multiobjective/algorithms/population.hh"
#include "hnco/multiobjective/algorithms/pareto-front-computation.hh"
using namespace vh;
using namespace hnco::multiobjective;
using hnco::multiobjective::algorithm::Population;
using value_t = std::vector<double>;

static bool dom(const value_t& a, const value_t& b) { bool s = false; for (size_t i = 0; i < a.size(); i++) { if (a[i] > b[i]) return false; if (a[i] < b[i]) s = true; } return s; }
// peel the non-dominated layers
static std::vector<int> peel(const std::vector<value_t>& v) {
  std::vector<int> fr(v.size(), -1); size_t done = 0;
  for (int f = 0; done < v.size(); f++) {
    std::vector<int> now;
    for (size_t i = 0; i < v.size(); i++) if (fr[i] < 0) { bool d = false; for (size_t j = 0; j < v.size(); j++) if (fr[j] < 0 && dom(v[j], v[i])) d = true; if (!d) now.push_back(i); }
    for (int i : now) fr[i] = f; done += now.size();
  }
  return fr;
}
static unsigned long key(const bv& x) { unsigned long h = 1469598103934665603ul; for (auto b : x) h = (h ^ (b + 1)) * 1099511628211ul; return h ^ (h >> 29); }
static double value(const bv& x, int j, int levels) { if (levels == 0) { double w = 0; for (size_t i = 0; i < x.size(); i++) w += ((j + i) % 3 ? 1. : -1.) * x[i] * (1 + j * int(i) % 5); return w; }
  if (levels < 0) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] * std::ldexp(1., -int(i)); double e = double(key(x) % 1000) / 1e9; return (j % 2 ? -s : s) + (j > 1 ? e * 1e6 : 0); }
  return double((key(x) >> (7 * j)) % levels); }
struct F : function::Function {
  int n, k, levels; std::vector<std::pair<bv, value_t>> seen;
  F(int n, int k, int levels) : n(n), k(k), levels(levels) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return k; }
  value_t val(const bv& x) const { value_t v(k); for (int j = 0; j < k; j++) v[j] = value(x, j, levels); return v; }
  void evaluate(const bv& x, value_t& v) override {
    if (int(x.size()) != n || !valid(x)) fail_now("invalid point evaluated " + str(x));
    v = val(x); seen.emplace_back(x, v);
  }
};
using item = std::pair<bv, value_t>;
static std::vector<item> items(const Population& p) { std::vector<item> r; for (size_t i = 0; i < p.bvs.size(); i++) r.emplace_back(p.bvs[i], p.values[i]); std::sort(r.begin(), r.end()); return r; }
#ifdef VH_NO_EXPOSE
using Exposed = algorithm::Nsga2;
#else
struct Exposed : algorithm::Nsga2 { using algorithm::Nsga2::Nsga2; const Population& parents() const { return _parents; } };
#endif
static bool subset(const std::vector<item>& a, const std::vector<item>& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }

static void check_solutions(const Population& s, const F& f) {
  ok(s.bvs.size() > 0 && s.bvs.size() == s.values.size(), "solutions: sizes " + str(s.bvs.size(), s.values.size()));
  for (size_t i = 0; i < s.bvs.size(); i++) { ok(valid(s.bvs[i]) && int(s.bvs[i].size()) == f.n, "invalid solution " + str(s.bvs[i])); eq(s.values[i], f.val(s.bvs[i]), "value of a solution"); }
  for (auto& a : s.values) for (auto& b : s.values) ok(!dom(a, b), "a solution dominates another one: " + str(a, b));
}
static std::vector<item> front0(const std::vector<item>& u) { std::vector<item> r; for (auto& a : u) { bool d = false; for (auto& b : u) if (dom(b.second, a.second)) d = true; if (!d) r.push_back(a); } std::sort(r.begin(), r.end()); return r; }

int main(int argc, char** argv)
{
  init(argc, argv);
  // dominance: all pairs over a small grid, then special values
  for (int k = 1; k <= 3; k++) {
    int m = 1; for (int i = 0; i < k; i++) m *= 3;
    const double lev[3] = {-1.5, 0, 1e-300};
    for (int a = 0; a < m; a++) for (int b = 0; b < m; b++) {
      value_t x, y; for (int i = 0, u = a, w = b; i < k; i++, u /= 3, w /= 3) { x.push_back(lev[u % 3]); y.push_back(lev[w % 3]); }
      at("dominates", x, y); eq(function::dominates(x, y), dom(x, y), "dominates");
    }
  }
  for (int r = 0; r < 3000; r++) {
    int k = rnd(1, 6); value_t x(k), y(k); for (int i = 0; i < k; i++) { x[i] = rnd(-2, 2) * (r % 2 ? 1e8 : 0.1); y[i] = rnd(0, 2) ? x[i] : x[i] + rnd(-1, 1); }
    if (!(r % 5)) { x[0] = rnd(0, 1) ? INFINITY : -INFINITY; if (k > 1) y[k - 1] = std::nextafter(x[k - 1], 10); }
    at("dominates", x, y); eq(function::dominates(x, y), dom(x, y), "dominates");
  }
  // fronts
  const int R = thorough ? 6000 : 1500;
  for (int r = 0; r < R; r++) {
    int size = r < 300 ? rnd(1, 4) : rnd(1, r % 10 ? 20 : 80), k = rnd(1, 4), lv = rnd(1, 6), n = rnd(1, 5);
    Population p(size, n, k);
    auto fill = [&]{ for (auto& v : p.values) for (auto& c : v) c = rnd(0, lv); if (!rnd(0, 3)) for (auto& v : p.values) v = p.values[rnd(0, size - 1)]; for (auto& x : p.bvs) x = rbv(n); };
    if (!(r % 7)) { for (int i = 0; i < size; i++) for (auto& c : p.values[i]) c = i * (r % 2 ? 1 : -1); } else fill();
    hnco::multiobjective::algorithm::Nsga2ParetoFrontComputation c(p);
    for (int again = 0; again < 3; again++) {
      std::vector<int> fr(size); for (auto& x : fr) x = rnd(-3, 3);
      at("Nsga2ParetoFrontComputation::compute", p.values); auto q = p.values; auto qb = p.bvs;
      c.compute(fr);
      eq(fr, peel(q), "fronts"); eq(p.values, q, "values changed"); eq(p.bvs, qb, "bit vectors changed");
      fill();
    }
  }
  // populations
  for (int r = 0; r < 300; r++) {
    int size = rnd(1, 30), n = rnd(1, 20), k = rnd(1, 4); F f(n, k, 5); Population p(size, n, k);
    at("Population::random", size, n, k); p.random(); eq(int(p.bvs.size()), size, "size"); for (auto& x : p.bvs) ok(valid(x) && int(x.size()) == n, "invalid individual");
    at("Population::evaluate", p.bvs); auto b = p.bvs; p.evaluate(&f); eq(p.bvs, b, "bit vectors"); eq(p.values.size(), b.size(), "size");
    for (int i = 0; i < size; i++) eq(p.values[i], f.val(b[i]), "value of an individual");
    std::vector<function::Function*> fs(1, &f); for (auto& v : p.values) for (auto& c : v) c = -7;
    int ns = rnd(1, size + 2); at("Population::shrink", size, ns); p.evaluate(&f); p.shrink(ns); eq(int(p.bvs.size()), std::min(ns, size), "size after shrink"); eq(p.values.size(), p.bvs.size(), "values after shrink");
    for (size_t i = 0; i < p.bvs.size(); i++) { eq(p.bvs[i], b[i], "individual after shrink"); eq(p.values[i], f.val(b[i]), "value after shrink"); }
    int rs = rnd(1, size + 6); at("Population::resize", ns, rs); size_t keep = std::min<size_t>(p.bvs.size(), rs); p.resize(rs, n, k); eq(int(p.bvs.size()), rs, "size after resize"); eq(p.values.size(), p.bvs.size(), "values after resize");
    for (size_t i = 0; i < keep; i++) { eq(p.bvs[i], b[i], "individual after resize"); eq(p.values[i], f.val(b[i]), "value after resize"); }
    for (size_t i = keep; i < p.bvs.size(); i++) { eq(int(p.bvs[i].size()), n, "new individual"); eq(int(p.values[i].size()), k, "new value"); }
  }
  // NSGA-II
  for (int r = 0; r < (thorough ? 4000 : 900); r++) {
    int n = rnd(1, 12), k = rnd(1, 3), size = rnd(3, r % 8 ? 12 : 40), ts = rnd(2, size - 1), levels = r % 4 == 0 ? -1 : r % 4 == 1 ? 0 : rnd(1, 12);
    double pc = rnd(0, 3) ? rndd(0, 1) : rnd(0, 1); bool anm = rnd(0, 1);
    int its = rnd(0, 4); bool still = r % 3 == 0;   // no variation
    if (still) { pc = 0; anm = true; }
    const bool crowd = r % 9 == 4; if (crowd) { n = 24; k = rnd(2, 3); levels = -1; its = 1; still = false; }
    Exposed a(n, k, size); a.set_tournament_size(ts); a.set_allow_no_mutation(anm); a.set_crossover_probability(pc);
    if (still) a.set_mutation_rate(1e-14); else if (crowd) a.set_mutation_rate(0.5); else if (rnd(0, 1)) a.set_mutation_rate(rndd(0.01, 0.99));
    F f(n, k, levels); std::vector<function::Function*> fs{&f};
    for (int run = 0; run < 2; run++) {
      a.set_num_iterations(its); f.seen.clear();
      at("Nsga2::minimize", "n", n, "objectives", k, "size", size, "tournament", ts, "pc", pc, "still", still, "iterations", its, "levels", levels, "run", run);
      a.minimize(fs);
      auto& s = a.get_solutions(); check_solutions(s, f);
      eq(int(f.seen.size()), size * (1 + its), "number of evaluations");
      auto it = items(s); std::vector<item> all(f.seen); std::sort(all.begin(), all.end());
      ok(int(it.size()) <= size, "more solutions than individuals");
      ok(subset(it, all), "solutions are not among the evaluated individuals: " + str(s.bvs));
      if (its == 0) eq(it, front0(all), "solutions are not the non-dominated individuals");
      if (its == 1) {
        auto u = front0(all);
        if (int(u.size()) <= size) eq(it, u, "the first front is not kept whole");
        else {
          eq(int(it.size()), size, "first front larger than the population: number of solutions"); ok(subset(it, u), "dominated solutions");
          // truncation by crowding distance, when it is not ambiguous
          bool amb = false; std::vector<double> d(u.size(), 0);
          for (int j = 0; j < k && !amb; j++) {
            std::vector<int> o(u.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i;
            std::sort(o.begin(), o.end(), [&](int x, int y){ return u[x].second[j] < u[y].second[j]; });
            for (size_t i = 0; i + 1 < o.size(); i++) if (u[o[i]].second[j] == u[o[i + 1]].second[j]) amb = true;
            d[o.front()] = d[o.back()] = INFINITY;
            for (size_t i = 1; i + 1 < o.size(); i++) d[o[i]] += u[o[i + 1]].second[j] - u[o[i - 1]].second[j];
          }
          if (!amb) { double in = INFINITY, out = -INFINITY; for (size_t i = 0; i < u.size(); i++) if (std::binary_search(it.begin(), it.end(), u[i])) in = std::min(in, d[i]); else out = std::max(out, d[i]);
            at("Nsga2::iterate crowding", n, k, size, "values", [&]{ std::vector<value_t> w; for (auto& x : u) w.push_back(x.second); return w; }());
            ok(in >= out - 1e-9, "a less crowded individual of the last front is dropped: " + str(in, out)); }
        }
      }
#ifndef VH_NO_EXPOSE
      if (its == 1) { // survivors: whole fronts, the last one truncated by crowding distance
        std::vector<value_t> w; for (auto& x : all) w.push_back(x.second);
        auto fr = peel(w); auto so = fr; std::sort(so.begin(), so.end()); int last = so[size - 1];
        auto par = items(a.parents()); eq(int(par.size()), size, "number of survivors"); ok(subset(par, all), "survivors are not among the evaluated individuals");
        std::vector<item> u, better; for (size_t i = 0; i < all.size(); i++) { if (fr[i] < last) better.push_back(all[i]); if (fr[i] == last) u.push_back(all[i]); }
        ok(subset(better, par), "a front which fits is not kept whole");
        std::vector<item> rest; std::set_difference(par.begin(), par.end(), better.begin(), better.end(), std::back_inserter(rest)); ok(subset(rest, u), "a survivor is worse than the last front that fits");
        bool amb = false; std::vector<double> d(u.size(), 0);
        for (int j = 0; j < k && !amb; j++) {
          std::vector<int> o(u.size()); for (size_t i = 0; i < o.size(); i++) o[i] = i;
          std::sort(o.begin(), o.end(), [&](int x, int y){ return u[x].second[j] < u[y].second[j]; });
          for (size_t i = 0; i + 1 < o.size(); i++) if (u[o[i]].second[j] == u[o[i + 1]].second[j]) amb = true;
          d[o.front()] = d[o.back()] = INFINITY;
          for (size_t i = 1; i + 1 < o.size(); i++) d[o[i]] += u[o[i + 1]].second[j] - u[o[i - 1]].second[j];
        }
        if (!amb) { double in = INFINITY, out = -INFINITY; for (size_t i = 0; i < u.size(); i++) if (std::binary_search(rest.begin(), rest.end(), u[i])) in = std::min(in, d[i]); else out = std::max(out, d[i]);
          at("Nsga2::iterate crowding", n, k, size, "last front", [&]{ std::vector<value_t> w; for (auto& x : u) w.push_back(x.second); return w; }());
          ok(in >= out - 1e-9, "a less crowded individual of the last front is dropped: " + str(in, out)); }
      }
#endif
      // every evaluated offspring without variation comes from the fronts that survive
      if (still) {
        std::vector<item> init(f.seen.begin(), f.seen.begin() + size), par = init;
        for (auto& x : f.seen) { bool in = false; for (auto& y : init) if (x.first == y.first) in = true; ok(in, "a point appears without crossover and mutation: " + str(x.first)); }
        if (its >= 1) {
          // tournaments on fronts: at most size - ts individuals are better than a winner
          std::vector<value_t> u; for (auto& x : init) u.push_back(x.second);
          auto fr = peel(u);
          for (int i = size; i < 2 * size; i++) { int b = 1 << 30, better = 0; for (int j = 0; j < size; j++) if (init[j].first == f.seen[i].first) b = std::min(b, fr[j]); for (int x : fr) better += x < b; ok(better <= size - ts, "a parent with a worse front wins a tournament"); }
        }
        if (its >= 2) {
          std::vector<value_t> u; for (int i = 0; i < 2 * size; i++) u.push_back(f.seen[i].second);
          auto fr = peel(u); auto so = fr; std::sort(so.begin(), so.end()); int last = so[size - 1];
          for (int i = 2 * size; i < 3 * size; i++) { int b = 1 << 30; for (int j = 0; j < 2 * size; j++) if (f.seen[j].first == f.seen[i].first) b = std::min(b, fr[j]); ok(b <= last, "a parent comes from a front worse than the last one that fits");
            int better = 0; for (int j = 0; j < size; j++) better += so[j] < b; ok(better <= size - ts, "a parent with a worse front wins a tournament (second generation)"); }
        }
      }
      // values are paired with points in a later run as well; change the settings in between
      if (rnd(0, 1)) its = rnd(0, 3);
    }
  }
  // the crossover probability is honoured: pc = 1 with two distinct parents mixes them, pc = 0 never does
  { long mixed = 0; for (int r = 0; r < 40; r++) { int n = 30; algorithm::Nsga2 a(n, 2, 8); a.set_allow_no_mutation(true); a.set_mutation_rate(1e-14); a.set_crossover_probability(1); a.set_num_iterations(1); F f(n, 2, 1000); std::vector<function::Function*> fs{&f};
      at("Nsga2::minimize crossover", n, r); a.minimize(fs); for (int i = 8; i < 16; i++) { bool in = false; for (int j = 0; j < 8; j++) if (f.seen[j].first == f.seen[i].first) in = true; mixed += !in; } }
    ok(mixed >= 100, "crossover probability 1 is not honoured: " + str(mixed) + " recombined offspring out of 320"); }
  return done();
}
