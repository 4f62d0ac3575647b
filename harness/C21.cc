// Parallel evaluation of populations
#include "common.hh"
#include <atomic>
#include <memory>
#include <mutex>
#include <omp.h>
#include <thread>
#include "hnco/algorithms/population.hh"
#include "hnco/multiobjective/algorithms/population.hh"
using namespace vh;
using namespace hnco;

static unsigned long key(const bv& x) { unsigned long h = 1469598103934665603ul; for (auto b : x) h = (h ^ (b + 1)) * 1099511628211ul; return h; }
static double f(const bv& x) { return double(key(x) % 1000003) - 500000; }
static std::atomic<int> bad{0};
// copies of one function; each object may be used by one thread at a time only
struct F : function::Function {
  int n, delay; std::atomic<int> busy{0}; bv buffer; std::mutex m; std::vector<std::pair<bv, double>> updates;
  F(int n, int delay) : n(n), delay(delay), buffer(n) {}
  int get_bv_size() const override { return n; }
  double call(const bv& x) {
    if (busy.fetch_add(1)) bad = 1;
    buffer = x; for (int i = 0; i < delay; i++) std::this_thread::yield();
    double v = f(buffer);
    busy.fetch_sub(1); return v;
  }
  double evaluate(const bv& x) override { return call(x); }
  double evaluate_safely(const bv& x) override { return call(x); }
  void update(const bv& x, double v) override { if (busy.load()) bad = 2; if (omp_in_parallel()) bad = 3; std::lock_guard<std::mutex> l(m); updates.emplace_back(x, v); }
};
struct G : multiobjective::function::Function {
  int n, k, delay; std::atomic<int> busy{0}; bv buffer;
  G(int n, int k, int delay) : n(n), k(k), delay(delay), buffer(n) {}
  int get_bv_size() const override { return n; }
  int get_output_size() const override { return k; }
  void evaluate(const bv& x, std::vector<double>& v) override {
    if (busy.fetch_add(1)) bad = 1;
    buffer = x; for (int i = 0; i < delay; i++) std::this_thread::yield();
    for (int j = 0; j < k; j++) v[j] = f(buffer) + j;
    busy.fetch_sub(1);
  }
};
static const char* what(int b) { return b == 1 ? "two threads use one function object at the same time" : b == 2 ? "update while an evaluation is running" : "update by a worker thread"; }

int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 4000 : 500;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 24), size = rnd(1, r % 10 ? 12 : 300), threads = rnd(1, 8), extra = rnd(0, 2), delay = rnd(0, 3);
    omp_set_num_threads(threads); omp_set_dynamic(0);
    if (rnd(0, 1)) omp_set_schedule(rnd(0, 1) ? omp_sched_dynamic : omp_sched_static, rnd(1, 3));
    { algorithm::Population p(size, n); for (auto& x : p.bvs) x = rbv(n); if (rnd(0, 1)) for (auto& x : p.bvs) if (!rnd(0, 3)) x = p.bvs[0];
      for (auto& v : p.values) v = rnd(-5, 5);
      auto q = p; std::vector<std::unique_ptr<F>> fs; std::vector<function::Function*> fp; for (int i = 0; i < threads + extra; i++) { fs.emplace_back(new F(n, delay)); fp.push_back(fs.back().get()); }
      at("Population::evaluate_in_parallel", n, "threads", threads, "functions", fp.size(), p.bvs); bad = 0;
      p.evaluate_in_parallel(fp);
      if (bad) fail_now(what(bad));
      eq(p.bvs, q.bvs, "bit vectors"); eq(p.permutation, q.permutation, "permutation"); eq(p.values.size(), q.values.size(), "number of values");
      for (int i = 0; i < size; i++) eq(p.values[i], f(p.bvs[i]), "value of an individual");
      // the first function learns about every individual with its value
      std::multiset<std::pair<bv, double>> u(fs[0]->updates.begin(), fs[0]->updates.end()), w; for (int i = 0; i < size; i++) w.insert({p.bvs[i], f(p.bvs[i])});
      ok(u == w, "the first function is told each individual and its value exactly once");
      F s(n, 0); at("Population::evaluate", n, q.bvs); q.evaluate(&s); eq(p.values, q.values, "parallel and sequential values"); }
    { int k = rnd(1, 3); multiobjective::algorithm::Population p(size, n, k); for (auto& x : p.bvs) x = rbv(n); auto q = p;
      std::vector<std::unique_ptr<G>> fs; std::vector<multiobjective::function::Function*> fp; for (int i = 0; i < threads + extra; i++) { fs.emplace_back(new G(n, k, delay)); fp.push_back(fs.back().get()); }
      at("multiobjective::Population::evaluate_in_parallel", n, "threads", threads, "functions", fp.size(), p.bvs); bad = 0;
      p.evaluate_in_parallel(fp);
      if (bad) fail_now(what(bad));
      eq(p.bvs, q.bvs, "bit vectors"); eq(int(p.values.size()), size, "number of values");
      for (int i = 0; i < size; i++) for (int j = 0; j < k; j++) eq(p.values[i][j], f(p.bvs[i]) + j, "value of an individual");
      G s(n, k, 0); at("multiobjective::Population::evaluate", n, q.bvs); q.evaluate(&s); eq(p.values, q.values, "parallel and sequential values"); }
  }
  return done();
}
