// Probability vectors, Walsh moments, samplers and the models of the estimation of distribution algorithms
#include "common.hh"
#include <algorithm>
#include <cmath>
#include <numeric>
#include "hnco/algorithms/mimic.hh"
#include "hnco/algorithms/probability-vector/all.hh"
#include "hnco/algorithms/walsh-moment/all.hh"
#include "hnco/logging/log-context.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::algorithm;
using namespace hnco::algorithm::walsh_moment;
using M = std::vector<std::vector<double>>;
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
static void nearly(const pv_t& got, const pv_t& want, const char* what) { eq(got.size(), want.size(), what); for (size_t i = 0; i < got.size(); i++) if (!near(got[i], want[i])) fail_now(std::string(what) + ": component " + str(i) + "is " + str(got[i]) + "expected " + str(want[i])); }
static double clip(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static pv_t mean(const std::vector<bv>& b) { pv_t m(b[0].size()); for (auto& x : b) for (size_t i = 0; i < m.size(); i++) m[i] += x[i] ? 1.0 : 0.0; for (auto& v : m) v /= double(b.size()); return m; }
static pv_t rpv(int n) { pv_t p(n); for (auto& v : p) v = rnd(0, 4) ? rndd(0, 1) : rnd(0, 1); return p; }
// accumulated deviation of bits from their probabilities
struct Z { double s = 0, v = 0; void add(bool b, double p) { s += (b ? 1.0 : 0.0) - p; v += p * (1 - p); } void check(const char* what) { if (std::fabs(s) > 8 * std::sqrt(v) + 1e-6 * (1 + v)) fail_now(std::string(what) + ": observed minus expected number of ones " + str(s) + "standard deviation " + str(std::sqrt(v))); } };

static void vectors()
{
  const int R = thorough ? 20000 : 2500;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 12); pv_t p = rpv(n), q = p, a = rpv(n), b = rpv(n); bv x = rbv(n); double w = rndd(-3, 3), rate = rnd(0, 3) ? rndd(0, 1) : rnd(0, 1);
    at("pv_uniform", p); pv_uniform(q); eq(q, pv_t(n, 0.5), "uniform");
    at("pv_init", p); q = p; pv_init(q); eq(q, pv_t(n, 0.0), "init");
    at("pv_add", p, x); q = p; pv_add(q, x); { auto e = p; for (int i = 0; i < n; i++) if (x[i]) e[i] += 1; nearly(q, e, "sum"); }
    at("pv_add weight", p, x, w); q = p; pv_add(q, x, w); { auto e = p; for (int i = 0; i < n; i++) if (x[i]) e[i] += w; nearly(q, e, "weighted sum"); }
    int c = rnd(1, 9); at("pv_average", p, c); q = p; pv_average(q, c); { auto e = p; for (auto& v : e) v /= c; nearly(q, e, "average"); }
    at("pv_update bit vector", p, x, rate); q = p; pv_update(q, x, rate); { auto e = p; for (int i = 0; i < n; i++) e[i] = (1 - rate) * p[i] + rate * (x[i] ? 1 : 0); nearly(q, e, "update"); for (double v : q) ok(v >= -1e-12 && v <= 1 + 1e-12, "probability outside the unit interval"); }
    at("pv_update mean", p, a, rate); q = p; pv_update(q, a, rate); { auto e = p; for (int i = 0; i < n; i++) e[i] = (1 - rate) * p[i] + rate * a[i]; nearly(q, e, "update"); }
    at("pv_update difference", p, a, b, rate); q = p; pv_update(q, a, b, rate); { auto e = p; for (int i = 0; i < n; i++) e[i] = p[i] + rate * (a[i] - b[i]); nearly(q, e, "update"); }
    double lo = rndd(0, 0.5), hi = rndd(0.5, 1); q = p; for (auto& v : q) v += rndd(-1, 1); p = q; at("pv_bound", p, lo, hi); pv_bound(q, lo, hi); for (int i = 0; i < n; i++) eq(q[i], clip(p[i], lo, hi), "bounded component");
    p = rpv(n); at("pv_entropy", p); double h = 0; for (double v : p) if (v > 0 && v < 1) h -= v * std::log(v) + (1 - v) * std::log(1 - v); ok(near(pv_entropy(p), h), "entropy");
  }
  for (int r = 0; r < 30; r++) {
    int n = rnd(1, 8); pv_t p = rpv(n); std::vector<Z> z(n); std::vector<double> co(n); bv x(n), y;
    at("pv_sample", p);
    const int S = 4000;
    for (int s = 0; s < S; s++) { y = x; pv_sample(p, x); eq(x.size(), size_t(n), "size of the sample"); ok(valid(x), "invalid bit vector sampled"); for (int i = 0; i < n; i++) { z[i].add(x[i], p[i]); co[i] += (double(x[i]) - p[i]) * (double(x[(i + 1) % n]) - p[(i + 1) % n]); if (p[i] == 0) ok(!x[i], "bit of probability 0 sampled"); if (p[i] == 1) ok(x[i], "bit of probability 1 not sampled"); } }
    for (auto& a : z) a.check("pv_sample");
    if (n > 1) for (int i = 0; i < n; i++) { double v = p[i] * (1 - p[i]) * p[(i + 1) % n] * (1 - p[(i + 1) % n]); ok(std::fabs(co[i]) <= 8 * std::sqrt(S * v) + 10, "sampled bits are not independent"); }
  }
}

// ---- moments
template <class T> struct Is { static constexpr bool full = std::is_same<T, FullMoment>::value; };
template <class T> M dense(const T& t) { int n = t.first_moment.size(); M m(n, std::vector<double>(n)); for (int i = 0; i < n; i++) { m[i][i] = t.first_moment[i]; for (int j = 0; j < i; j++) m[i][j] = m[j][i] = t.second_moment[i][j]; } return m; }
template <class T> void shape(const T& t, int n) { eq(int(t.first_moment.size()), n, "size of the first moment"); eq(int(t.second_moment.size()), n, "size of the second moment"); for (int i = 0; i < n; i++) eq(int(t.second_moment[i].size()), Is<T>::full ? n : i, "size of a row of the second moment"); }
template <class T> void same(const T& t, const M& m, bool symmetric, const char* what) {
  shape(t, m.size()); M d = dense(t); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j <= i; j++) if (!near(d[i][j], m[i][j])) fail_now(std::string(what) + ": entry " + str(i, j) + "is " + str(d[i][j]) + "expected " + str(m[i][j]));
  if constexpr (Is<T>::full) if (symmetric) for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < i; j++) eq(t.second_moment[i][j], t.second_moment[j][i], "symmetry of the second moment");
}
template <class T> T rmoment(int n, double a) { T t(n); for (auto& v : t.first_moment) v = rndd(-a, a); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { t.second_moment[i][j] = rndd(-a, a); if (Is<T>::full) t.second_moment[j][i] = t.second_moment[i][j]; } return t; }
static M moment(const std::vector<bv>& b) { int n = b[0].size(); M m(n, std::vector<double>(n)); for (auto& x : b) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] += i == j ? (x[i] ? -1 : 1) : ((x[i] != x[j]) ? -1 : 1); return m; }
static M scale(M m, double c) { for (auto& r : m) for (auto& v : r) v *= c; return m; }
static M lin(double a, const M& x, double b, const M& y) { M m = x; for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) m[i][j] = a * x[i][j] + b * y[i][j]; return m; }
static double lower(const M& m, const std::function<double(double, double)>& f) { double s = 0; for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j <= i; j++) s = f(s, m[i][j]); return s; }
static double n2(const M& m) { return std::sqrt(lower(m, [](double s, double v) { return s + v * v; })); }

template <class T> void moments(const std::string& name)
{
  const int R = thorough ? 4000 : 500;
  for (int r = 0; r < R; r++) {
    int n = rnd(1, 8), k = rnd(1, 7); std::vector<bv> b(k); for (auto& x : b) x = rbv(n);
    at((name + "::init").c_str(), n); T t = rmoment<T>(n, 3); T u(n); shape(u, n); t.init(); same(t, M(n, std::vector<double>(n)), true, "initial moment");
    at((name + "::add").c_str(), b); for (auto& x : b) t.add(x); same(t, moment(b), false, "sum over bit vectors");
    at((name + "::average").c_str(), b); t.average(k); same(t, scale(moment(b), 1.0 / k), true, "average over bit vectors");
    T p = rmoment<T>(n, 1), q = rmoment<T>(n, 1); double rate = rnd(0, 3) ? rndd(0, 1) : rnd(0, 1), mg = rnd(0, 3) ? rndd(0, 0.999) : 0, la = rnd(0, 20); M P = dense(p), Q = dense(q), S = dense(t);
    at((name + "::update").c_str(), P, S, rate); { T x = p; x.update(t, rate); same(x, lin(1 - rate, P, rate, S), true, "update towards a moment"); for (auto& row : dense(x)) for (double v : row) ok(v >= -1 - 1e-12 && v <= 1 + 1e-12, "moment outside [-1, 1]"); same(t, S, true, "target moment"); }
    at((name + "::update difference").c_str(), P, Q, S, rate); { T x = p; x.update(q, t, rate); same(x, lin(1, P, rate, lin(1, Q, -1, S)), true, "update by a difference of moments"); }
    at((name + "::scaled_difference").c_str(), P, Q, la); { T x = t; x.scaled_difference(la, p, q); same(x, lin(la, P, -1, Q), true, "scaled difference"); }
    at((name + "::bound").c_str(), Q, mg); { T x = rmoment<T>(n, 1.5); M X = dense(x); x.bound(mg); for (auto& row : X) for (auto& v : row) v = clip(v, mg - 1, 1 - mg); same(x, X, true, "bounded moment"); }
    at((name + "::norm_1").c_str(), P); ok(near(p.norm_1(), lower(P, [](double s, double v) { return s + std::fabs(v); })), "1-norm " + str(p.norm_1()));
    at((name + "::norm_2").c_str(), P); ok(near(p.norm_2(), n2(P)), "2-norm " + str(p.norm_2()));
    at((name + "::norm_infinite").c_str(), P); ok(near(p.norm_infinite(), lower(P, [](double s, double v) { return std::max(s, std::fabs(v)); })), "infinite norm " + str(p.norm_infinite()));
    at((name + "::distance").c_str(), P, Q); ok(near(p.distance(q), n2(lin(1, P, -1, Q))), "distance " + str(p.distance(q)));
  }
}

// ---- Gibbs samplers: probability of a bit given all the other ones
static double conditional(const M& m, const bv& s, int i) { double d = m[i][i]; for (size_t j = 0; j < s.size(); j++) if (int(j) != i) d += s[j] ? -m[i][j] : m[i][j]; return 1 / (1 + std::exp(2 * d)); }
template <class G> void gibbs(const std::string& name)
{
  for (int r = 0; r < (thorough ? 40 : 12); r++) {
    int n = rnd(1, 6); auto t = rmoment<typename G::Moment>(n, r % 3 ? 0.7 : 3); M m = dense(t); G g(n, t); std::vector<Z> z(n), y(n), u(n); bv d(n);
    at((name + "::init").c_str(), n);
    for (int s = 0; s < 3000; s++) { g.init(); eq(int(g.get_state().size()), n, "size of the state"); ok(valid(g.get_state()), "invalid state"); for (int i = 0; i < n; i++) u[i].add(g.get_state()[i], 0.5); }
    for (auto& a : u) a.check("initial state");
    at((name + "::update").c_str(), m);
    for (int s = 0; s < 3000; s++) { int i = rnd(0, n - 1); bv o = g.get_state(); if (s % 10 == 0) g.init(), o = g.get_state(); g.update(i); bv x = g.get_state(); eq(x.size(), o.size(), "size of the state"); ok(valid(x), "invalid state"); for (int j = 0; j < n; j++) if (j != i) eq(x[j], o[j], "other bits unchanged"); z[i].add(x[i], conditional(m, o, i)); }
    for (auto& a : z) a.check("conditional probability");
    at((name + "::update_sync").c_str(), m);
    for (int s = 0; s < 3000; s++) { if (s % 10 == 0) g.init(); bv o = g.get_state(); g.update_sync(); bv x = g.get_state(); eq(x.size(), o.size(), "size of the state"); ok(valid(x), "invalid state"); for (int j = 0; j < n; j++) y[j].add(x[j], conditional(m, o, j)); }
    for (auto& a : y) a.check("conditional probability (synchronous)");
    same(t, m, true, "model parameters");
  }
}
// ---- herding: greedy choice of each bit in some order, running count of the samples
template <class H> void herding(const std::string& name)
{
  for (int r = 0; r < (thorough ? 400 : 80); r++) {
    bool random = r % 2; int n = rnd(1, random ? 4 : 7); auto t = rmoment<typename H::Moment>(n, 1); M m = dense(t), count(n, std::vector<double>(n)); H h(n); h.set_randomize_bit_order(random);
    at((name + "::init").c_str(), n); h.init();
    int time = 0;
    for (int s = 0; s < 12; s++) {
      if (s == 8) { h.init(); count = M(n, std::vector<double>(n)); time = 0; }
      M d = lin(time + 1, m, -1, count); bv x = rbv(n);
      at((name + "::sample").c_str(), m, "time", time, "count", count); h.sample(t, x); time++;
      eq(int(x.size()), n, "size of the sample"); ok(valid(x), "invalid bit vector sampled");
      std::vector<int> o(n); std::iota(o.begin(), o.end(), 0); bool found = false, tie = false;
      do { bv y(n); for (int k = 0; k < n; k++) { double v = d[o[k]][o[k]]; for (int l = 0; l < k; l++) v += y[o[l]] ? -d[o[k]][o[l]] : d[o[k]][o[l]]; y[o[k]] = v > 0 ? 0 : 1; if (std::fabs(v) < 1e-9) tie = true; } found = y == x; } while (!found && random && std::next_permutation(o.begin(), o.end()));
      if (!found && !tie) fail_now("sample " + str(x) + "is not the greedy choice");
      same(h.get_delta(), d, true, "moment increment");
      count = lin(1, count, 1, moment({x})); ok(near(h.error(t), n2(lin(time, m, -1, count))), "herding error");
    }
  }
}

// ---- algorithms: state seen from the function under evaluation
struct Spy: hnco::function::Function {
  int n; std::vector<double> t; std::function<int()> iteration = nullptr; std::function<void(int)> hook = nullptr; std::vector<std::vector<std::pair<bv, double>>> log; std::vector<std::pair<bv, double>> first;
  Spy(int n_): n(n_), t(size_t(1) << n_) { std::iota(t.begin(), t.end(), -double(t.size()) / 2); std::shuffle(t.begin(), t.end(), rng); }
  int get_bv_size() const override { return n; }
  double at(const bv& x) const { size_t u = 0; for (int i = 0; i < n; i++) u |= size_t(x[i] != 0) << i; return t[u]; }
  double evaluate(const bv& x) override {
    eq(int(x.size()), n, "size of the sampled bit vector"); ok(valid(x), "invalid bit vector sampled");
    int i = iteration(); double v = at(x);
    if (i < 0) { first.push_back({x, v}); return v; }
    if (size_t(i) >= log.size()) { while (log.size() <= size_t(i)) log.emplace_back(); hook(i); }
    log[i].push_back({x, v}); return v;
  }
  std::vector<bv> best(int it, int k) { auto l = log[it]; std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.second > b.second; }); std::vector<bv> b; for (int i = 0; i < k; i++) b.push_back(l[i].first); return b; }
  std::vector<bv> worst(int it, int k) { auto l = log[it]; std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.second < b.second; }); std::vector<bv> b; for (int i = 0; i < k; i++) b.push_back(l[i].first); return b; }
};
#ifndef VH_NO_EXPOSE // looks at protected members
template <class A> struct Open: A { template <class... X> Open(X... x): A(x...) { this->_iteration = -1; } int it() const { return this->_iteration; } };
template <class A> struct OpenPv: Open<A> { using Open<A>::Open; const pv_t& pv() const { return this->_pv; } };
struct OpenRam: OpenPv<RamUmda> { using OpenPv<RamUmda>::OpenPv; map::TsAffineMap& m() { return _map; } map::TsAffineMap& inv() { return _inverse_map; } int ts() const { return _ts_length; } };
struct OpenMimic: Open<Mimic> { using Open<Mimic>::Open; const std::array<pv_t, 2>& par() const { return _parameters; } const permutation_t& perm() const { return _permutation; } };
template <class G> struct OpenBm: Open<BmPbil<G>> { using Open<BmPbil<G>>::Open; const typename G::Moment& par() const { return this->_model_parameters; } };

// rule(previous vector, iteration) is the vector after the iteration, before bounding
// sampled points (first, second, ... of an iteration) against the probability vector they are drawn from, over all runs
static std::map<std::string, Z> drawn;
static void follow(const std::string& name, const std::vector<std::pair<bv, double>>& log, const pv_t& p) { for (size_t s = 0; s < log.size(); s++) for (size_t j = 0; j < p.size(); j++) drawn[name + (s == 0 ? " first sample" : s + 1 == log.size() ? " last sample" : " other samples")].add(log[s].first[j], p[j]); }
template <class A> void run(A& a, Spy& f, int n, const char* name, const std::function<pv_t(const pv_t&, int)>& rule, const pv_t& start = {}, bool direct = true)
{
  pv_t prev = start.empty() ? pv_t(n, 0.5) : start; double lo = 1.0 / n, hi = 1 - 1.0 / n; int last = -1; bool bounded_start = start.empty();
  auto check = [&](int done) { if (direct) follow(name, f.log[done], prev); pv_t e = rule(prev, done); for (auto& v : e) v = clip(v, lo, hi); nearly(a.pv(), e, name); for (double v : a.pv()) ok(v >= lo && v <= hi, "component outside its bounds"); prev = a.pv(); };
  f.iteration = [&] { return a.it(); };
  f.hook = [&](int i) { eq(i, last + 1, "iteration"); if (i == 0) { if (bounded_start) nearly(a.pv(), prev, "initial probability vector"); prev = a.pv(); } else check(i - 1); last = i; };
  a.set_num_iterations(25); a.maximize({&f}); check(last);
}
static void algorithms()
{
  const int R = thorough ? 300 : 50;
  for (int r = 0; r < R; r++) {
    int n = rnd(2, 8), N = rnd(2, 10), mu = rnd(1, N); double rate = rnd(0, 4) ? rndd(0, 0.6) : 1;
    { Spy f(n); OpenPv<Pbil> a(n, N); a.set_selection_size(mu); a.set_learning_rate(rate); at("Pbil", f.t, N, mu, rate); run(a, f, n, "Pbil", [&](const pv_t& p, int i) { eq(int(f.log[i].size()), N, "evaluations per iteration"); pv_t m = mean(f.best(i, mu)), e = p; for (int j = 0; j < n; j++) e[j] = p[j] + rate * (m[j] - p[j]); return e; }); }
    { Spy f(n); OpenPv<NpsPbil> a(n, N); a.set_selection_size(mu); a.set_learning_rate(rate); at("NpsPbil", f.t, N, mu, rate); run(a, f, n, "NpsPbil", [&](const pv_t& p, int i) { pv_t m = mean(f.best(i, mu)), w = mean(f.worst(i, mu)), e = p; for (int j = 0; j < n; j++) e[j] = p[j] + rate * (m[j] - w[j]); return e; }); }
    { Spy f(n); OpenPv<Umda> a(n, N); a.set_selection_size(mu); at("Umda", f.t, N, mu); run(a, f, n, "Umda", [&](const pv_t&, int i) { return mean(f.best(i, mu)); }); }
    { Spy f(n); OpenPv<CompactGa> a(n); a.set_learning_rate(rate); at("CompactGa", f.t, rate); run(a, f, n, "CompactGa", [&](const pv_t& p, int i) { auto x = f.log[i][0], y = f.log[i][1]; if (x.second < y.second) std::swap(x, y); pv_t e = p; for (int j = 0; j < n; j++) if (x.first[j] != y.first[j]) e[j] += x.first[j] ? rate : -rate; return e; }); }
    { Spy f(n); OpenPv<Mmas> a(n); a.set_learning_rate(rate); at("Mmas", f.t, rate); std::pair<bv, double> best; bool known = false; auto better = [&](const std::pair<bv, double>& q) { if (!known || q.second >= best.second) best = q; known = true; };
      pv_t s(n); f.iteration = [&] { return a.it(); };
      run(a, f, n, "Mmas", [&](const pv_t& p, int i) { if (!known) better(f.first[0]); for (auto& q : f.log[i]) better(q); pv_t e = p; for (int j = 0; j < n; j++) e[j] += rate * (double(best.first[j]) - p[j]); return e; }, s);
      eq(a.get_solution().second, best.second, "best value"); eq(a.get_solution().first, best.first, "best bit vector"); }
    for (int mode : {0, 1, 2, 3, 4, 5}) { Spy f(n); OpenRam a(n, N); int ts = rnd(0, 6), lb = rnd(0, 3), ub = rnd(lb, 8), period = rnd(1, 4); if (mode == 1 || mode == 2) ts = rnd(lb, ub); a.set_selection_size(mu); a.set_ts_length(ts); a.set_ts_length_mode(mode); a.set_ts_length_lower_bound(lb); a.set_ts_length_upper_bound(ub); a.set_ts_length_increment_period(period); a.set_ts_length_distribution_parameter(rndd(0.1, 0.9)); at("RamUmda", f.t, N, mu, "mode", mode, ts, lb, ub, period);
      run(a, f, n, "RamUmda", [&](const pv_t&, int i) { auto b = f.best(i, mu); bv y(n), z(n); for (int s = 0; s < 10; s++) { bv x = rbv(n); a.m().map(x, y); a.inv().map(y, z); eq(z, x, "inverse map"); } std::vector<bv> l; for (auto& x : b) { a.m().map(x, y); l.push_back(y); } 
        switch (mode) { case 0: eq(a.ts(), ts, "constant sequence length"); break; case 1: eq(a.ts(), std::min(ub, ts + (i + 1) / period), "increasing sequence length"); break; case 2: eq(a.ts(), std::max(lb, ts - (i + 1) / period), "decreasing sequence length"); break; case 4: ok(a.ts() >= 0 && a.ts() <= ub, "sequence length outside its bounds"); break; default: ok(a.ts() >= lb && a.ts() <= ub, "sequence length outside its bounds"); }
        return mean(l); }, pv_t(n), false); }
    { Spy f(n); OpenPv<RamUmda2> a(n, N); a.set_selection_size(mu); a.set_crossover_probability(rndd(0, 1)); a.set_latent_space_probability(rndd(0, 1)); at("RamUmda2", f.t, N, mu); run(a, f, n, "RamUmda2", [&](const pv_t&, int i) { return mean(f.best(i, mu)); }, pv_t(n), false); }
    { Spy f(n); mu = rnd(1, N - 1); OpenMimic a(n, N); a.set_selection_size(mu); at("Mimic", f.t, N, mu); double lo = 1.0 / n, hi = 1 - lo;
      auto check = [&](int i) {
        auto b = f.best(i, mu); pv_t m = mean(b); auto& p = a.perm(); auto& par = a.par(); std::vector<int> s(p.begin(), p.end()); std::sort(s.begin(), s.end()); for (int j = 0; j < n; j++) eq(s[j], j, "order of the components");
        for (auto& q : par) for (double v : q) ok(v >= lo && v <= hi, "probability outside its bounds");
        auto h0 = [&](int j) { return std::min(m[j], 1 - m[j]); }; for (int j = 0; j < n; j++) ok(h0(p[0]) <= h0(j) + 1e-9, "first component has not the smallest entropy"); ok(near(par[1][0], clip(m[p[0]], lo, hi)), "marginal probability of the first component");
        auto table = [&](int u, int v, double* c, double& h) { double k[2][2] = {{0, 0}, {0, 0}}; for (auto& x : b) k[x[u]][x[v]]++; h = 0; for (int q = 0; q < 2; q++) { double w = k[q][0] + k[q][1]; c[q] = w > 0 ? k[q][1] / w : 0.5; for (int e = 0; e < 2; e++) if (k[q][e] > 0) h += k[q][e] * std::log(w / k[q][e]); } };
        for (int j = 1; j < n; j++) { double c[2], h, d[2], g; table(p[j - 1], p[j], c, h); for (int q = 0; q < 2; q++) ok(near(par[q][j], clip(c[q], lo, hi)), "conditional probability"); for (int l = j + 1; l < n; l++) { table(p[j - 1], p[l], d, g); ok(h <= g + 1e-9, "component has not the smallest conditional entropy"); } } };
      int last = -1; f.iteration = [&] { return a.it(); }; f.hook = [&](int i) { if (i == 0) { for (auto& q : a.par()) for (double v : q) eq(v, 0.5, "initial probability"); } else check(i - 1); last = i; }; a.set_num_iterations(15); a.maximize({&f}); check(last); }
  }
}
// moves to the conditional mean given the model: frequencies of the samples of MIMIC
static void mimic_samples()
{
  struct S: OpenMimic { using OpenMimic::OpenMimic; void draw(bv& x) { sample(x); } };
  for (int r = 0; r < 6; r++) { int n = rnd(2, 6); Spy f(n); S a(n, 20); a.set_selection_size(6); f.iteration = [&] { return a.it(); }; f.hook = [](int) {}; at("Mimic::sample", f.t); a.set_num_iterations(3); a.maximize({&f}); std::vector<Z> z(n); bv x(n); for (int s = 0; s < 6000; s++) { a.draw(x); ok(valid(x), "invalid bit vector sampled"); for (int i = 0; i < n; i++) z[i].add(x[a.perm()[i]], a.par()[i ? x[a.perm()[i - 1]] : 1][i]); } for (auto& q : z) q.check("sample"); }
}
template <class G> void boltzmann(const char* name)
{
  for (int r = 0; r < (thorough ? 120 : 24); r++) {
    int n = rnd(2, 7), N = rnd(2, 9), mu = rnd(1, N); double rate = rndd(0, 1); bool nps = rnd(0, 1); int mode = r % 3, reset = rnd(0, 2); Spy f(n); OpenBm<G> a(n, N); a.set_selection_size(mu); a.set_learning_rate(rate); a.set_negative_positive_selection(nps); a.set_sampling_mode(mode); a.set_reset_mode(reset); a.set_num_gs_steps(rnd(1, 20)); a.set_num_gs_cycles(rnd(1, 3));
    at(name, f.t, N, mu, rate, nps, mode, reset); M prev(n, std::vector<double>(n)); int last = -1;
    auto check = [&](int i) { auto b = f.best(i, mu), w = nps ? f.worst(i, mu) : f.best(i, N); prev = lin(1, prev, rate, lin(1.0 / b.size(), moment(b), -1.0 / w.size(), moment(w))); same(a.par(), prev, true, "model parameters"); };
    f.iteration = [&] { return a.it(); }; f.hook = [&](int i) { if (i) check(i - 1); else same(a.par(), prev, true, "initial model parameters"); last = i; }; a.set_num_iterations(12); a.maximize({&f}); check(last);
  }
}
template <class H> void hea(const char* name)
{
  for (int r = 0; r < (thorough ? 120 : 24); r++) {
    int n = rnd(2, 7), N = rnd(2, 9), mu = rnd(1, N), T = 8; double rate = rndd(0, 1), mg = rnd(0, 2) ? 1.0 / n : rndd(0, 0.5); bool bound = rnd(0, 2); Spy f(n); Open<Hea<H>> a(n, N); a.set_selection_size(mu); a.set_learning_rate(rate); a.set_margin(mg); a.set_bound_moment(bound); a.set_reset_period(rnd(0, 3)); a.set_randomize_bit_order(rnd(0, 1)); a.set_log_target(true);
    at(name, f.t, N, mu, rate, mg, bound); f.iteration = [&] { return a.it(); }; f.hook = [](int) {};
    std::ostringstream o; o.precision(17); std::streambuf* s = std::cout.rdbuf(o.rdbuf()); auto pr = std::cout.precision(17); a.set_num_iterations(T); a.maximize({&f}); std::cout.rdbuf(s); std::cout.precision(pr);
    std::istringstream in(o.str()); M t(n, std::vector<double>(n));
    for (int i = 0; i < T; i++) {
      auto b = f.best(i, mu); t = lin(1 - rate, t, rate, scale(moment(b), 1.0 / mu)); if (bound) for (auto& row : t) for (auto& v : row) v = clip(v, mg - 1, 1 - mg);
      M g(n, std::vector<double>(n)); for (auto& row : g) for (auto& v : row) in >> v; ok(bool(in), "no target moment logged");
      for (int u = 0; u < n; u++) for (int v = 0; v < n; v++) { if (std::fabs(g[u][v] - t[u][v]) > 1e-6) fail_now("target moment after iteration " + str(i) + "entry " + str(u, v) + "is " + str(g[u][v]) + "expected " + str(t[u][v])); if (bound) ok(std::fabs(g[u][v]) <= 1 - mg + 1e-9, "moment closer to the bounds than the margin"); }
      t = g;
    }
  }
}
#endif
int main(int argc, char** argv)
{
  init(argc, argv);
  vectors();
  moments<TriangularMoment>("TriangularMoment"); moments<FullMoment>("FullMoment");
  gibbs<TriangularMomentGibbsSampler>("TriangularMomentGibbsSampler"); gibbs<FullMomentGibbsSampler>("FullMomentGibbsSampler");
  herding<TriangularMomentHerding>("TriangularMomentHerding"); herding<FullMomentHerding>("FullMomentHerding");
#ifndef VH_NO_EXPOSE
  algorithms(); for (auto& q : drawn) { at(q.first.c_str()); q.second.check(q.first.c_str()); } mimic_samples();
  boltzmann<TriangularMomentGibbsSampler>("BmPbil triangular"); boltzmann<FullMomentGibbsSampler>("BmPbil full");
  hea<TriangularMomentHerding>("Hea triangular"); hea<FullMomentHerding>("Hea full");
#endif
  return done();
}
