// Representations: every bit vector decodes into the domain, every value is reached, decoding only reads its slice
#include <limits>
#include "common.hh"
#include <algorithm>
#include <cmath>
#include "hnco/representations/all.hh"
using namespace vh;
using namespace hnco::representation;

// decode w placed at offset `pad` between random bits; the result may not depend on them
template <class R> auto dec(R& r, const bv& w, int pad) {
  bv x = rbv(pad); x.insert(x.end(), w.begin(), w.end()); bv t = rbv(rnd(0, 3)); x.insert(x.end(), t.begin(), t.end());
  bv y = x; auto v = r.unpack(x, pad); if (!(x == y)) fail_now("the bit vector is modified"); return v;
}
template <class R> void slice(R& r) {
  for (int q = 0; q < 6; q++) { bv w = rbv(r.size()); auto a = dec(r, w, rnd(0, 4)), b = dec(r, w, rnd(0, 4)); ok(a == b, "decoding depends on bits outside the slice, slice " + str(w)); }
}
template <class T> void integer(const char* nm, T lo, T hi) {
  DyadicIntegerRepresentation<T> r(lo, hi); const int n = r.size();
  at(nm, "lo", lo, "hi", hi, "bits", n); ok(n > 0 && n < int(8 * sizeof(T)) + 1, "size " + str(n)); slice(r);
  unsigned long range = (unsigned long)(hi) - (unsigned long)(lo);
  if (n <= 11) { std::set<T> seen; all_bv(n, [&](const bv& w) { T v = dec(r, w, rnd(0, 2)); if (v < lo || v > hi) fail_now("out of domain: " + str(v, w)); seen.insert(v); });
    eq(seen.size(), size_t(range) + 1, "number of values reached"); }
  // weight of each bit, then encode chosen values
  ok(dec(r, bv(n, 0), 1) == lo, "zero does not decode into the lower bound");
  std::map<unsigned long, int> wt;
  for (int i = 0; i < n; i++) { bv e(n, 0); e[i] = 1; T v = dec(r, e, 0); if (v < lo || v > hi) fail_now("out of domain: " + str(v)); wt[(unsigned long)(v) - (unsigned long)(lo)] = i; }
  auto enc = [&](unsigned long u, T want) { bv w(n, 0); unsigned long rest = u; for (auto it = wt.rbegin(); it != wt.rend(); ++it) if (it->first && it->first <= rest) { w[it->second] = 1; rest -= it->first; }
    T v = dec(r, w, rnd(0, 2)); if (v < lo || v > hi) fail_now("out of domain: " + str(v)); if (rest || v != want) fail_now("value not reached: " + str(want)); };
  enc(range, hi); enc(range - 1, hi - 1); enc(1, lo + 1);
  for (int q = 0; q < 5; q++) { unsigned long u = ((unsigned long)(rng()) << 32 | rng()) % range; enc(u, T((unsigned long)(lo) + u)); }
  for (int q = 0; q < 5; q++) { T v = dec(r, q ? rbv(n) : bv(n, 1), 1); if (v < lo || v > hi) fail_now("out of domain: " + str(v)); }
  // fewer bits: still in the domain, evenly spread from the lower bound
  int s = rnd(1, n + 3); if (s < int(8 * sizeof(T))) { DyadicIntegerRepresentation<T> q(lo, hi, s); at("DyadicIntegerRepresentation(size)", "lo", lo, "hi", hi, "size", s); eq(q.size(), std::min(s, n), "size"); slice(q);
    ok(dec(q, bv(q.size(), 0), 0) == lo, "lower bound"); if (s >= n) ok(dec(q, bv(q.size(), 1), 0) == hi, "upper bound");
    for (int k = 0; k < 8; k++) { bv w = rbv(q.size()); T v = dec(q, w, 1); if (v < lo || v > hi) fail_now("out of domain: " + str(v)); unsigned long d = (unsigned long)(v) - (unsigned long)(lo); if (v != hi && s < n && (d & ((1ul << (n - s)) - 1))) fail_now("not a multiple of the step: " + str(v, w)); } }
  int p = rnd(1, 2) == 1 ? rnd(1, 9) : rnd(1, 1 << 20); DyadicIntegerRepresentation<T> c(lo, hi, typename DyadicIntegerRepresentation<T>::Precision(p)); at("DyadicIntegerRepresentation(precision)", "lo", lo, "hi", hi, "precision", p);
  ok(c.size() >= 1 && c.size() <= n, "size"); slice(c);
  if (c.size() <= 10) { std::set<T> seen; all_bv(c.size(), [&](const bv& w) { T v = dec(c, w, 0); if (v < lo || v > hi) fail_now("out of domain: " + str(v)); seen.insert(v); });
    T prev = lo; ok(seen.count(lo) == 1, "lower bound not reached"); for (T v : seen) { if (c.size() > 1) ok((unsigned long)(v) - (unsigned long)(prev) <= (unsigned long)(p), "gap larger than the precision"); prev = v; } if (c.size() > 1) ok((unsigned long)(hi) - (unsigned long)(prev) <= (unsigned long)(p), "gap larger than the precision at the end"); }
}
template <class R> void category(const char* nm, int n, int limit) {
  R r(n); at(nm, n, "bits", r.size()); slice(r); std::set<size_t> seen;
  if (r.size() <= limit) all_bv(r.size(), [&](const bv& w) { size_t v = dec(r, w, rnd(0, 1)); if (v >= size_t(n)) fail_now("out of domain: " + str(v, w)); seen.insert(v); });
  else for (int i = -1; i < r.size(); i++) { bv w(r.size(), 0); if (i >= 0) w[i] = 1; size_t v = dec(r, w, rnd(0, 1)); if (v >= size_t(n)) fail_now("out of domain: " + str(v)); seen.insert(v); v = dec(r, rbv(r.size()), 0); if (v >= size_t(n)) fail_now("out of domain: " + str(v)); }
  eq(seen.size(), size_t(n), "number of categories reached");
}

int main(int argc, char** argv)
{
  init(argc, argv);
  const int R = thorough ? 4000 : 700;
  for (int lo = -9; lo <= 3; lo++) for (int hi = lo + 1; hi < lo + 40; hi++) integer<int>("DyadicIntegerRepresentation<int>", lo, hi);
  for (int r = 0; r < R; r++) {
    int k = rnd(1, 30); long d = (1L << k) + rnd(-2, 2); if (d < 1) d = 1; long lo = r % 3 == 0 ? 0 : r % 3 == 1 ? -d / 2 : rnd(-1000, 1000); if (lo + d <= 2147483647L) integer<int>("DyadicIntegerRepresentation<int>", int(lo), int(lo + d));
    k = rnd(1, 62); d = (1L << k) + rnd(-2, 2); if (d < 1) d = 1; if (r % 5 == 0) d = long(((unsigned long)(rng()) << 32 | rng()) >> rnd(1, 60)) + 1; lo = r % 3 == 0 ? 0 : r % 3 == 1 ? -d / 2 : rnd(-1000, 1000); if (d < (1L << 62)) integer<long>("DyadicIntegerRepresentation<long>", lo, lo + d);
  }
  integer<int>("DyadicIntegerRepresentation<int>", 0, 2147483647); integer<int>("DyadicIntegerRepresentation<int>", -2147483647, -1); integer<int>("DyadicIntegerRepresentation<int>", -1000, 2147483647 - 1000);
  for (int n = 2; n < 200; n++) { DyadicIntegerRepresentation<int> r(n), s(0, n - 1); at("DyadicIntegerRepresentation(n)", n); eq(r.size(), s.size(), "size"); for (int q = 0; q < 20; q++) { bv w = q ? rbv(r.size()) : bv(r.size(), 1); eq(dec(r, w, 0), dec(s, w, 1), "value"); } }
  // floating point
  for (int r = 0; r < R; r++) {
    double lo = r % 4 == 0 ? 0 : rnd(-1000, 1000) / 8., len = r % 4 < 2 ? rnd(1, 64) / 4. : rndd(1e-3, 1e6), hi = lo + len; len = hi - lo; int n = rnd(1, r % 20 ? 9 : 52);
    DyadicFloatRepresentation<double> f(lo, hi, n); at("DyadicFloatRepresentation(size)", "lo", lo, "hi", hi, "size", n); eq(f.size(), n, "size"); slice(f);
    auto check = [&](DyadicFloatRepresentation<double>& f, int n) {
      auto in = [&](const bv& w) { double v = dec(f, w, rnd(0, 2)); if (!(v >= lo && v < hi) && !(v == hi && n > 40)) fail_now("out of domain: " + str(v, w)); return v; };
      if (n <= 10) { std::vector<double> vs; all_bv(n, [&](const bv& w) { vs.push_back(in(w)); }); std::sort(vs.begin(), vs.end());
        for (size_t i = 0; i < vs.size(); i++) { double want = lo + len * (double(i) / vs.size()); ok(std::abs(vs[i] - want) <= 1e-12 * (std::abs(lo) + len), "grid point not reached: " + str(want, vs[i])); } }
      else { in(bv(n, 1)); in(bv(n, 0)); for (int q = 0; q < 10; q++) in(rbv(n)); } };
    check(f, n);
    double pr = len * rndd(1e-6, 0.9); if (r % 3 == 0) pr = len / (1 << rnd(1, 9)); DyadicFloatRepresentation<double> g(lo, hi, pr); at("DyadicFloatRepresentation(precision)", "lo", lo, "hi", hi, "precision", pr); slice(g);
    ok(g.size() > 0 && len / std::ldexp(1., g.size()) <= pr * (1 + 1e-9), "the step is larger than the precision"); check(g, g.size());
  }
  // categories
  for (int n = 2; n <= (thorough ? 300 : 130); n++) category<IntegerCategoricalRepresentation>("IntegerCategoricalRepresentation", n, 16);
  for (int n = 2; n <= 40; n++) {
    category<LinearCategoricalRepresentation>("LinearCategoricalRepresentation", n, n <= 8 || thorough ? 15 : 0);
    LinearCategoricalRepresentation r(n); if (!(n & (n - 1))) for (int q = 0; q < 50; q++) { bv a = rbv(r.size()), b = rbv(r.size()), c(r.size()); for (int i = 0; i < r.size(); i++) c[i] = a[i] ^ b[i]; at("LinearCategoricalRepresentation linear", n, a, b); eq(dec(r, c, 0), dec(r, a, 1) ^ dec(r, b, 2), "linear"); }
  }
  // value sets
  for (int r = 0; r < R; r++) {
    int n = rnd(2, 40); std::vector<double> v(n); for (auto& x : v) x = r % 2 ? rnd(-50, 50) : rndd(-1, 1); std::set<double> want(v.begin(), v.end()), seen;
    ValueSetRepresentation<double> s(v); at("ValueSetRepresentation", v); slice(s); all_bv(s.size(), [&](const bv& w) { double x = dec(s, w, rnd(0, 1)); if (!want.count(x)) fail_now("not in the set: " + str(x)); seen.insert(x); }); eq(seen.size(), want.size(), "number of values reached");
  }
  // complex numbers: two consecutive slices
  for (int r = 0; r < R; r++) {
    int a = rnd(1, 6), b = rnd(1, 6); DyadicFloatRepresentation<double> re(rnd(-5, 0), rnd(1, 9), a), im(rnd(-5, 0), rnd(1, 9), b); ComplexRepresentation<DyadicFloatRepresentation<double>> c(re, im), d(re);
    at("ComplexRepresentation", a, b); eq(c.size(), a + b, "size"); eq(d.size(), 2 * a, "size"); slice(c); slice(d);
    for (int q = 0; q < 10; q++) { bv w = rbv(a + b); auto z = dec(c, w, q % 3); eq(z.real(), dec(re, bv(w.begin(), w.begin() + a), 0), "real part"); eq(z.imag(), dec(im, bv(w.begin() + a, w.end()), 0), "imaginary part");
      w = rbv(2 * a); z = dec(d, w, q % 3); eq(z.real(), dec(re, bv(w.begin(), w.begin() + a), 0), "real part"); eq(z.imag(), dec(re, bv(w.begin() + a, w.end()), 0), "imaginary part"); }
  }
  // permutations
  for (int r = 0; r < R; r++) {
    int n = r < 100 ? rnd(1, 4) : rnd(1, 40), more = rnd(1, 4); PermutationRepresentation p(n, more); const int e = p.size() / n, pad = rnd(0, 4);
    at("PermutationRepresentation", n, more, "bits", p.size()); eq(p.get_num_elements(), n, "number of elements"); eq(p.size(), n * e, "size"); ok((1l << e) >= n, "too few bits per element");
    hnco::permutation_t q(n); for (auto& x : q) x = rnd(-3, 70);
    auto run = [&](const std::vector<int>& code) { bv x = rbv(pad); for (int c : code) { bv w = from_int(e, c); x.insert(x.end(), w.begin(), w.end()); } bv t = rbv(rnd(0, 3)); x.insert(x.end(), t.begin(), t.end()); p.unpack(x, pad, q);
      eq(int(q.size()), n, "size of the permutation"); std::vector<bool> seen(n); for (int v : q) { if (v < 0 || v >= n || seen[v]) fail_now("not a permutation: " + str(q)); seen[v] = true; }
      for (int i = 0; i + 1 < n; i++) if (code[q[i]] > code[q[i + 1]]) fail_now("not sorted by code: " + str(code, q)); };
    for (int k = 0; k < 5; k++) { std::vector<int> code(n); for (auto& c : code) c = rnd(0, k < 2 ? 1 : (1 << e) - 1); run(code); }
    std::vector<int> target(n), code(n); for (int i = 0; i < n; i++) target[i] = i; std::shuffle(target.begin(), target.end(), rng); for (int i = 0; i < n; i++) code[target[i]] = i; run(code); eq(std::vector<int>(q.begin(), q.end()), target, "permutation not reached");
  }
  // ties are broken at random
  { PermutationRepresentation p(2, 1); int first = 0; hnco::permutation_t q(2); for (int i = 0; i < 400; i++) { at("PermutationRepresentation ties", i); p.unpack(bv(p.size(), i % 2), 0, q); first += q[0]; } ok(first > 100 && first < 300, "ties are not broken at random: " + str(first)); }
  return done();
}
