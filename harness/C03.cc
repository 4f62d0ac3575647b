// Transvections
#include "common.hh"
#include "hnco/bit-matrix.hh"
#include "hnco/maps/transvection.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::map;
using bm = bit_matrix_t;
using ts_t = transvection_sequence_t;
namespace vh { inline std::string sh(const ts_t& s) { std::string r = "{"; for (auto& t : s) r += "(" + std::to_string(t.row_index) + "," + std::to_string(t.column_index) + ")"; return r + "}"; } }
static Transvection tv(int r, int c) { Transvection t; t.row_index = r; t.column_index = c; return t; }
static bm mat(const Transvection& t, int n) { bm m(n, bv(n, 0)); for (int i = 0; i < n; i++) m[i][i] = 1; m[t.row_index][t.column_index] = 1; return m; }
static bv mulv(const bm& m, const bv& x) { bv y(m.size()); for (size_t i = 0; i < m.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s += m[i][j] * x[j]; y[i] = s % 2; } return y; }
static bm mulm(const bm& a, const bm& b) { bm c(a.size(), bv(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) { int s = 0; for (size_t k = 0; k < b.size(); k++) s += a[i][k] * b[k][j]; c[i][j] = s % 2; } return c; }
static bm rbm(int r, int c) { bm m(r); for (auto& x : m) x = rbv(c); return m; }
static bool vld(const Transvection& t, int n) { return t.row_index >= 0 && t.column_index >= 0 && t.row_index != t.column_index && t.row_index < n && t.column_index < n; }
static bool commute(const Transvection& a, const Transvection& b) { return a.row_index != b.column_index && b.row_index != a.column_index; }

static void app(const ts_t& s, int n)
{
  bv x = rbv(n), w = x; bm m = rbm(n, rnd(1, 6)), wm = m;
  for (auto& t : s) { w = mulv(mat(t, n), w); wm = mulm(mat(t, n), wm); }
  at("ts_multiply(vector)", n, sh(s), x); bv y = x; ts_multiply(y, s); eq(y, w, "product");
  at("ts_multiply(matrix)", n, sh(s), m); bm z = m; ts_multiply(z, s); eq(z, wm, "product");
  at("ts_invert", n, sh(s), x); ts_t i = s; ts_invert(i); eq(i.size(), s.size(), "length"); ts_multiply(y, i); eq(y, x, "inverse undoes"); ts_multiply(z, i); eq(z, m, "inverse undoes on matrices");
}
template <class F> static ts_t gen(const char* name, int n, int t, int pre, F f)
{
  ts_t s(pre, tv(n + 3, n + 4)); at(name, n, t, pre); f(s, n, t); at(name, n, t, pre, sh(s));
  for (auto& v : s) ok(vld(v, n), "valid");
  ok(ts_is_valid(s) && ts_is_valid(s, n), "declared valid"); app(s, n); return s;
}
int main(int argc, char** argv)
{
  init(argc, argv);
  std::cerr.setstate(std::ios::failbit);
  for (int n = 1; n <= 6; n++) for (int r = -2; r <= n + 1; r++) for (int c = -2; c <= n + 1; c++) {
    Transvection t = tv(r, c); at("Transvection::is_valid", n, r, c); eq(t.is_valid(), r >= 0 && c >= 0 && r != c, "validity"); eq(t.is_valid(n), vld(t, n), "validity for dimension");
    at("ts_is_valid", n, r, c); eq(ts_is_valid(ts_t{tv(0, 1), t}), r >= 0 && c >= 0 && r != c, "sequence validity"); if (n > 1) { eq(ts_is_valid(ts_t{tv(0, 1), t, tv(1, 0)}, n), vld(t, n), "sequence validity for dimension"); }
    if (!vld(t, n)) continue;
    all_bv(n, [&](bv x) { at("Transvection::multiply(vector)", n, r, c, x); bv y = x; t.multiply(y); eq(y, mulv(mat(t, n), x), "product"); });
    for (int k = 0; k < 3; k++) { bm m = rbm(n, rnd(1, 7)); at("Transvection::multiply(matrix)", n, r, c, m); bm z = m; t.multiply(z); eq(z, mulm(mat(t, n), m), "product"); }
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { if (a == b) continue; Transvection u = tv(a, b); at("transvections_commute", n, r, c, a, b);
      eq(transvections_commute(t, u), mulm(mat(t, n), mat(u, n)) == mulm(mat(u, n), mat(t, n)), "commute iff the matrices do");
      at("transvections_are_disjoint", n, r, c, a, b); eq(transvections_are_disjoint(t, u), std::set<int>({r, c, a, b}).size() == 4, "disjoint iff four indices"); }
    if (n > 1) for (int k = 0; k < 10; k++) { Transvection u; at("Transvection::random_non_commuting", n, r, c); u.random_non_commuting(n, t); ok(vld(u, n), "valid"); ok(!commute(u, t), "does not commute"); }
  }
  ok(ts_is_valid(ts_t()), "empty sequence"); 
  for (int k = 0; k < (thorough ? 20000 : 3000); k++) {
    int n = rnd(2, k % 7 ? 12 : 70), t = rnd(0, k % 3 ? 12 : n * n / 3 + 2), pre = k % 4 ? 0 : rnd(1, 5);
    { Transvection u; at("Transvection::random", n); u.random(n); ok(vld(u, n), "valid"); }
    ts_t s;
    s = gen("ts_random", n, t, pre, ts_random); eq(int(s.size()), t, "length");
    s = gen("ts_random_non_commuting", n, t, pre, ts_random_non_commuting); eq(int(s.size()), t, "length"); for (size_t i = 1; i < s.size(); i++) ok(!commute(s[i - 1], s[i]), "consecutive ones do not commute");
    s = gen("ts_random_commuting", n, t, pre, ts_random_commuting); int kk = n / 2, mx = n % 2 ? kk * (kk + 1) : kk * kk; eq(int(s.size()), std::min(t, mx), "length");
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < s.size(); j++) ok(commute(s[i], s[j]), "all commute");
    { std::set<std::pair<int, int>> d; for (auto& v : s) d.insert({v.row_index, v.column_index}); eq(d.size(), s.size(), "distinct"); }
    s = gen("ts_random_unique_source", n, t, pre, ts_random_unique_source); eq(int(s.size()), std::min(t, n - 1), "length");
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) ok(s[i].row_index != s[j].row_index && commute(s[i], s[j]), "unique source");
    s = gen("ts_random_unique_destination", n, t, pre, ts_random_unique_destination); eq(int(s.size()), std::min(t, n - 1), "length");
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) ok(s[i].column_index != s[j].column_index && commute(s[i], s[j]), "unique destination");
    s = gen("ts_random_disjoint", n, t, pre, ts_random_disjoint); eq(int(s.size()), std::min(t, n / 2), "length");
    for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) eq(int(std::set<int>({s[i].row_index, s[i].column_index, s[j].row_index, s[j].column_index}).size()), 4, "disjoint");
  }
  // every transvection can be drawn
  for (int n = 2; n <= 5; n++) { std::set<std::pair<int, int>> d, e; at("Transvection::random", n, "support"); for (int k = 0; k < 2000; k++) { Transvection u; u.random(n); d.insert({u.row_index, u.column_index}); } eq(int(d.size()), n * (n - 1), "every transvection can be drawn");
    at("Transvection::random_non_commuting", n, "support"); Transvection t = tv(0, 1); for (int k = 0; k < 2000; k++) { Transvection u; u.random_non_commuting(n, t); e.insert({u.row_index, u.column_index}); } int c = 0; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) c += a != b && !commute(t, tv(a, b)); eq(int(e.size()), c, "every transvection not commuting with the given one can be drawn");
    d.clear(); at("ts_random_commuting", n, "support"); for (int k = 0; k < 2000; k++) { ts_t s; ts_random_commuting(s, n, 2); for (auto& u : s) d.insert({u.row_index, u.column_index}); } eq(int(d.size()), n * (n - 1), "every transvection can be drawn"); }
  return done();
}
