// Bit matrices over GF(2)
#include "common.hh"
#include "hnco/bit-matrix.hh"
using namespace vh;
using namespace hnco;
using bm = bit_matrix_t;

static bm rbm(int r, int c) { bm m(r); for (auto& x : m) x = rbv(c); return m; }
static bv mulv(const bm& m, const bv& x) { bv y(m.size()); for (size_t i = 0; i < m.size(); i++) { int s = 0; for (size_t j = 0; j < x.size(); j++) s += m[i][j] * x[j]; y[i] = s % 2; } return y; }
static bm mulm(const bm& a, const bm& b) { bm c(a.size(), bv(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) { int s = 0; for (size_t k = 0; k < b.size(); k++) s += a[i][k] * b[k][j]; c[i][j] = s % 2; } return c; }
static bm id(int n) { bm m(n, bv(n, 0)); for (int i = 0; i < n; i++) m[i][i] = 1; return m; }
// independent oracle: rank by column-greedy reduction on a copy
static int rank_of(bm a) { int r = 0; const int R = a.size(), C = a[0].size();
  for (int c = C - 1; c >= 0 && r < R; c--) { int p = -1; for (int i = r; i < R; i++) if (a[i][c]) p = i; if (p < 0) continue; std::swap(a[p], a[r]);
    for (int i = 0; i < R; i++) if (i != r && a[i][c]) for (int k = 0; k < C; k++) a[i][k] ^= a[r][k]; r++; } return r; }
static bool in_rowspace(const bm& a, const bv& v) { bm b = a; b.push_back(v); return rank_of(b) == rank_of(a); }

static void check(const bm& m)
{
  const int R = m.size(), C = m[0].size();
  at("bm_is_valid", m); ok(bm_is_valid(m), "valid matrix");
  at("bm_num_rows", m); eq(bm_num_rows(m), R, "rows"); eq(bm_num_columns(m), C, "columns"); eq(bm_is_square(m), R == C, "square");
  at("bm_is_identity", m); eq(bm_is_identity(m), R == C && m == id(R), "identity test");
  bool up = true; for (int i = 0; i < R; i++) for (int j = 0; j < i && j < C; j++) up = up && !m[i][j];
  at("bm_is_upper_triangular", m); eq(bm_is_upper_triangular(m), up, "upper triangular test");
  bm t(C, bv(R)); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) t[j][i] = m[i][j];
  at("bm_transpose", m); eq(bm_transpose(m), t, "transpose"); { bm n = rbm(C, R); bm_transpose(n, m); eq(n, t, "transpose into"); }
  for (int k = 0; k < 3; k++) { bv x = rbv(C), y = rbv(R); at("bm_multiply", m, x); bm_multiply(y, m, x); eq(y, mulv(m, x), "product"); }
  { at("bm_clear", m); bm d = m; bm_clear(d); eq(d, bm(R, bv(C, 0)), "all zero"); }
  { int r = rnd(1, R + 2), c = rnd(1, C + 2); at("bm_resize", m, r, c); bm d = m; bm_resize(d, r, c); bm w(r, bv(c, 0));
    for (int i = 0; i < r && i < R; i++) for (int j = 0; j < c && j < C; j++) w[i][j] = m[i][j]; eq(d, w, "resized"); }
  { at("bm_random", m); bm d = m; bm_random(d); eq(int(d.size()), R, "rows"); for (auto& x : d) ok(int(x.size()) == C && valid(x), "row"); }
  { int j = rnd(0, C - 1); bv x = rbv(R); at("bm_set_column", m, j, x); bm d = m, w = m; for (int i = 0; i < R; i++) w[i][j] = x[i]; bm_set_column(d, j, x); eq(d, w, "column"); }
  { int i = rnd(0, R - 1), j = rnd(0, R - 1); at("bm_swap_rows", m, i, j); bm d = m, w = m; std::swap(w[i], w[j]); bm_swap_rows(d, i, j); eq(d, w, "rows swapped");
    if (i != j) { at("bm_add_rows", m, i, j); d = m; w = m; for (int k = 0; k < C; k++) w[i][k] = (m[i][k] + m[j][k]) % 2; bm_add_rows(d, i, j); eq(d, w, "row added"); } }
  { int i = rnd(0, C - 1), j = rnd(0, C - 1); if (i != j) { at("bm_add_columns", m, i, j); bm d = m, w = m; for (int k = 0; k < R; k++) w[k][i] = (m[k][i] + m[k][j]) % 2; bm_add_columns(d, i, j); eq(d, w, "column added"); } }
  { std::ostringstream o; at("bm_display", m); bm_display(m, o); std::string w; for (auto& r : m) { for (auto b : r) w += b ? '1' : '0'; w += "\n"; } eq(o.str(), w, "text"); }
  const int rk = rank_of(m);
  { at("bm_row_echelon_form", m); bm e = m; bm_row_echelon_form(e); eq(int(e.size()), R, "rows"); 
    int prev = -1; bool zero = false;
    for (auto& r : e) { ok(int(r.size()) == C && valid(r), "row"); int p = 0; while (p < C && !r[p]) p++; if (p == C) zero = true; else { ok(!zero && p > prev, "echelon"); prev = p; } }
    for (auto& r : e) ok(in_rowspace(m, r), "row space"); eq(rank_of(e), rk, "row space kept");
    at("bm_rank", m); eq(bm_rank(e), rk, "rank"); }
  if (R == C) {
    const int n = R; bv b = rbv(n);
    { at("bm_solve", m, b); bm a = m; bv x = b; bool s = bm_solve(a, x); eq(s, rk == n, "unique solution iff invertible"); if (s) { eq(mulv(m, x), b, "solution"); ok(a == id(n), "identity left"); } }
    { at("bm_invert", m); bm a = m, inv = rbm(n, n); bool s = bm_invert(a, inv); eq(s, rk == n, "invertible"); if (s) { eq(mulm(m, inv), id(n), "right inverse"); eq(mulm(inv, m), id(n), "left inverse"); ok(a == id(n), "identity left"); } }
    { bm u = m; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) u[i][j] = 0; at("bm_solve_upper_triangular", u, b); bm a = u; bv x = b; bool s = bm_solve_upper_triangular(a, x);
      eq(s, rank_of(u) == n, "unique solution iff invertible"); if (s) { eq(mulv(u, x), b, "solution"); ok(a == id(n), "identity left"); } }
    { bm u = m; for (int i = 0; i < n; i++) { u[i][i] = 1; for (int j = 0; j < i; j++) u[i][j] = 0; } at("bm_solve_upper_triangular", u, b); bm a = u; bv x = b; ok(bm_solve_upper_triangular(a, x), "unit triangular"); eq(mulv(u, x), b, "solution"); }
  }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  for (int r = 1; r <= 4; r++) for (int c = 1; c <= 4; c++) { if (r * c > (thorough ? 16 : 12)) continue;
    for (unsigned long u = 0; u < (1ul << (r * c)); u++) { bm m(r, bv(c)); for (int i = 0; i < r * c; i++) m[i / c][i % c] = (u >> i) & 1; check(m); } }
  for (int k = 0; k < (thorough ? 20000 : 2500); k++) {
    int r = rnd(1, k % 10 ? 9 : 40), c = k % 2 ? r : rnd(1, 12); bm m = rbm(r, c);
    if (k % 3 == 0 && r > 1) for (int q = 0; q < 2; q++) { int i = rnd(0, r - 1), j = rnd(0, r - 1); if (q == 0) m[i] = m[j]; else m[i] = bv(c, 0); }   // singular ones
    if (k % 5 == 0) for (auto& x : m) for (auto& b : x) if (rnd(0, 3)) b = 0;
    check(m); }
  for (int n = 1; n <= 12; n++) { at("bm_identity", n); eq(bm_identity(n), id(n), "identity"); bm d = rbm(n, n); bm_identity(d); eq(d, id(n), "identity in place"); ok(bm_is_identity(id(n)), "recognized");
    eq(bm_square(n), bm(n, bv(n, 0)), "square"); eq(bm_rectangular(n, n + 1), bm(n, bv(n + 1, 0)), "rectangular"); check(id(n));
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { bm m = id(n); m[i][j] ^= 1; at("bm_is_identity", m); ok(!bm_is_identity(m), "not the identity"); check(m); } }
  for (int k = 0; k < 300; k++) { int r = rnd(1, 4), c = rnd(1, 4); bm m = rbm(r, c); int i = rnd(0, r - 1);
    if (k % 2) m[i][rnd(0, c - 1)] = 2; else if (r > 1) { m[i].push_back(0); } else continue; at("bm_is_valid", m); ok(!bm_is_valid(m), "not valid"); }
  at("bm_is_valid", "empty"); ok(!bm_is_valid(bm()), "empty"); ok(!bm_is_valid(bm(2)), "no column");
  return done();
}
