// Benchmark functions: value at every point
#include "funcs.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
static void one(Inst& i, const bv& x)
{
  at(i.name.c_str(), i.par.substr(0, 1500), x);
  bv y = x; double got = i.f->evaluate(y);
  double want = i.want(x);
  if (!close(got, want)) fail_now("got " + str(got) + " expected " + str(want));
  eq(y, x, "argument unchanged");
  double again = i.f->evaluate(y); if (!(again == got)) fail_now("second evaluation of the same point: got " + str(again) + " expected " + str(got));
}
static std::string slurp(const std::string& p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); return s.str(); }
int main(int argc, char** argv)
{
  init(argc, argv);
  const int T = thorough ? 5 : 1;
  for (int rep = 0; rep < T; rep++) {
    for (int n = 1; n <= 9; n++) for (auto& i : instances(n)) { eq(i.f->get_bv_size(), n, "bit vector size"); all_bv(n, [&](const bv& x) { one(i, x); }); }
    for (int n : {10, 12, 14, 16, 17, 18, 20, 24, 27, 32, 33, 36, 63, 64, 65, 90, 100}) for (auto& i : instances(n)) {
      at(i.name.c_str(), i.par.substr(0, 300)); eq(i.f->get_bv_size(), n, "bit vector size");
      for (int k = 0; k < 40 * T; k++) one(i, rbv(n));
      bv z(n, 0), o(n, 1); one(i, z); one(i, o); for (int k = 0; k < n; k++) { bv x = z; x[k] = 1; one(i, x); x = o; x[k] = 0; one(i, x); bv y(n, 0); for (int j = 0; j < k; j++) y[j] = 1; one(i, y); bv w(n, 1); for (int j = 0; j < k; j++) w[j] = 0; one(i, w); y[rnd(0, n - 1)] ^= 1; one(i, y); }
      if (i.name == "LongPath") { int k = 0; for (int d = 2; d <= n; d++) if (str("n", n) + str("prefix", d) == i.par) k = d; auto p = long_path(n, k); for (size_t a = 0; a < p.size(); a += std::max<size_t>(1, p.size() / 200)) { bv x(n); for (int j = 0; j < n; j++) x[j] = p[a][j] == '1'; one(i, x); x[rnd(0, n - 1)] ^= 1; one(i, x); } }
      if (n % 2 == 0) for (int k = 0; k < 20; k++) { bv x(n); int b = 1 << rnd(0, 4); for (int j = 0; j < n; j++) x[j] = j % b ? x[j - 1] : rnd(0, 1); one(i, x); } }
    // instance reuse with different sizes
    { LinearFunction f; WalshExpansion1 w1; WalshExpansion2 w2; NearestNeighborIsingModel1 i1; NearestNeighborIsingModel2 i2; Partition p;
      for (int k = 0; k < 30; k++) { int n = rnd(1, 12); bv x = rbv(n); at("generate", n, x, k);
        auto g = gen(); f.generate(n, g); double s = 0; for (int i = 0; i < n; i++) s += x[i] * (*g.log)[i]; eq(f.evaluate(x), s, "LinearFunction after a new generate");
        auto h = gen(); w1.generate(n, h); s = 0; for (int i = 0; i < n; i++) s += spin(x[i]) * (*h.log)[i]; eq(w1.evaluate(x), s, "WalshExpansion1 after a new generate");
        auto a = gen(1, 50); p.generate(n, a); s = 0; for (int i = 0; i < n; i++) s += spin(x[i]) * (*a.log)[i]; eq(p.evaluate(x), -std::fabs(s), "Partition after a new generate");
        auto b = gen(), c = gen(); i1.generate(n, b, c); s = 0; for (int i = 0; i < n; i++) { if (i + 1 < n) s += (*b.log)[i] * spin(x[i]) * spin(x[i + 1]); s += (*c.log)[i] * spin(x[i]); } eq(i1.evaluate(x), s, "Ising model 1 after a new generate");
        auto d = gen(), e = gen(); w2.generate(n, d, e); s = 0; int q = 0; for (int i = 0; i < n; i++) { s += (*d.log)[i] * spin(x[i]); for (int j = 0; j < i; j++) s += (*e.log)[q++] * spin(x[i]) * spin(x[j]); } eq(w2.evaluate(x), s, "WalshExpansion2 after a new generate"); } }
    for (int k = 0; k < 10; k++) { NkLandscape f; for (int j = 0; j < 3; j++) { int n = rnd(2, 9), m = rnd(1, n - 1); at("NkLandscape::generate again", n, m, j); auto g = gen(); f.generate(n, m, g); eq(f.get_bv_size(), n, "bit vector size"); eq(long(g.log->size()), long(n) << (m + 1), "number of partial values"); f.evaluate(rbv(n)); } }
    // random instances
    for (int k = 0; k < 60; k++) { int n = rnd(1, 14), m = rnd(1, n), c = rnd(1, 20); MaxSat f; bv sol = rbv(n); bool sat = k % 2; at(sat ? "MaxSat::random(solution)" : "MaxSat::random", n, m, c, sol);
      if (sat) f.random(sol, m, c); else f.random(n, m, c);
      eq(f.get_bv_size(), n, "bit vector size"); f.save(scratch()); std::istringstream in(slurp(scratch())); std::string line; std::vector<std::vector<int>> e;
      while (getline(in, line)) { if (line.empty() || line[0] == 'c' || line[0] == 'p') continue; std::istringstream l(line); int a; e.emplace_back(); while (l >> a && a) e.back().push_back(a); }
      eq(int(e.size()), c, "number of clauses"); for (auto& cl : e) { eq(int(cl.size()), m, "literals per clause"); std::set<int> s; for (int l : cl) { ok(l != 0 && std::abs(l) <= n, "literal " + str(l)); s.insert(std::abs(l)); } eq(int(s.size()), m, "distinct variables per clause"); }
      if (sat) eq(f.evaluate(sol), double(c), "the given solution satisfies every clause");
      for (int j = 0; j < 10; j++) { bv x = rbv(n); double s = 0; for (auto& cl : e) { bool t = false; for (int l : cl) t = t || (l > 0 ? x[l - 1] : !x[-l - 1]); s += t; } eq(f.evaluate(x), s, "number of satisfied clauses"); }
      MaxSat g; g.load(scratch()); for (int j = 0; j < 5; j++) { bv x = rbv(n); eq(g.evaluate(x), f.evaluate(x), "loaded instance"); } }
    for (int k = 0; k < 40; k++) { int n = rnd(2, 12), m = rnd(1, n - 1); NkLandscape f; at("NkLandscape::random", n, m); f.random(n, m); eq(f.get_bv_size(), n, "bit vector size"); std::ostringstream o; f.display(o); std::istringstream in(o.str()); std::string line; int rows = 0;
      while (getline(in, line)) { auto p = line.find("->"); if (p == std::string::npos) continue; std::istringstream l(line.substr(p + 2)); int a, i = atoi(line.c_str()); std::set<int> s; int cnt = 0; while (l >> a) { ok(a >= 0 && a < n, "neighbor"); s.insert(a); cnt++; } eq(cnt, m + 1, "number of neighbors"); eq(int(s.size()), m + 1, "distinct neighbors"); ok(s.count(i), "a bit is its own neighbor"); rows++; }
      eq(rows, n, "rows"); f.evaluate(rbv(n)); }
    for (int k = 0; k < 20; k++) { int n = rnd(1, 12); Partition p; at("Partition::random", n); int ub = rnd(1, 30); p.random(n, ub); std::ostringstream o; p.display(o); eq(p.get_bv_size(), n, "size"); double v = -p.evaluate(bv(n, 0)); ok(v >= n && v <= double(n) * ub, "numbers are in [1..upper bound]"); }
    for (int k = 0; k < 20; k++) { int n = rnd(1, 12), m = rnd(1, 9); WalshExpansion w; at("WalshExpansion::generate", n, m); auto g = gen(); w.generate(n, m, g); eq(w.get_bv_size(), n, "size"); double s = 0; for (double c : *g.log) s += c; eq(int(g.log->size()), m, "number of features"); eq(w.evaluate(bv(n, 0)), s, "value at 0"); }
    // TSP
    for (int n = 1; n <= 8; n++) for (int k = 0; k < 6; k++) { Tsp t; int kind = k % 3; std::vector<std::vector<double>> d(n, std::vector<double>(n)); std::vector<int> X(n), Y(n); for (int i = 0; i < n; i++) { X[i] = rnd(0, 300); Y[i] = rnd(0, 300); }
      if (kind == 0) { auto g = gen(1, 50); t.generate(n, g); size_t q = 0; for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) { d[i][j] = d[j][i] = (*g.log)[q++]; } }
      else { std::ostringstream o; o << "NAME : x\nTYPE : TSP\nCOMMENT : y\nDIMENSION : " << n << "\nEDGE_WEIGHT_TYPE : " << (kind == 1 ? "ATT" : "EUC_2D") << "\nNODE_COORD_SECTION\n"; for (int i = 0; i < n; i++) o << i + 1 << " " << X[i] << " " << Y[i] << "\n"; o << "EOF\n"; t.load(file(o.str()));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) { double dx = X[i] - X[j], dy = Y[i] - Y[j]; if (kind == 2) d[i][j] = int(std::sqrt(dx * dx + dy * dy) + 0.5); else { double r = std::sqrt((dx * dx + dy * dy) / 10.0); int tt = int(r + 0.5); d[i][j] = tt < r ? tt + 1 : tt; } } }
      std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; eq(t.get_num_elements(), n, "number of cities");
      do { at("Tsp", n, kind, X, Y, p); hnco::permutation_t q(p.begin(), p.end()); double s = 0; for (int i = 0; i < n; i++) s += d[p[i]][p[(i + 1) % n]]; eq(t.evaluate(q), -s, "tour length"); if (n > 6) for (int r = 0; r < 50; r++) std::next_permutation(p.begin(), p.end()); } while (std::next_permutation(p.begin(), p.end())); }
    // Sudoku
    for (int k = 0; k < 40; k++) { std::string b; std::vector<int> g(81); int vars = 0; std::string base; for (int i = 0; i < 9; i++) { for (int j = 0; j < 9; j++) { int c = (i * 3 + i / 3 + j) % 9 + 1; if (k % 4 == 3) c = rnd(1, 9); if (rnd(0, k % 5) == 0) { b += '.'; vars++; g[9 * i + j] = 0; } else { b += char('0' + c); g[9 * i + j] = c; } base += char('0' + c); } b += "\n"; }
      Sudoku s; s.load(file(b)); at("Sudoku", b); eq(s.get_num_variables(), vars, "number of variables");
      for (int rep2 = 0; rep2 < 6; rep2++) { std::vector<size_t> x; auto h = g; for (int q = 0; q < 81; q++) if (!g[q]) { int v = rep2 == 0 ? base[q] - '1' : rnd(0, 8); x.push_back(v); h[q] = v + 1; }
        at("Sudoku", b, x); double e = 0; for (int u = 0; u < 27; u++) { int c[10] = {0}; for (int q = 0; q < 9; q++) { int i = u < 9 ? u : u < 18 ? q : (u - 18) / 3 * 3 + q / 3, j = u < 9 ? q : u < 18 ? u - 9 : (u - 18) % 3 * 3 + q % 3; c[h[9 * i + j]]++; } for (int q = 1; q < 10; q++) e += std::abs(c[q] - 1); }
        eq(s.evaluate(x), -e, "number of conflicts"); if (rep2 == 0 && k % 4 != 3) eq(e, 0.0, "a solved grid has no conflict"); } }
    for (int k = 0; k < 20; k++) { Sudoku s; int c = rnd(1, 80); at("Sudoku::random", c); s.random(c); s.save(scratch()); std::string t = slurp(scratch()), u; for (char ch : t) if (ch != '\n') u += ch; eq(int(u.size()), 81, "cells"); int dots = 0; for (int i = 0; i < 81; i++) { dots += u[i] == '.'; for (int j = 0; j < i; j++) if (u[i] != '.' && u[i] == u[j]) { ok(i / 9 != j / 9 && i % 9 != j % 9 && !(i / 27 == j / 27 && i % 9 / 3 == j % 9 / 3), "given digits do not conflict: " + t); } } eq(dots, c, "number of empty cells"); eq(s.get_num_variables(), c, "number of variables"); std::vector<size_t> x(c); for (auto& v : x) v = rnd(0, 8); Sudoku l; l.load(scratch()); eq(s.evaluate(x), l.evaluate(x), "random instance and the same instance saved and loaded"); }
  }
  return done();
}
