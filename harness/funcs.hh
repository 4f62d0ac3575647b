// Instances of every benchmark function with an independently written value.
#pragma once
#include <cmath>
#include <fstream>
#include <memory>
#include "common.hh"
#include "hnco/functions/collection/all.hh"
#include "hnco/functions/collection/factorization.hh"
namespace vh {
using hnco::function::Function;
struct Inst { std::string name, par; std::shared_ptr<Function> f; std::function<double(const bv&)> want; };
inline std::string scratch_dir;
inline std::string scratch() {
  if (scratch_dir.empty()) { char t[] = "/tmp/vhXXXXXX"; scratch_dir = mkdtemp(t); atexit([]{ if (!scratch_dir.empty()) { unlink((scratch_dir + "/i").c_str()); rmdir(scratch_dir.c_str()); } }); }
  return scratch_dir + "/i";
}
inline std::string file(const std::string& s) { auto p = scratch(); std::ofstream o(p); o << s; return p; }
inline bool close(double a, double b) { return a == b || std::fabs(a - b) <= 1e-7 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
inline int lead(const bv& x, int b) { size_t i = 0; while (i < x.size() && x[i] == b) i++; return i; }
inline int trail(const bv& x, int b) { size_t i = 0; while (i < x.size() && x[x.size() - 1 - i] == b) i++; return i; }
inline int spin(int b) { return b ? -1 : 1; }
// weights: integers so that every sum is exact
struct IntGen { std::shared_ptr<std::vector<double>> log; int lo, hi; double operator()() const { double v = rnd(lo, hi); log->push_back(v); return v; } };
inline IntGen gen(int lo = -40, int hi = 40) { return IntGen{std::make_shared<std::vector<double>>(), lo, hi}; }
inline std::vector<std::string> long_path(int n, int k) {
  if (n == 0) return {""};
  auto p = long_path(n - k, k); std::vector<std::string> r;
  for (auto& s : p) r.push_back(std::string(k, '0') + s);
  for (int i = 1; i < k; i++) r.push_back(std::string(k - i, '0') + std::string(i, '1') + p.back());
  for (auto it = p.rbegin(); it != p.rend(); ++it) r.push_back(std::string(k, '1') + *it);
  return r;
}
inline std::string bits(const bv& x) { std::string s; for (auto b : x) s += b ? '1' : '0'; return s; }

inline std::vector<Inst> instances(int n) {
  using namespace hnco::function;
  std::vector<Inst> v;
  auto add = [&](const char* name, std::string par, std::shared_ptr<Function> f, std::function<double(const bv&)> w) { v.push_back({name, str("n", n) + par, f, w}); };
  add("OneMax", "", std::make_shared<OneMax>(n), [](const bv& x) { return double(wt(x)); });
  add("LeadingOnes", "", std::make_shared<LeadingOnes>(n), [](const bv& x) { return double(lead(x, 1)); });
  add("Needle", "", std::make_shared<Needle>(n), [](const bv& x) { return wt(x) == int(x.size()) ? 1.0 : 0.0; });
  add("Ridge", "", std::make_shared<Ridge>(n), [](const bv& x) { int h = lead(x, 1), m = x.size(); return double(wt(x) == h ? m + h : m - wt(x)); });
  add("Plateau", "", std::make_shared<Plateau>(n), [](const bv& x) { int h = lead(x, 1), m = x.size(); return double(h == m ? m + 2 : wt(x) == h ? m + 1 : m - wt(x)); });
  if ((n & (n - 1)) == 0)
    add("Hiff", "", std::make_shared<Hiff>(n), [](const bv& x) { double s = 0; for (size_t b = 1; b <= x.size(); b *= 2) for (size_t i = 0; i < x.size(); i += b) { bool u = true; for (size_t j = i; j < i + b; j++) u = u && x[j] == x[i]; if (u) s += b; } return s; });
  for (int g : {1, 2, 3, n / 2, n - 1, n}) if (g >= 1 && g <= n) {
    add("Jump", str("gap", g), std::make_shared<Jump>(n, g), [g](const bv& x) { int w = wt(x), m = x.size(); return double(w == m || w <= m - g ? w : 0); });
    add("DeceptiveJump", str("gap", g), std::make_shared<DeceptiveJump>(n, g), [g](const bv& x) { int w = wt(x), m = x.size(); return double(w == m || w <= m - g ? g + w : m - w); });
  }
  for (int t = n <= 4 ? -2 : 0; t <= n / 2 - 1; t += (n > 12 ? std::max(1, n / 4) : 1)) {
    add("FourPeaks", str("threshold", t), std::make_shared<FourPeaks>(n, t), [t](const bv& x) { int h = lead(x, 1), u = trail(x, 0); return double(std::max(h, u) + (h > t && u > t ? int(x.size()) : 0)); });
    add("SixPeaks", str("threshold", t), std::make_shared<SixPeaks>(n, t), [t](const bv& x) { int h = lead(x, 1), u = trail(x, 0), g = lead(x, 0), w = trail(x, 1); return double(std::max({h, u, g, w}) + ((h > t && u > t) || (g > t && w > t) ? int(x.size()) : 0)); });
  }
  for (int m = 1; m <= n; m++) if (n % m == 0 && (n <= 12 || m == 1 || m * 2 == n || m * 4 == n || m == n || m * 3 == n))
    add("Trap", str("traps", m), std::make_shared<Trap>(n, m), [m](const bv& x) { int t = x.size() / m; double s = 0; for (int i = 0; i < m; i++) { int w = 0; for (int j = 0; j < t; j++) w += x[i * t + j]; s += w == t ? t : t - w - 1; } return s; });
  { auto g = gen(); auto f = std::make_shared<LinearFunction>(); f->generate(n, g); auto w = *g.log; add("LinearFunction", str(w), f, [w](const bv& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] * w[i]; return s; }); }
  { std::vector<std::vector<double>> q(n, std::vector<double>(n)); std::ostringstream o, d; int nd = 0, no = 0;
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) if (rnd(0, 3)) { int c = rnd(1, 40) * (rnd(0, 1) ? 1 : -1); q[i][j] = -c; o << i << " " << j << " " << c << "\n"; (i == j ? nd : no)++; }
    d << "c comment\np qubo 0 " << n << " " << nd << " " << no << "\n" << o.str();
    auto f = std::make_shared<Qubo>(); f->load(file(d.str()));
    add("Qubo", "matrix: " + o.str(), f, [q](const bv& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) s += q[i][j] * x[i] * x[j]; return s; }); }
  for (int kind = 0; kind < 2; kind++) if (n >= (kind ? 3 : 1)) { int c = rnd(1, 12); std::vector<std::vector<int>> e(c); std::ostringstream d; d << "c x\np cnf " << n << " " << c << "\n";
    for (auto& cl : e) { int k = kind ? 3 : rnd(1, std::min(n, 5)); for (int j = 0; j < k; j++) cl.push_back(rnd(1, n) * (rnd(0, 1) ? 1 : -1)); for (int l : cl) d << l << " "; d << "0\n"; }
    auto p = file(d.str()); std::shared_ptr<Function> f; if (kind) { auto h = std::make_shared<MaxNae3Sat>(); h->load(p); f = h; } else { auto h = std::make_shared<MaxSat>(); h->load(p); f = h; }
    add(kind ? "MaxNae3Sat" : "MaxSat", str(e), f, [e, kind](const bv& x) { double s = 0; for (auto& cl : e) { size_t t = 0; for (int l : cl) t += l > 0 ? x[l - 1] : !x[-l - 1]; s += kind ? t != 0 && t != 3 : t != 0; } return s; }); }
  for (int per = 0; per < 2; per++) { auto g = gen(); auto f = std::make_shared<NearestNeighborIsingModel1>(); auto a = gen(), b = gen(); f->generate(n, a, b); f->set_periodic_boundary_conditions(per); auto J = *a.log, h = *b.log;
    add("NearestNeighborIsingModel1", str(per, J, h), f, [J, h, per](const bv& x) { int m = x.size(); double s = 0; for (int i = 0; i < m; i++) { if (i + 1 < m || per) s += J[i] * spin(x[i]) * spin(x[(i + 1) % m]); s += h[i] * spin(x[i]); } return s; }); }
  for (int per = 0; per < 2; per++) for (int r = 1; r <= n; r++) if (n % r == 0 && (n <= 12 || r * r <= n)) { int c = n / r; auto f = std::make_shared<NearestNeighborIsingModel2>(); auto a = gen(), b = gen(); f->generate(r, c, a, b); f->set_periodic_boundary_conditions(per); auto J = *a.log, h = *b.log;
    add("NearestNeighborIsingModel2", str(per, r, c, J, h), f, [J, h, per, r, c](const bv& x) { double s = 0; for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { int k = i * c + j, R = i * c + (j + 1) % c, B = ((i + 1) % r) * c + j; if (j + 1 < c || per) s += J[2 * k] * spin(x[k]) * spin(x[R]); if (i + 1 < r || per) s += J[2 * k + 1] * spin(x[k]) * spin(x[B]); s += h[k] * spin(x[k]); } return s; }); }
  { auto g = gen(); auto f = std::make_shared<WalshExpansion1>(); f->generate(n, g); auto w = *g.log; add("WalshExpansion1", str(w), f, [w](const bv& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) s += spin(x[i]) * w[i]; return s; }); }
  { auto a = gen(), b = gen(); auto f = std::make_shared<WalshExpansion2>(); f->generate(n, a, b); auto w = *a.log, q = *b.log; add("WalshExpansion2", str(w, q), f, [w, q](const bv& x) { double s = 0; size_t k = 0; for (size_t i = 0; i < x.size(); i++) { s += spin(x[i]) * w[i]; for (size_t j = 0; j < i; j++) s += q[k++] * spin(x[i]) * spin(x[j]); } return s; }); }
  for (int per = 0; per < 2; per++) for (double al : {1.0, 2.0}) { auto f = std::make_shared<WalshExpansion2>(); if (per) f->generate_ising1_long_range_periodic(n, al); else f->generate_ising1_long_range(n, al);
    add("WalshExpansion2(long range)", str(per, al), f, [per, al](const bv& x) { double s = 0; int m = x.size(); for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) { int d = i - j; if (per) d = std::min(d, m - d); s += std::pow(double(d), -al) * spin(x[i]) * spin(x[j]); } return s; }); }
  { std::vector<WalshTerm> ts(rnd(1, 8)); std::string p; for (auto& t : ts) { t.feature.resize(n); for (int i = 0; i < n; i++) t.feature[i] = rnd(0, 1); t.coefficient = rnd(-30, 30); p += str(t.feature, t.coefficient); }
    auto f = std::make_shared<WalshExpansion>(); f->set_terms(ts); add("WalshExpansion", p, f, [ts](const bv& x) { double s = 0; for (auto& t : ts) { int d = 0; for (size_t i = 0; i < x.size(); i++) d += t.feature[i] && x[i]; s += d % 2 ? -t.coefficient : t.coefficient; } return s; }); }
  if (n <= 12) { auto g = gen(1, 8); auto f = std::make_shared<EqualProducts>(); f->generate(n, g); auto w = *g.log; add("EqualProducts", str(w), f, [w](const bv& x) { double a = 1, b = 1; for (size_t i = 0; i < x.size(); i++) (x[i] ? a : b) *= w[i]; return -std::fabs(a - b); }); }
  { auto g = gen(1, 100); auto f = std::make_shared<Partition>(); f->generate(n, g); auto w = *g.log; add("Partition", str(w), f, [w](const bv& x) { double a = 0; for (size_t i = 0; i < x.size(); i++) a += spin(x[i]) * w[i]; return -std::fabs(a); }); }
  for (int m = 0; m < (n > 1 ? 2 : 1); m++) { auto f = std::make_shared<Labs>(n); f->set_merit_factor_flag(m); add("Labs", str("merit", m), f, [m](const bv& x) { double e = 0; int k = x.size(); for (int d = 1; d < k; d++) { int c = 0; for (int i = 0; i + d < k; i++) c += spin(x[i]) * spin(x[i + d]); e += double(c) * c; } return m ? double(k) * k / (2 * e) : -e; }); }
  for (int k = 2; k <= n; k++) if (n % k == 0 && n / k <= 6) { auto path = long_path(n, k); std::map<std::string, int> at; for (size_t i = 0; i < path.size(); i++) at[path[i]] = i; 
    add("LongPath", str("prefix", k), std::make_shared<LongPath>(n, k), [at, k](const bv& x) { auto it = at.find(bits(x)); if (it != at.end()) return double(it->second + 1); double s = 0; for (size_t i = 0; i < x.size(); i++) s += x[i] * (int(i) < k ? double(x.size()) : 1.0); return -s; }); }
  if (n % 9 == 0) for (int sn = 0; sn < 2; sn++) { std::shared_ptr<Function> f; if (sn) f = std::make_shared<SinusSummationCancellation>(n); else f = std::make_shared<SummationCancellation>(n);
    add(sn ? "SinusSummationCancellation" : "SummationCancellation", "", f, [sn](const bv& x) { double s = 0, prev = 0; for (size_t i = 0; i * 9 < x.size(); i++) { int r = x[9 * i] ? -256 : 0; for (int j = 0; j < 8; j++) r += x[9 * i + 1 + j] << j; double y = r / 100.0 + (i ? (sn ? std::sin(prev) : prev) : 0); s += std::fabs(y); prev = y; } return -s; }); }
  if (n >= 1 && n <= 20) for (int rep = 0; rep < 2; rep++) { // number of bits b with ceil(b/2) + b - 1 = n
    for (int b = 2; b <= 16; b++) if ((b + 1) / 2 + b - 1 == n) { unsigned long N = (1ul << (b - 1)) + (rnd(0, 1 << 20) & ((1ul << (b - 1)) - 1)); auto f = std::make_shared<Factorization>(std::to_string(N)); int fs = (b + 1) / 2;
      add("Factorization", str("number", N), f, [N, fs](const bv& x) { unsigned long a = 0, c = 0; for (size_t i = 0; i < x.size(); i++) { unsigned long& t = int(i) < fs ? a : c; t = 2 * t + x[i]; } unsigned long d = (a * c) ^ N; double s = 0; for (int i = 0; i < 64; i++) if (d >> i & 1) s += i + 1; return -s; }); } }
  if (n >= 2) { int k = rnd(1, std::min(n - 1, 3)); auto g = gen(); auto f = std::make_shared<NkLandscape>(); f->generate(n, k, g); auto w = *g.log;
    std::ostringstream o; f->display(o); std::istringstream in(o.str()); std::string line; std::vector<std::vector<int>> nb;
    while (getline(in, line)) { auto p = line.find("->"); if (p == std::string::npos) continue; std::istringstream l(line.substr(p + 2)); int a; nb.emplace_back(); while (l >> a) nb.back().push_back(a); }
    bool shape = int(nb.size()) == n && int(w.size()) == n << (k + 1); for (auto& r : nb) { shape = shape && int(r.size()) == k + 1; for (int a : r) shape = shape && a >= 0 && a < n; }
    if (shape) add("NkLandscape", str("k", k, nb, w), f, [nb, w, k](const bv& x) { double s = 0; for (size_t i = 0; i < x.size(); i++) { int idx = 0; for (int j = 0; j <= k; j++) idx += x[nb[i][j]] << j; s += w[(i << (k + 1)) + idx]; } return s / x.size(); });
    else { at("NkLandscape::generate", n, k, nb); fail_now("each of the n bits has k + 1 neighbors and 2^(k+1) partial values"); } }
  return v;
}
}
