// Maps
#include "common.hh"
#include "hnco/maps/map.hh"
using namespace vh;
using namespace hnco;
using hnco::map::Map;
static bv add(bv a, const bv& b) { for (size_t i = 0; i < a.size(); i++) a[i] = (a[i] + b[i]) % 2; return a; }
static bv img(Map& m, const bv& x) { bv y = rbv(m.get_output_size()), c = x; m.map(c, y); ok(c == x, "input unchanged"); eq(int(y.size()), m.get_output_size(), "output size"); ok(valid(y), "valid output"); bv z = rbv(y.size()); m.map(c, z); ok(y == z, "output depends on the input only"); return y; }
// affine (linear if lin); surjective exactly when its image is everything
static void affine(const char* name, Map& m, int in, int out, bool lin, bool must)
{
  at(name, in, out, lin, must); eq(m.get_input_size(), in, "input size"); eq(m.get_output_size(), out, "output size");
  bv zero(in, 0), f0 = img(m, zero); if (lin) ok(f0 == bv(out, 0), "linear: zero goes to zero");
  std::vector<bv> col; for (int j = 0; j < in; j++) { bv e = zero; e[j] = 1; col.push_back(add(img(m, e), f0)); }
  auto chk = [&](const bv& x) { bv w = f0; for (int j = 0; j < in; j++) if (x[j]) w = add(w, col[j]); at(name, in, out, x); eq(img(m, x), w, "affine image"); };
  for (int k = 0; k < 8; k++) chk(rbv(in)); chk(bv(in, 1));
  // rank of the columns
  std::vector<bv> a = col; int r = 0; for (int c = 0; c < out; c++) { int p = -1; for (int i = r; i < in; i++) if (a[i][c]) { p = i; break; } if (p < 0) continue; std::swap(a[p], a[r]); for (int i = 0; i < in; i++) if (i != r && a[i][c]) a[i] = add(a[i], a[r]); r++; }
  at(name, in, out, col); eq(m.is_surjective(), r == out, "surjective iff onto"); if (must) ok(r == out, "requested surjective map is onto");
  if (in <= 8 && out <= 8) { std::set<bv> im; all_bv(in, [&](bv x) { im.insert(img(m, x)); }); eq(m.is_surjective(), im.size() == (1u << out), "surjective iff the image is everything"); }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int N = thorough ? 4000 : 700;
  for (int k = 0; k < N; k++) {
    int n = rnd(1, k % 5 ? 8 : 80);
    { map::Translation t; if (k % 2) { bv b = rbv(n); t.set_bv(b); at("Translation", b); bv x = rbv(n); eq(img(t, x), add(x, b), "translated"); } else { if (k % 4 == 0) t.random(rnd(1, 9)); t.random(n); }
      affine("Translation", t, n, n, false, true); }
    { map::Permutation p; if (k % 3 == 0) p.random(rnd(1, 9)); p.random(n); affine("Permutation", p, n, n, true, true); std::vector<int> sig(n); for (int j = 0; j < n; j++) { bv e(n, 0); e[j] = 1; bv y = img(p, e); at("Permutation", n, j); eq(wt(y), 1, "one bit goes to one bit"); } }
    int r = rnd(1, k % 5 ? 6 : 20), c = rnd(1, k % 5 ? 6 : 20); bool s = k % 2 && r <= c;
    { map::LinearMap m; if (k % 3 == 0) m.random(rnd(1, 5), rnd(1, 5), false); m.random(r, c, s); affine("LinearMap", m, c, r, true, s); }
    { map::AffineMap m; if (k % 3 == 0) m.random(rnd(1, 5), rnd(1, 5), false); m.random(r, c, s); affine("AffineMap", m, c, r, false, s); }
    if (r > c) { at("LinearMap::random", r, c, "surjective"); bool th = false; try { map::LinearMap m; m.random(r, c, true); } catch (const std::runtime_error&) { th = true; } ok(th, "rows > cols rejected"); th = false; try { map::AffineMap m; m.random(r, c, true); } catch (const std::runtime_error&) { th = true; } ok(th, "rows > cols rejected"); }
    { std::vector<int> pos(n); for (int i = 0; i < n; i++) pos[i] = i; std::shuffle(pos.begin(), pos.end(), rng); int m = k % 7 == 0 ? n : rnd(1, n); pos.resize(m);
      map::Injection in(pos, n); bv x = rbv(m), y = rbv(n), w = y; for (int i = 0; i < m; i++) w[pos[i]] = x[i]; at("Injection", pos, n, x, y); in.map(x, y); eq(y, w, "bits copied to their positions, others unchanged"); eq(in.get_input_size(), m, "input size"); eq(in.get_output_size(), n, "output size"); eq(in.is_surjective(), n == m, "surjective iff onto");
      map::Projection pr(pos, n); bv z = rbv(m); at("Projection", pos, n, y); pr.map(y, z); eq(z, x, "projection after injection is the identity"); eq(pr.get_input_size(), n, "input size"); eq(pr.get_output_size(), m, "output size"); affine("Projection", pr, n, m, true, true); ok(pr.is_surjective(), "onto");
      at("Injection::Injection", pos, m); bool th = false; try { map::Injection bad(pos, m - 1); } catch (const std::runtime_error&) { th = true; } ok(th, "too small output rejected");
      at("Projection::Projection", pos, m); th = false; try { map::Projection bad(pos, m - 1); } catch (const std::runtime_error&) { th = true; } ok(th, "too small input rejected");
      try { map::Injection good(pos, n); } catch (...) { fail_now("rejected"); } }
    { int nn = std::max(2, n), t = rnd(0, 12); for (int mode = 0; mode < 6; mode++) { std::cerr.setstate(std::ios::failbit); map::TsAffineMap m; if (k % 3 == 0) m.random(rnd(2, 9), rnd(0, 5), rnd(0, 5)); m.random(nn, t, mode); std::cerr.clear();
        affine("TsAffineMap", m, nn, nn, false, true); map::TsAffineMap inv = m; inv.invert(); for (int q = 0; q < 4; q++) { bv x = rbv(nn); at("TsAffineMap::invert", nn, t, mode, x); eq(img(inv, img(m, x)), x, "inverse undoes"); eq(img(m, img(inv, x)), x, "and conversely"); } } }
    { map::LinearMap a; map::AffineMap b; int mid = rnd(1, 5); a.random(mid, c, k % 2 && mid <= c); b.random(r, mid, k % 4 < 2 && r <= mid); map::MapComposition f(&b, &a); at("MapComposition", c, mid, r); eq(f.get_input_size(), c, "input size"); eq(f.get_output_size(), r, "output size");
      for (int q = 0; q < 6; q++) { bv x = rbv(c); at("MapComposition", c, mid, r, x); eq(img(f, x), img(b, img(a, x)), "outer after inner"); } eq(f.is_surjective(), a.is_surjective() && b.is_surjective(), "surjective iff both are");
      if (f.is_surjective() && c <= 8) { std::set<bv> im; all_bv(c, [&](bv x) { im.insert(img(f, x)); }); eq(im.size(), size_t(1) << r, "declared surjective, is onto"); } }
  }
  return done();
}
