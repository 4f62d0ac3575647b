// Neighborhoods
#include "common.hh"
#include "hnco/neighborhoods/neighborhood.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::neighborhood;
static bv flip(bv x, const sparse_bit_vector_t& s) { for (int i : s) x[i] ^= 1; return x; }
static std::set<int> sizes; static std::set<int> touched;
static void flips(const sparse_bit_vector_t& s, int n, int lo, int hi)
{
  for (size_t i = 0; i < s.size(); i++) { ok(s[i] >= 0 && s[i] < n, "position: " + str(s)); if (i) ok(s[i - 1] < s[i], "sorted distinct positions: " + str(s)); touched.insert(s[i]); }
  ok(int(s.size()) >= lo && int(s.size()) <= hi, "number of flips " + str(s.size()) + " outside " + str(lo, hi)); sizes.insert(s.size());
}
template <class N> static void drive(const char* name, N& nb, int n, int lo, int hi, std::string par, int steps)
{
  bv o = rbv(n); nb.set_origin(o); std::string hist;
  for (int k = 0; k < steps; k++) {
    at(name, n, par, o, hist);
    eq(nb.get_origin(), o, "origin"); eq(nb.get_candidate(), o, "candidate equals origin");
    int c = rnd(0, 9);
    if (c < 4) { nb.propose(); hist += "p"; auto s = nb.get_flipped_bits(); flips(s, n, lo, hi); eq(nb.get_origin(), o, "propose leaves the origin"); eq(nb.get_candidate(), flip(o, s), "candidate is the origin with the flipped bits flipped"); nb.keep(); hist += "k"; o = flip(o, s); }
    else if (c < 8) { nb.propose(); hist += "p"; auto s = nb.get_flipped_bits(); flips(s, n, lo, hi); eq(nb.get_candidate(), flip(o, s), "candidate is the origin with the flipped bits flipped"); nb.forget(); hist += "f"; }
    else if (c == 8) { bv x = rbv(n), y = x; nb.mutate(y); hist += "m"; auto s = nb.get_flipped_bits(); flips(s, n, lo, hi); eq(y, flip(x, s), "mutated"); bv z = rbv(n); nb.map(x, z); s = nb.get_flipped_bits(); flips(s, n, lo, hi); eq(z, flip(x, s), "mapped"); ok(hd(x, z) >= lo && hd(x, z) <= hi, "distance"); }
    else { o = rbv(n); nb.set_origin(o); hist += "s"; }
    if (hist.size() > 30) hist = hist.substr(10);
  }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  const int T = thorough ? 6 : 1;
  for (int rep = 0; rep < T; rep++)
  for (int n : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 25, 31, 32, 33, 64, 100, 130}) {
    { SingleBitFlip s(n); sizes.clear(); touched.clear(); drive("SingleBitFlip", s, n, 1, 1, "", 60); if (n <= 4) eq(int(touched.size()), n, "every position is flipped sometimes"); }
    for (int r = 1; r <= n; r += (n > 12 ? std::max(1, n / 6) : 1)) {
      { HammingBall b(n, r); sizes.clear(); touched.clear(); drive("HammingBall", b, n, 1, r, str(r), 60); if (r <= 4) eq(int(sizes.size()), r, "every distance up to the radius occurs"); if (n <= 4) eq(int(touched.size()), n, "every position is flipped sometimes"); }
      { HammingSphere s(n, r); touched.clear(); drive("HammingSphere", s, n, r, r, str(r), 70); if (n <= 4) eq(int(touched.size()), n, "every position is flipped sometimes"); int q = rnd(1, n); s.set_radius(q); drive("HammingSphere::set_radius", s, n, q, q, str(r, q), 20); }
    }
    for (double p : {0.0, 0.02, 0.1, 0.3, 0.5, 0.9, 1.0}) for (int allow = 0; allow < 2; allow++) for (int how = 0; how < 3; how++) {
      if (p * n < 0.2 && !allow) continue;
      if (p == 0.0 && how == 0) continue;
      StandardBitMutation m = how == 2 ? StandardBitMutation(n) : StandardBitMutation(n, p); if (how) m.set_mutation_rate(p); m.set_allow_no_mutation(allow);
      sizes.clear(); drive("StandardBitMutation", m, n, p == 1.0 ? n : allow ? 0 : 1, p == 0.0 ? 0 : n, str(p, allow, how), 60);
      if (allow && p < 1 && std::pow(1 - p, n) > 0.3) ok(sizes.count(0) == 1, "no mutation occurs sometimes when allowed"); }
    if (n > 1) { StandardBitMutation m(n); m.set_mutation_rate(0.001); m.set_mutation_rate(0.9); m.set_allow_no_mutation(false); drive("StandardBitMutation", m, n, 1, n, "0.001 then 0.9", 30);
      sizes.clear(); m.set_mutation_rate(1.0); drive("StandardBitMutation", m, n, n, n, "1.0", 10); }
    { StandardBitMutation m(n); drive("StandardBitMutation", m, n, 1, n, "default", 60); }
  }
  return done();
}
