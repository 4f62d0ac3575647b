// Bit vectors and sparse bit vectors
#include <sstream>
#include "common.hh"
#include "hnco/sparse-bit-vector.hh"
using namespace vh;
using namespace hnco;

static void pair_ops(const bv& x, const bv& y)
{
  const int n = x.size();
  at("bv_hamming_distance", x, y); eq(bv_hamming_distance(x, y), hd(x, y), "distance");
  int c = 0; for (int i = 0; i < n; i++) c += x[i] && y[i];
  at("bv_dot_product", x, y); eq(int(bv_dot_product(x, y)), c % 2, "dot product");
  std::vector<bool> yb(n); for (int i = 0; i < n; i++) yb[i] = y[i];
  at("bv_dot_product(bool)", x, y); eq(int(bv_dot_product(x, yb)), c % 2, "dot product");
  bv s(n); for (int i = 0; i < n; i++) s[i] = (x[i] + y[i]) % 2;
  { at("bv_add/2", x, y); bv d = x; bv src = y; bv_add(d, src); eq(d, s, "dest"); eq(src, y, "src unchanged"); }
  { at("bv_add/3", x, y); bv d = rbv(n); bv_add(d, x, y); eq(d, s, "dest"); }
  { at("bv_add/3 aliased", x, y); bv d = x; bv_add(d, d, y); eq(d, s, "dest"); }
  { at("bv_add/3 aliased 2", x, y); bv d = y; bv_add(d, x, d); eq(d, s, "dest"); }
  { // conversion of y into a used x
    at("bv_from_vector_bool", x, y); bv d = x; bv_from_vector_bool(d, yb); eq(d, y, "bits");
    at("bv_to_vector_bool", x, y); std::vector<bool> o(n); for (int i = 0; i < n; i++) o[i] = x[i];
    bv_to_vector_bool(o, y); eq(o, yb, "bits"); }
  { sparse_bit_vector_t sb; for (int i = 0; i < n; i++) if (y[i]) sb.push_back(i);
    at("sbv_is_valid", y, sb); ok(sbv_is_valid(sb), "sorted distinct components are valid");
    ok(sbv_is_valid(sb, n), "valid for its size");
    at("bv_flip(sbv)", x, sb); bv d = x; bv_flip(d, sb); eq(d, s, "flip by components is addition");
    bv_flip(d, sb); eq(d, x, "flip twice is identity"); }
}

static void single_ops(const bv& x)
{
  const int n = x.size();
  at("bv_is_valid", x); ok(bv_is_valid(x), "valid");
  at("bv_hamming_weight", x); eq(bv_hamming_weight(x), wt(x), "weight");
  std::vector<bool> xb(n); for (int i = 0; i < n; i++) xb[i] = x[i];
  at("bv_hamming_weight(bool)", x); eq(bv_hamming_weight(xb), wt(x), "weight");
  at("bv_is_zero", x); eq(bv_is_zero(x), wt(x) == 0, "zero");
  { at("bv_clear", x); bv d = x; bv_clear(d); eq(d, bv(n, 0), "all zero"); }
  for (int i = 0; i < n; i++) { at("bv_flip", x, i); bv d = x, w = x; w[i] = 1 - w[i]; bv_flip(d, i); eq(d, w, "one bit flipped"); }
  if (n <= 64) {
    unsigned long u = 0; for (int i = 0; i < n; i++) if (x[i]) u |= 1ul << i;
    at("bv_to_size_type", x); eq(bv_to_size_type(x), u, "value");
    at("bv_from_size_type", x, u); bv d = rbv(n); bv_from_size_type(d, u); eq(d, x, "round trip");
  }
  for (int k = 0; k < (n <= 8 ? n * n : 12) && n > 0; k++) {
    int a = rnd(0, n - 1), b = rnd(a + 1, std::min(n, a + 64));
    unsigned long u = 0; for (int i = a; i < b; i++) if (x[i]) u |= 1ul << (i - a);
    at("bv_to_size_type(range)", x, a, b); eq(bv_to_size_type(x, a, b), u, "value of the slice");
  }
  std::string s; for (auto b : x) s += b ? '1' : '0';
  at("bv_from_string", s); eq(bv_from_string(s), x, "bits");
  { at("bv_display", x); std::ostringstream o; bv_display(x, o); eq(o.str(), s, "text"); }
  { at("bv_from_stream", s); std::istringstream in(s + "\n0101\n"); eq(bv_from_stream(in), x, "first line");
    eq(bv_from_stream(in), bv({0, 1, 0, 1}), "second line"); eq(bv_from_stream(in), bv(), "end of stream"); }
  for (int k = 0; k <= n; k += (n <= 10 ? 1 : std::max(1, n / 7))) {
    at("bv_random(k)", x, k); bv d = x; bv_random(d, k);
    eq(int(d.size()), n, "size"); ok(valid(d), "bits"); eq(wt(d), k, "weight"); }
  { at("bv_random", x); bv d = x; bv_random(d); eq(int(d.size()), n, "size"); ok(valid(d), "bits"); }
}

int main(int argc, char** argv)
{
  init(argc, argv);
  for (int b : {0, 1}) for (int c : {0, 1}) {
    at("bit_add", b, c); eq(int(bit_add(b, c)), (b + c) % 2, "sum");
    at("bit_flip/2", b, c); bit_t t = b; bit_flip(t, c); eq(int(t), (b + c) % 2, "flip"); }
  for (int b : {0, 1}) { at("bit_flip", b); bit_t t = b; bit_flip(t); eq(int(t), 1 - b, "flip"); }
  for (double p : {0.0, 0.3, 1.0}) for (int k = 0; k < 50; k++) {
    at("bit_random", p, k); int b = bit_random(p); ok(b == 0 || b == 1, "a bit"); if (p == 0) eq(b, 0, "p=0"); if (p == 1) eq(b, 1, "p=1"); }
  const int N = thorough ? 7 : 5;
  for (int n = 0; n <= N; n++) all_bv(n, [&](const bv& x) { single_ops(x); all_bv(n, [&](const bv& y) { pair_ops(x, y); }); });
  for (int k = 0; k < (thorough ? 20000 : 1500); k++) {
    int n = k % 5 == 0 ? rnd(60, 70) : k % 5 == 1 ? rnd(120, 300) : rnd(1, 64);
    bv x = rbv(n), y = rbv(n); single_ops(x); pair_ops(x, y); }
  for (int n : {63, 64}) { single_ops(bv(n, 1)); bv x(n, 0); x[n - 1] = 1; single_ops(x); }
  for (int n : {1, 31, 32, 33, 64, 500, 1023}) { bv o(n, 1), z(n, 0); pair_ops(o, o); pair_ops(o, z); pair_ops(z, o); single_ops(o); single_ops(z); }
  // every vector (of the weight) can be drawn
  for (int n = 1; n <= 5; n++) {
    std::set<bv> seen; at("bv_random", n, "support"); for (int k = 0; k < 2500; k++) { bv x(n); bv_random(x); seen.insert(x); } eq(int(seen.size()), 1 << n, "every bit vector can be drawn");
    for (int w = 0; w <= n; w++) { std::set<bv> t; at("bv_random(k)", n, w, "support"); for (int k = 0; k < 1000; k++) { bv x(n); bv_random(x, w); t.insert(x); } int c = 1; for (int i = 0; i < w; i++) c = c * (n - i) / (i + 1); eq(int(t.size()), c, "every bit vector of the weight can be drawn"); }
  }
  // invalid vectors are recognized
  for (int n = 1; n <= 20; n++) for (int i = 0; i < n; i++) for (int v : {2, 3, 255}) {
    bv x = rbv(n); x[i] = v; at("bv_is_valid", x); ok(!bv_is_valid(x), "a component other than 0, 1 is invalid"); }
  for (int n = 1; n <= 40; n++) for (int i = 0; i < n; i++) { bv x(n, 0); x[i] = 1; at("bv_is_zero", x); ok(!bv_is_zero(x), "not zero"); }
  // sparse validity
  for (int k = 0; k < 4000; k++) {
    int n = rnd(1, 6), m = rnd(0, 5); sparse_bit_vector_t s; for (int i = 0; i < m; i++) s.push_back(rnd(-1, 7));
    bool good = true, fits = true;
    for (int i = 0; i < m; i++) { if (s[i] < 0) good = false; if (s[i] >= n) fits = false; if (i && s[i] < s[i - 1]) good = false; }
    at("sbv_is_valid", s, n); eq(sbv_is_valid(s, n), good && fits, "validity for size"); eq(sbv_is_valid(s), good, "validity"); }
  return done();
}
