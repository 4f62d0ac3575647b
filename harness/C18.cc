// Permutations
#include "common.hh"
#include "hnco/permutation.hh"
using namespace vh;
using namespace hnco;
static bool isp(permutation_t p) { std::sort(p.begin(), p.end()); for (size_t i = 0; i < p.size(); i++) if (p[i] != int(i)) return false; return true; }
int main(int argc, char** argv)
{
  init(argc, argv);
  for (int n = 0; n <= 5; n++) { long N = 1; for (int i = 0; i < n; i++) N *= n + 3;
    for (long u = 0; u < N; u++) { permutation_t p(n); long v = u; for (int i = 0; i < n; i++) { p[i] = v % (n + 3) - 1; v /= n + 3; } at("perm_is_valid", p); eq(perm_is_valid(p), isp(p), "valid iff a permutation"); } }
  std::vector<int> sizes; for (int n = 0; n <= 140; n++) sizes.push_back(n); for (int n : {200, 255, 256, 257, 1000, 5000, 70000}) sizes.push_back(n);
  for (int n : sizes) {
    permutation_t p(n); for (auto& v : p) v = rnd(-5, n); at("perm_identity", n); perm_identity(p); eq(int(p.size()), n, "size"); for (int i = 0; i < n; i++) ok(p[i] == i, "identity"); ok(perm_is_valid(p), "recognized");
    for (int k = 0; k < 5; k++) {
      for (auto& v : p) v = rnd(-5, n); at("perm_random", n); perm_random(p); eq(int(p.size()), n, "size"); ok(isp(p), "random permutation"); ok(perm_is_valid(p), "recognized");
      at("perm_shuffle", n); perm_shuffle(p); eq(int(p.size()), n, "size"); ok(isp(p), "shuffled permutation");
      if (n) { auto q = p; int i = rnd(0, n - 1); q[i] = k % 3 == 0 ? -1 : k % 3 == 1 ? n : q[rnd(0, n - 1)]; at("perm_is_valid", n, i, q[i]); eq(perm_is_valid(q), isp(q), "valid iff a permutation"); } }
    if (n <= 12) { std::ostringstream o; at("perm_display", p); perm_display(p, o); for (int v : p) ok(o.str().find(std::to_string(v)) != std::string::npos, "displayed"); }
  }
  { int n = 4; std::set<permutation_t> seen; at("perm_random", "support"); for (int k = 0; k < 2000; k++) { permutation_t p(n); perm_random(p); seen.insert(p); } eq(int(seen.size()), 24, "every permutation of 4 is sampled"); }
  return done();
}
