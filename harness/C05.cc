// Iterators
#include "common.hh"
#include "hnco/iterator.hh"
#include "hnco/neighborhoods/neighborhood-iterator.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::neighborhood;
static long binom(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r > 1e15 ? 1000000000000000l : long(r + .5); }
template <class It, class P> static void run(const char* name, It& it, long want, int n, P inside)
{
  std::set<bv> seen; long k = 0;
  while (true) { bool h = it.has_next(); eq(it.has_next(), h, "has_next has no effect"); eq(h, k < want, "stops after the last point"); if (!h) break; const bv& x = it.next(); eq(int(x.size()), n, "size"); ok(valid(x), "valid"); ok(inside(x), "point of the domain: " + str(x)); ok(seen.insert(x).second, "visited twice: " + str(x)); k++; }
}
template <class It> static void partial(It& it, long k) { for (long i = 0; i < k && it.has_next(); i++) it.next(); }
static void cube(int n)
{
  HypercubeIterator h(n); ExtendedHypercubeIterator e(n); auto all = [](const bv&) { return true; };
  at("HypercubeIterator", n); run("HypercubeIterator", h, n ? 1l << n : 0, n, all);
  at("ExtendedHypercubeIterator", n); run("ExtendedHypercubeIterator", e, 1l << n, n, all);
  for (int r = 0; r < 2; r++) { int p = rnd(0, 1 << std::min(n, 6)); h.init(); partial(h, p); at("HypercubeIterator restart", n, p); h.init(); run("HypercubeIterator", h, n ? 1l << n : 0, n, all); e.init(); partial(e, p); at("ExtendedHypercubeIterator restart", n, p); e.init(); run("E", e, 1l << n, n, all); }
}
static void neigh(int n, bool full)
{
  bv o = rbv(n);
  { SingleBitFlipIterator s(n); for (int r = 0; r < 3; r++) { int p = r ? rnd(0, n) : 0; if (r) { s.init(); partial(s, p); o = rbv(n); } s.set_origin(o); s.init(); at("SingleBitFlipIterator", n, o, p); run("s", s, n, n, [&](const bv& x) { return hd(x, o) == 1; }); } }
  for (int rad = 0; rad <= n; rad++) { if (!full && binom(n, rad) > 4000) continue; HammingSphereIterator s(n, rad);
    for (int r = 0; r < 3; r++) { int p = r ? rnd(0, 20) : 0; if (r) { s.init(); partial(s, p); o = rbv(n); } s.set_origin(o); s.init(); at("HammingSphereIterator", n, rad, o, p); run("s", s, rad > 0 ? binom(n, rad) : 0, n, [&](const bv& x) { return hd(x, o) == rad; }); } }
}
int main(int argc, char** argv)
{
  init(argc, argv);
  for (int n = 0; n <= (thorough ? 18 : 14); n++) cube(n);
  for (int k = 0; k < (thorough ? 20 : 4); k++) for (int n = 0; n <= 11; n++) neigh(n, true);
  for (int n : {16, 20, 31, 32, 33, 63, 64, 65, 70, 128, 130}) neigh(n, false);
  return done();
}
