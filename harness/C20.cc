// Saving and loading: the loaded object behaves like the saved one
#include "funcs.hh"
#include "hnco/maps/map.hh"
#include "hnco/functions/collection/tsp.hh"
#include "hnco/functions/collection/sudoku.hh"
#include "hnco/functions/collection/nk-landscape.hh"
using namespace vh;
using namespace hnco;
using namespace hnco::function;
// save a, load into b (which may already hold another instance)
template <class A> static void through_file(const A& a, A& b) { auto p = scratch(); unlink(p.c_str()); a.save(p); b.load(p); }
template <class A> static void missing(const char* name) {
  at(name, "no such file"); bool threw = false; { A a; try { a.load(scratch() + ".absent"); } catch (const std::runtime_error&) { threw = true; } } ok(threw, "loading a file that does not exist is accepted");
}
template <class A> static void empty_file(const char* name) { at(name, "empty file"); bool threw = false; auto p = file(""); { A a; try { a.load(p); } catch (const std::runtime_error&) { threw = true; } } ok(threw, "loading an empty file is accepted"); }
static void same_fn(Function& a, Function& b, const std::string& what) {
  eq(b.get_bv_size(), a.get_bv_size(), "size"); eq(b.has_known_maximum(), a.has_known_maximum(), "known maximum"); if (a.has_known_maximum()) eq(b.get_maximum(), a.get_maximum(), "maximum");
  eq(b.provides_incremental_evaluation(), a.provides_incremental_evaluation(), "incremental evaluation");
  int n = a.get_bv_size();
  for (int r = 0; r < 6; r++) { bv x = r == 0 ? bv(n, 0) : r == 1 ? bv(n, 1) : rbv(n); at(cur_fn.c_str(), what, x); double v = a.evaluate(x); eq(b.evaluate(x), v, "value");
    if (a.provides_incremental_evaluation()) { sparse_bit_vector_t f; for (int i = 0; i < n; i++) if (rnd(0, 2) == 0) f.push_back(i); eq(b.evaluate_incrementally(x, v, f), a.evaluate_incrementally(x, v, f), "incremental value"); } }
}
template <class A, class M> static void functions(const char* name, M make) {
  A a, b; std::string pa = make(a), pb; if (rnd(0, 1)) pb = make(b);      // b may hold another instance, possibly of another size
  cur_fn = name; at(name, pa, pb); through_file(a, b); same_fn(a, b, pa);
  at(name, "again", pa); A c; through_file(b, c); same_fn(a, c, pa);
}
template <class A, class M> static void maps(const char* name, M make) {
  A a, b; make(a); if (rnd(0, 1)) make(b);
  at(name, a.get_input_size(), a.get_output_size()); through_file(a, b); eq(b.get_input_size(), a.get_input_size(), "input size"); eq(b.get_output_size(), a.get_output_size(), "output size"); eq(b.is_surjective(), a.is_surjective(), "surjective");
  for (int r = 0; r < 5; r++) { bv x = rbv(a.get_input_size()), y(a.get_output_size()), z(a.get_output_size()); at(name, x); a.map(x, y); b.map(x, z); eq(z, y, "image"); }
}
int main(int argc, char** argv) {
  init(argc, argv);
  const int N = (getenv("N") ? atoi(getenv("N")) : 150) * (thorough ? 10 : 1);
  auto real = [] { return rnd(0, 3) ? std::normal_distribution<double>(0, 3)(rng) : rndd(-1e9, 1e9) * std::pow(10.0, rnd(-15, 15)); };
  for (int it = 0; it < N; it++) {
    auto n = [] { return rnd(1, 14); };
    functions<LinearFunction>("LinearFunction", [&](LinearFunction& f) { int k = n(); f.generate(k, real); return str(k); });
    functions<NkLandscape>("NkLandscape", [&](NkLandscape& f) { int k = rnd(2, 14), q = rnd(1, std::min(k - 1, 4)); f.generate(k, q, real); return str(k, q); });
    functions<EqualProducts>("EqualProducts", [&](EqualProducts& f) { int k = n(); f.generate(k, [&] { return std::fabs(real()); }); return str(k); });
    functions<Partition>("Partition", [&](Partition& f) { int k = n(); f.generate(k, [&] { return rnd(1, 2000000000 / 20); }); return str(k); });
    functions<NearestNeighborIsingModel1>("NearestNeighborIsingModel1", [&](NearestNeighborIsingModel1& f) { int k = n(); f.generate(k, real, real); bool p = rnd(0, 1); f.set_periodic_boundary_conditions(p); return str(k, p); });
    functions<NearestNeighborIsingModel2>("NearestNeighborIsingModel2", [&](NearestNeighborIsingModel2& f) { int r = rnd(1, 5), c = rnd(1, 5); f.generate(r, c, real, real); bool p = rnd(0, 1); f.set_periodic_boundary_conditions(p); return str(r, c, p); });
    functions<WalshExpansion1>("WalshExpansion1", [&](WalshExpansion1& f) { int k = n(); f.generate(k, real); return str(k); });
    functions<WalshExpansion2>("WalshExpansion2", [&](WalshExpansion2& f) { int k = n(); f.generate(k, real, real); return str(k); });
    functions<WalshExpansion>("WalshExpansion", [&](WalshExpansion& f) { int k = n(), t = rnd(1, 9); std::vector<WalshTerm> ts(t); for (auto& w : ts) { w.feature.resize(k); for (int i = 0; i < k; i++) w.feature[i] = rnd(0, 1); w.coefficient = real(); } f.set_terms(ts); return str(k, t); });
    functions<MaxSat>("MaxSat", [&](MaxSat& f) { int k = n(), l = rnd(1, std::min(k, 4)), c = rnd(1, 20); f.random(k, l, c); return str(k, l, c); });
    { at("MaxNae3Sat"); int k = rnd(3, 12), c = rnd(1, 15); std::ostringstream d; d << "p cnf " << k << " " << c << "\n"; for (int i = 0; i < c; i++) { for (int j = 0; j < 3; j++) d << rnd(1, k) * (rnd(0, 1) ? 1 : -1) << " "; d << "0\n"; } MaxNae3Sat a, b; a.load(file(d.str())); cur_fn = "MaxNae3Sat"; at("MaxNae3Sat", d.str()); through_file(a, b); same_fn(a, b, d.str()); }
    maps<map::Translation>("Translation", [&](map::Translation& m) { m.random(n()); });
    maps<map::Permutation>("Permutation", [&](map::Permutation& m) { m.random(n()); });
    maps<map::LinearMap>("LinearMap", [&](map::LinearMap& m) { m.random(n(), n(), false); });
    maps<map::AffineMap>("AffineMap", [&](map::AffineMap& m) { m.random(n(), n(), false); });
    maps<map::TsAffineMap>("TsAffineMap", [&](map::TsAffineMap& m) { m.random(rnd(2, 14), rnd(1, 12), map::TsAffineMap::SamplingMode::unconstrained); });
    { Sudoku a, b; int c = rnd(1, 60); a.random(c); if (rnd(0, 1)) b.random(rnd(1, 81)); at("Sudoku", c); through_file(a, b); eq(b.get_num_variables(), a.get_num_variables(), "variables"); for (int r = 0; r < 4; r++) { std::vector<std::size_t> x(a.get_num_variables()); for (auto& v : x) v = rnd(0, 8); std::vector<int> xi(x.begin(), x.end()); at("Sudoku", c, xi); eq(b.evaluate(x), a.evaluate(x), "value"); } }
  }
  missing<LinearFunction>("LinearFunction"); missing<NkLandscape>("NkLandscape"); missing<EqualProducts>("EqualProducts"); missing<Partition>("Partition"); missing<NearestNeighborIsingModel1>("NearestNeighborIsingModel1"); missing<NearestNeighborIsingModel2>("NearestNeighborIsingModel2"); missing<WalshExpansion>("WalshExpansion"); missing<WalshExpansion1>("WalshExpansion1"); missing<WalshExpansion2>("WalshExpansion2"); missing<MaxSat>("MaxSat"); missing<Sudoku>("Sudoku"); missing<Tsp>("Tsp");
  missing<map::Translation>("Translation"); missing<map::Permutation>("Permutation"); missing<map::LinearMap>("LinearMap"); missing<map::AffineMap>("AffineMap"); missing<map::TsAffineMap>("TsAffineMap");
  empty_file<LinearFunction>("LinearFunction"); empty_file<NkLandscape>("NkLandscape"); empty_file<map::AffineMap>("AffineMap"); empty_file<Sudoku>("Sudoku");
  { Tsp a, b; a.random(6); at("Tsp", 6); through_file(a, b); bool same = b.get_num_elements() == a.get_num_elements();
    if (same) for (int r = 0; r < 50 && same; r++) { permutation_t p(6); for (int i = 0; i < 6; i++) p[i] = i; std::shuffle(p.begin(), p.end(), rng); same = std::fabs(a.evaluate(p) - b.evaluate(p)) < 1e-3; }
    if (!same) printf("FINDING key=tsp-save | Tsp::save writes an empty file: a saved random instance with 6 cities is loaded as an instance with %d cities\n", b.get_num_elements()); }
  return done();
}
