// Round trips of the archived classes of /repo: the members save, load and serialize are instantiated with archives
// that keep what is written and read it back in the same order (the assumed behaviour of boost's text archives).
#include <limits>
#include "hnco/maps/map.hh"
#include "hnco/functions/walsh-term.hh"
#include "hnco/functions/collection/linear-function.hh"
#include "hnco/functions/collection/nk-landscape.hh"
#include "hnco/functions/collection/equal-products.hh"
#include "hnco/functions/collection/partition.hh"
#include "hnco/functions/collection/walsh/walsh-expansion.hh"
#include "hnco/functions/collection/walsh/walsh-expansion-1.hh"
#include "hnco/functions/collection/walsh/walsh-expansion-2.hh"
#include "hnco/functions/collection/ising/nearest-neighbor-ising-model-1.hh"
#include "hnco/functions/collection/ising/nearest-neighbor-ising-model-2.hh"
namespace hnco { namespace client {
using namespace hnco::function;
using namespace hnco::map;
struct Output {
  std::vector<int> kinds;
  std::vector<int> is; std::vector<double> rs;
  std::vector<std::vector<int>> ivs; std::vector<std::vector<double>> rvs; std::vector<bit_vector_t> bvs; std::vector<std::vector<bool>> fvs;
  std::vector<std::vector<std::vector<int>>> ims; std::vector<std::vector<std::vector<double>>> rms; std::vector<bit_matrix_t> bms;
  std::vector<std::vector<WalshTerm>> wts; std::vector<transvection_sequence_t> tss;
  void operator&(bool x) { kinds.push_back(0); is.push_back(x ? 1 : 0); }
  void operator&(int x) { kinds.push_back(1); is.push_back(x); }
  void operator&(double x) { kinds.push_back(2); rs.push_back(x); }
  void operator&(const std::vector<int>& x) { kinds.push_back(3); ivs.push_back(x); }
  void operator&(const std::vector<double>& x) { kinds.push_back(4); rvs.push_back(x); }
  void operator&(const bit_vector_t& x) { kinds.push_back(5); bvs.push_back(x); }
  void operator&(const std::vector<std::vector<int>>& x) { kinds.push_back(6); ims.push_back(x); }
  void operator&(const std::vector<std::vector<double>>& x) { kinds.push_back(7); rms.push_back(x); }
  void operator&(const bit_matrix_t& x) { kinds.push_back(8); bms.push_back(x); }
  void operator&(const std::vector<WalshTerm>& x) { kinds.push_back(9); wts.push_back(x); }
  void operator&(const std::vector<bool>& x) { kinds.push_back(11); fvs.push_back(x); }
  void operator&(const transvection_sequence_t& x) { kinds.push_back(10); tss.push_back(x); }
};
struct Input {
  Output file; int pos, i, r, iv, rv, bv, im, rm, bm, wt, ts, fv;
  // the next object of the archive must have the kind that is read
  void kind(int k) { assert(pos < int(file.kinds.size()) && file.kinds[pos] == k); pos++; }
  void operator&(bool& x) { kind(0); x = file.is[i] != 0; i++; }
  void operator&(int& x) { kind(1); x = file.is[i]; i++; }
  void operator&(double& x) { kind(2); x = file.rs[r]; r++; }
  void operator&(std::vector<int>& x) { kind(3); x = file.ivs[iv]; iv++; }
  void operator&(std::vector<double>& x) { kind(4); x = file.rvs[rv]; rv++; }
  void operator&(bit_vector_t& x) { kind(5); x = file.bvs[bv]; bv++; }
  void operator&(std::vector<std::vector<int>>& x) { kind(6); x = file.ims[im]; im++; }
  void operator&(std::vector<std::vector<double>>& x) { kind(7); x = file.rms[rm]; rm++; }
  void operator&(bit_matrix_t& x) { kind(8); x = file.bms[bm]; bm++; }
  void operator&(std::vector<WalshTerm>& x) { kind(9); x = file.wts[wt]; wt++; }
  void operator&(std::vector<bool>& x) { kind(11); x = file.fvs[fv]; fv++; }
  void operator&(transvection_sequence_t& x) { kind(10); x = file.tss[ts]; ts++; }
};
void trip_Translation(const Translation& f, Translation& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_Permutation(const hnco::map::Permutation& f, hnco::map::Permutation& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_LinearMap(const LinearMap& f, LinearMap& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_AffineMap(const AffineMap& f, AffineMap& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_TsAffineMap(const TsAffineMap& f, TsAffineMap& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_Transvection(const Transvection& f, Transvection& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_NearestNeighborIsingModel1(const NearestNeighborIsingModel1& f, NearestNeighborIsingModel1& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_NearestNeighborIsingModel2(const NearestNeighborIsingModel2& f, NearestNeighborIsingModel2& g, Output& o, Input& i) { f.save(o, 0); i.file = o; g.load(i, 0); }
void trip_LinearFunction(LinearFunction& f, LinearFunction& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_NkLandscape(NkLandscape& f, NkLandscape& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_EqualProducts(EqualProducts& f, EqualProducts& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_Partition(Partition& f, Partition& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_WalshExpansion(WalshExpansion& f, WalshExpansion& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_WalshExpansion1(WalshExpansion1& f, WalshExpansion1& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_WalshExpansion2(WalshExpansion2& f, WalshExpansion2& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
void trip_WalshTerm(WalshTerm& f, WalshTerm& g, Output& o, Input& i) { f.serialize(o, 0); i.file = o; g.serialize(i, 0); }
} }
