// client of the Walsh transforms: the expansion made of the terms of the transform
#include "hnco/functions/function.hh"
#include "hnco/functions/collection/walsh/walsh-expansion.hh"
namespace hnco {
namespace client {
double expand_naive(hnco::function::Function *fn, const bit_vector_t& x) {
  std::vector<hnco::function::WalshTerm> terms;
  hnco::function::compute_walsh_transform(fn, terms);
  hnco::function::WalshExpansion expansion;
  expansion.set_terms(terms);
  return expansion.evaluate(x);
}
double expand_fast(hnco::function::Function *fn, const bit_vector_t& x) {
  std::vector<hnco::function::WalshTerm> terms;
  hnco::function::compute_fast_walsh_transform(fn, terms);
  hnco::function::WalshExpansion expansion;
  expansion.set_terms(terms);
  return expansion.evaluate(x);
}
}
}
