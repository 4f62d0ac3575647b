// Instantiates the adapter templates of /repo for the extraction of their members.
#include <complex>
#include <limits>
#include "hnco/functions/modifiers/all.hh"
#include "hnco/functions/converter.hh"
#include "hnco/functions/multivariate-function-adapter.hh"
#include "hnco/functions/permutation-function-adapter.hh"
#include "hnco/functions/universal-function-adapter.hh"
#include "hnco/functions/modifiers/modifier.cc"
#include "hnco/functions/modifiers/prior-noise.cc"
#include "hnco/functions/modifiers/parsed-modifier.cc"
namespace hnco { namespace client {
using namespace hnco::function;
using namespace hnco::representation;
// arbitrary functions over vectors of numbers and over permutations
struct RealFunction {
  using domain_type = double; using codomain_type = double;
  int get_num_variables() const;
  double evaluate(const std::vector<double>& xs);
  void display(std::ostream& stream) const; void describe(const std::vector<double>& xs, std::ostream& stream);
};
struct IntegerFunction {
  using domain_type = int; using codomain_type = int;
  int get_num_variables() const;
  int evaluate(const std::vector<int>& xs);
  void display(std::ostream& stream) const; void describe(const std::vector<int>& xs, std::ostream& stream);
};
struct ComplexFunction {
  using domain_type = std::complex<double>; using codomain_type = std::complex<double>;
  int get_num_variables() const;
  std::complex<double> evaluate(const std::vector<std::complex<double>>& xs);
  void display(std::ostream& stream) const; void describe(const std::vector<std::complex<double>>& xs, std::ostream& stream);
};
struct PermutationFunction {
  int get_num_elements() const;
  double evaluate(const permutation_t& p);
  void display(std::ostream& stream) const; void describe(const permutation_t& p, std::ostream& stream);
};
} }
template struct hnco::function::ScalarToDouble<double>;
template struct hnco::function::ScalarToDouble<int>;
template struct hnco::function::AbsoluteValue<double>;
template struct hnco::function::AbsoluteValue<int>;
template struct hnco::function::OppositeAbsoluteValue<double>;
template struct hnco::function::SquaredMagnitude<double>;
template struct hnco::function::OppositeSquaredMagnitude<double>;
template class hnco::function::MultivariateFunctionAdapter<hnco::client::RealFunction, hnco::representation::DyadicFloatRepresentation<double>, hnco::function::ScalarToDouble<double>>;
template class hnco::function::MultivariateFunctionAdapter<hnco::client::IntegerFunction, hnco::representation::DyadicIntegerRepresentation<int>, hnco::function::ScalarToDouble<int>>;
template class hnco::function::MultivariateFunctionAdapter<hnco::client::ComplexFunction, hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>, hnco::function::SquaredMagnitude<double>>;
template class hnco::function::PermutationFunctionAdapter<hnco::client::PermutationFunction>;
