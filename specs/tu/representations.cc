// Instantiates the representation templates of /repo for the extraction of their members.
#include <limits>
#include "hnco/representations/all.hh"
template class hnco::representation::DyadicIntegerRepresentation<int>;
template class hnco::representation::DyadicIntegerRepresentation<long>;
template class hnco::representation::DyadicFloatRepresentation<double>;
template class hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>;
template class hnco::representation::ValueSetRepresentation<double>;
// Clients: construct a representation with the constructors of /repo and decode a bit vector.
namespace hnco { namespace client {
using namespace hnco::representation;
int decode_int(int lo, int hi, const bit_vector_t& bv, int start) { DyadicIntegerRepresentation<int> r(lo, hi); return r.unpack(bv, start); }
int decode_int_size(int lo, int hi, int size, const bit_vector_t& bv, int start) { DyadicIntegerRepresentation<int> r(lo, hi, size); return r.unpack(bv, start); }
int decode_int_first(int n, const bit_vector_t& bv, int start) { DyadicIntegerRepresentation<int> r(n); return r.unpack(bv, start); }
long decode_long(long lo, long hi, const bit_vector_t& bv, int start) { DyadicIntegerRepresentation<long> r(lo, hi); return r.unpack(bv, start); }
double decode_double(double lo, double hi, int size, const bit_vector_t& bv, int start) { DyadicFloatRepresentation<double> r(lo, hi, size); return r.unpack(bv, start); }
double decode_value(const std::vector<double>& values, const bit_vector_t& bv, int start) { ValueSetRepresentation<double> r(values); return r.unpack(bv, start); }
} }
