# Representations: decoding of bit vectors
use cpp.Pow2 bits.Bits gf2.Gf2 cpp.Shuffle cpp.Perm bits.BitsValue repr.Repr
record DyadicIntegerRepresentation<int>
record DyadicIntegerRepresentation<long>
record DyadicFloatRepresentation<double>
define {
  function fsize (r: dyadicFloatRepresentation_double_) : int = length r.dyadicFloatRepresentation_double__lengths
  predicate float_ok (r: dyadicFloatRepresentation_double_) = 0 < length r.dyadicFloatRepresentation_double__lengths /\ 0.0 <. r.dyadicFloatRepresentation_double__length /\ forall i. 0 <= i < length r.dyadicFloatRepresentation_double__lengths -> r.dyadicFloatRepresentation_double__lengths[i] = half (i + 1)
  function fdecode (r: dyadicFloatRepresentation_double_) (bv: seq int) (start: int) : real = r.dyadicFloatRepresentation_double__lower_bound +. r.dyadicFloatRepresentation_double__length *. frac bv start (start + length r.dyadicFloatRepresentation_double__lengths)
  predicate idx_ok (r: dyadicIntegerRepresentation_int_) (n: int) = 1 < n /\ r.dyadicIntegerRepresentation_int__lower_bound = 0 /\ r.dyadicIntegerRepresentation_int__upper_bound = n - 1 /\
    r.dyadicIntegerRepresentation_int__size = r.dyadicIntegerRepresentation_int__exact_size /\ bitlen (n - 1) r.dyadicIntegerRepresentation_int__exact_size /\ r.dyadicIntegerRepresentation_int__exact_size <= 31
}
file @specs/tu/representations.cc
function hnco::representation::DyadicIntegerRepresentation<int>::set_exact_size
  requires { lower_bound < upper_bound /\ upper_bound - lower_bound < pow2 31 }
  ensures { _size = old _size /\ _lower_bound = old _lower_bound /\ _upper_bound = old _upper_bound }
  ensures { bitlen (upper_bound - lower_bound) _exact_size /\ _exact_size <= 31 }
  loop 0
    invariant { 0 <= difference /\ difference * pow2 _exact_size <= upper_bound - lower_bound < (difference + 1) * pow2 _exact_size /\ 0 <= _exact_size }
    invariant { difference > 0 -> pow2 _exact_size <= upper_bound - lower_bound }
    invariant { difference = 0 -> 0 < _exact_size /\ pow2 (_exact_size - 1) <= upper_bound - lower_bound }
    variant { difference }
  ghost after 0 { if _exact_size > 31 then pow2_mono 31 (_exact_size - 1) }

function hnco::representation::DyadicIntegerRepresentation<int>::unpack
  requires { bitlen (_upper_bound - _lower_bound) _exact_size /\ _exact_size <= 31 /\ 1 <= _size <= _exact_size }
  requires { 0 <= start /\ start + _size <= length bv }
  ensures { result = int_decode _lower_bound _upper_bound (value bv start (start + _size) * pow2 (_exact_size - _size)) }
  ensures { _size = old _size /\ _exact_size = old _exact_size /\ _lower_bound = old _lower_bound /\ _upper_bound = old _upper_bound }
  ensures { _lower_bound <= result <= _upper_bound }
  ghost entry { value_bounds bv start (start + _size); shift_fits (value bv start (start + _size)) _size _exact_size; pow2_mono _exact_size 63 }

function hnco::representation::DyadicIntegerRepresentation<long>::set_exact_size
  requires { lower_bound < upper_bound /\ upper_bound - lower_bound < pow2 63 }
  ensures { _size = old _size /\ _lower_bound = old _lower_bound /\ _upper_bound = old _upper_bound }
  ensures { bitlen (upper_bound - lower_bound) _exact_size /\ _exact_size <= 63 }
  loop 0
    invariant { 0 <= difference /\ difference * pow2 _exact_size <= upper_bound - lower_bound < (difference + 1) * pow2 _exact_size /\ 0 <= _exact_size }
    invariant { difference > 0 -> pow2 _exact_size <= upper_bound - lower_bound }
    invariant { difference = 0 -> 0 < _exact_size /\ pow2 (_exact_size - 1) <= upper_bound - lower_bound }
    variant { difference }
  ghost after 0 { if _exact_size > 63 then pow2_mono 63 (_exact_size - 1) }

function hnco::representation::DyadicIntegerRepresentation<long>::unpack
  requires { bitlen (_upper_bound - _lower_bound) _exact_size /\ _exact_size <= 63 /\ 1 <= _size <= _exact_size }
  requires { 0 <= start /\ start + _size <= length bv }
  ensures { result = int_decode _lower_bound _upper_bound (value bv start (start + _size) * pow2 (_exact_size - _size)) }
  ensures { _size = old _size /\ _exact_size = old _exact_size /\ _lower_bound = old _lower_bound /\ _upper_bound = old _upper_bound }
  ensures { _lower_bound <= result <= _upper_bound }
  ghost entry { value_bounds bv start (start + _size); shift_fits (value bv start (start + _size)) _size _exact_size; pow2_mono _exact_size 63 }

function hnco::representation::DyadicFloatRepresentation<double>::compute_lengths
  requires { 0 < size }
  ensures { _lower_bound = old _lower_bound /\ _length = old _length }
  ensures { length _lengths = size /\ forall i. 0 <= i < size -> _lengths[i] = half (i + 1) }
  loop 0
    invariant { length _lengths = size /\ x = half ($k + 1) /\ forall i. 0 <= i < $k -> _lengths[i] = half (i + 1) }

function hnco::representation::DyadicFloatRepresentation<double>::unpack
  requires { forall i. 0 <= i < length _lengths -> _lengths[i] = half (i + 1) }
  requires { 0 <= start /\ 0 < length _lengths /\ start + length _lengths <= length bv /\ 0.0 <. _length }
  ensures { result = _lower_bound +. _length *. frac bv start (start + length _lengths) }
  ensures { _lengths = old _lengths /\ _lower_bound = old _lower_bound /\ _length = old _length }
  ensures { _lower_bound <=. result <. _lower_bound +. _length }
  loop 0
    invariant { offset = $k - start /\ result_ = frac bv start $k }

function hnco::client::decode_int
  requires { lo < hi /\ hi - lo < pow2 31 /\ 0 <= start }
  requires { forall e. bitlen (hi - lo) e -> start + e <= length bv }
  ensures { lo <= result <= hi /\ exists e. bitlen (hi - lo) e /\ result = int_decode lo hi (value bv start (start + e)) }

function hnco::client::decode_int_size
  requires { lo < hi /\ hi - lo < pow2 31 /\ 0 <= start /\ 0 < size < 32 /\ start + size <= length bv }
  ensures { lo <= result <= hi }

function hnco::client::decode_int_first
  requires { 1 < n < pow2 31 /\ 0 <= start /\ forall e. bitlen (n - 1) e -> start + e <= length bv }
  ensures { 0 <= result < n /\ exists e. bitlen (n - 1) e /\ result = int_decode 0 (n - 1) (value bv start (start + e)) }

function hnco::client::decode_long
  requires { lo < hi /\ hi - lo < pow2 63 /\ 0 <= start }
  requires { forall e. bitlen (hi - lo) e -> start + e <= length bv }
  ensures { lo <= result <= hi /\ exists e. bitlen (hi - lo) e /\ result = int_decode lo hi (value bv start (start + e)) }

function hnco::client::decode_double
  requires { lo <. hi /\ 0 < size /\ 0 <= start /\ start + size <= length bv }
  ensures { result = lo +. (hi -. lo) *. frac bv start (start + size) }
  ensures { lo <=. result <. hi }

function hnco::representation::PermutationRepresentation::unpack
  requires { 0 <= start /\ length permutation = length _values /\ 1 <= _element_size <= 31 }
  requires { start + length _values * _element_size <= length bv }
  ensures { length _values = length (old _values) /\ _element_size = old _element_size /\ _size = old _size }
  ensures { is_perm permutation /\ length permutation = length _values }
  ensures { forall i. 0 <= i < length _values -> _values[i] = code bv start _element_size i }
  ensures { forall i j. 0 <= i < j < length permutation -> _values[permutation[i]] <= _values[permutation[j]] }
  loop 0
    invariant { length _values = length (old _values) /\ length permutation = length _values /\ start = (start at L0) + $k * _element_size }
    invariant { forall i. 0 <= i < $k -> permutation[i] = i }
    variant { length _values - $k }
    invariant { forall i. 0 <= i < $k -> _values[i] = code bv (start at L0) _element_size i }
  ghost begin 0 { mul_mono ($k + 1) (length _values) _element_size; assert { ($k + 1) * _element_size = $k * _element_size + _element_size }; value_bounds bv start (start + _element_size); pow2_mono _element_size 31 }

record LinearCategoricalRepresentation
function hnco::representation::IntegerCategoricalRepresentation::unpack
  requires { 0 < _num_categories /\ 1 <= _size <= 64 /\ 0 <= start /\ start + _size <= length bv }
  ensures { _num_categories = old _num_categories /\ _size = old _size }
  ensures { result = mod (value bv start (start + _size)) _num_categories /\ 0 <= result < _num_categories }

function hnco::representation::LinearCategoricalRepresentation::unpack
  requires { 0 < _num_categories /\ 0 < _ncols /\ 0 < _nrows <= 31 /\ length _x = _ncols /\ length _y = _nrows /\ valid_mat _A /\ length _A = _nrows /\ length _A[0] = _ncols }
  requires { 0 <= start /\ start + _ncols <= length bv /\ is_bv bv }
  ensures { _num_categories = old _num_categories /\ _A = old _A /\ _nrows = old _nrows /\ _ncols = old _ncols /\ length _y = _nrows }
  ensures { 0 <= result < _num_categories }
  ensures { result = mod (value (mul _A _x) 0 _nrows) _num_categories /\ length _x = _ncols /\ forall i. 0 <= i < _ncols -> _x[i] = bv[start + i] }
  loop 0
    invariant { dest = $k - start /\ length _x = _ncols /\ forall i. 0 <= i < dest -> _x[i] = bv[start + i] }

function hnco::representation::ValueSetRepresentation<double>::unpack
  requires { idx_ok _index_representation (length _values) /\ 0 <= start /\ start + _index_representation.dyadicIntegerRepresentation_int__size <= length bv }
  ensures { _values = old _values /\ _index_representation = old _index_representation }
  ensures { result = _values[int_decode 0 (length _values - 1) (value bv start (start + _index_representation.dyadicIntegerRepresentation_int__size))] }
  ensures { exists i. 0 <= i < length _values /\ result = _values[i] }

function hnco::client::decode_value
  requires { 1 < length values < pow2 31 /\ 0 <= start /\ forall e. bitlen (length values - 1) e -> start + e <= length bv }
  ensures { exists i. 0 <= i < length values /\ result = values[i] }

function hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>::unpack
  fields _real_part _imaginary_part
  requires { float_ok _real_part /\ float_ok _imaginary_part /\ 0 <= start /\ start + fsize _real_part + fsize _imaginary_part <= length bv }
  ensures { _real_part = old _real_part /\ _imaginary_part = old _imaginary_part }
  ensures { result.pfst = fdecode _real_part bv start /\ result.psnd = fdecode _imaginary_part bv (start + fsize _real_part) }
