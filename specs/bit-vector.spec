# Bit vector primitives
use bits.Bits
extern Generator::uniform { random_real () }
extern Generator::bernoulli { random_bool () }

file lib/hnco/bit-vector.cc

function hnco::bv_is_valid
  logic is_bv
  ensures { result <-> is_bv x }

function hnco::bv_is_zero
  logic is_zero
  ensures { result <-> is_zero x }

function hnco::bit_random(double)
  ensures { is_bit result }

function hnco::bv_hamming_weight(vector<bit> const&)
  ensures { result = weight x }

function hnco::bv_hamming_weight(vector<bool> const&)
  ensures { result = bweight x 0 (length x) }
  locals result_ i
  loop 0
    invariant { result_ = bweight x 0 $k }

function hnco::bv_hamming_distance
  requires { length x = length y }
  ensures { result = dist x y 0 (length x) }
  locals d i
  loop 0
    invariant { d = dist x y 0 $k }

function hnco::bv_dot_product(vector<bit> const&, vector<bit> const&)
  requires { length x = length y }
  ensures { result = dot x y }
  locals result_ i
  loop 0
    invariant { result_ = common x y 0 $k }

function hnco::bv_clear
  ensures { length x = length (old x) /\ is_zero x }

function hnco::bv_add(vector<bit>&, vector<bit> const&)
  requires { length dest = length src /\ is_bv dest /\ is_bv src }
  ensures { dest == add (old dest) src }
  ensures { is_bv dest }
  ensures { length dest = length (old dest) /\ forall i. 0 <= i < length dest -> dest[i] = b2x (old dest)[i] src[i] }
  locals i
  loop 0
    invariant { forall j. 0 <= j < $k -> dest[j] = b2x (old dest)[j] src[j] }
    invariant { forall j. $k <= j < length dest -> dest[j] = (old dest)[j] }

function hnco::bv_dot_product(vector<bit> const&, vector<bool> const&)
  requires { length x = length y }
  ensures { result = mod (bcommon x y 0 (length x)) 2 }
  locals result_ i
  loop 0
    invariant { result_ = bcommon x y 0 $k }

function hnco::bv_add(vector<bit>&, vector<bit> const&, vector<bit> const&)
  requires { length dest = length x /\ length dest = length y /\ is_bv x /\ is_bv y }
  ensures { length dest = length (old dest) }
  ensures { is_bv dest }
  ensures { forall i. 0 <= i < length dest -> dest[i] = b2x x[i] y[i] }
  locals i
  loop 0
    invariant { forall j. 0 <= j < $k -> dest[j] = b2x x[j] y[j] }

function hnco::bv_flip(vector<bit>&, int)
  requires { 0 <= i < length x /\ is_bit x[i] }
  ensures { x = (old x)[i <- 1 - (old x)[i]] }

function hnco::bv_flip(vector<bit>&, vector<int> const&)
  requires { is_bv x /\ sbv_valid sbv (length x) }
  ensures { length x = length (old x) /\ is_bv x }
  ensures { forall i. 0 <= i < length x -> x[i] = b2x (old x)[i] (mod (count sbv i 0 (length sbv)) 2) }
  loop 0
    invariant { is_bv x /\ length x = length (old x) }
    invariant { forall i. 0 <= i < length x -> x[i] = b2x (old x)[i] (mod (count sbv i 0 $k) 2) }

function hnco::bv_random(vector<bit>&)
  ensures { length x = length (old x) /\ is_bv x }
  loop 0
    invariant { forall j. 0 <= j < $k -> is_bit x[j] }

function hnco::bv_random(vector<bit>&, int)
  requires { 0 <= k <= length x }
  ensures { length x = length (old x) /\ is_bv x /\ weight x = (old k) }
  locals n i
  loop 0
    invariant { 0 <= k /\ (k > 0 -> n = length x - $k) }
    invariant { k <= length x - $k }
    invariant { forall j. 0 <= j < $k -> is_bit x[j] }
    invariant { sum x 0 $k + k = k at $L }
  ghost end 0 { sum_ext (pure { x at $B }) x 0 $k }

function hnco::bv_to_vector_bool
  requires { length x = length y }
  ensures { length y = length (old y) /\ forall i. 0 <= i < length y -> (y[i] <-> x[i] <> 0) }
  loop 0
    invariant { forall j. 0 <= j < $k -> (y[j] <-> x[j] <> 0) }

function hnco::bv_from_vector_bool
  requires { length x = length y }
  ensures { length x = length (old x) /\ is_bv x /\ forall i. 0 <= i < length x -> (x[i] = 1 <-> y[i]) }
  loop 0
    invariant { forall j. 0 <= j < $k -> x[j] = if y[j] then 1 else 0 }

function hnco::bv_to_size_type(vector<bit> const&)
  use bits.BitsValue
  requires { length x <= 64 }
  ensures { result = value x 0 (length x) }
  ensures { 0 <= result < pow2 (length x) }
  locals result_ mask i
  loop 0
    invariant { result_ = value x 0 $k }
    invariant { mask = (if $k = 64 then 0 else pow2 $k) }
  ghost begin 0 { value_bounds x 0 $k; shl1 $k }

function hnco::bv_to_size_type(vector<bit> const&, int, int)
  use bits.BitsValue
  requires { 0 <= start < stop /\ stop <= length x /\ stop - start <= 64 }
  ensures { result = value x start stop }
  locals result_ mask i
  loop 0
    invariant { result_ = value x start $k }
    invariant { mask = (if $k - start = 64 then 0 else pow2 ($k - start)) }
  ghost begin 0 { value_bounds x start $k; shl1 ($k - start) }

function hnco::bv_from_size_type
  use bits.BitsValue
  requires { length x <= 64 /\ 0 <= u < pow2 64 }
  ensures { length x = length (old x) /\ is_bv x }
  ensures { forall i. 0 <= i < length x -> x[i] = mod (div u (pow2 i)) 2 }
  ensures { u < pow2 (length x) -> value x 0 (length x) = u }
  locals mask i
  loop 0
    invariant { mask = (if $k = 64 then 0 else pow2 $k) }
    invariant { forall j. 0 <= j < $k -> x[j] = mod (div u (pow2 j)) 2 }
  ghost begin 0 { shl1 $k }
  ghost exit { value_digits x u (length x); }

function hnco::bv_from_string
  ensures { length result = length str }
  ensures { forall i. 0 <= i < length str -> result[i] = (if str[i] = 48 then 0 else 1) }
  ensures { is_bv result }
  locals result_
  loop 0
    invariant { length result_ = $k }
    invariant { forall j. 0 <= j < $k -> result_[j] = (if str[j] = 48 then 0 else 1) }

file lib/hnco/sparse-bit-vector.cc
function hnco::sbv_is_valid(vector<int> const&)
  ensures { result <-> ((forall i. 0 <= i < length sbv -> 0 <= sbv[i]) /\ forall i j. 0 <= i < j < length sbv -> sbv[i] <= sbv[j]) }
  loop 0
    invariant { forall j. 0 <= j < $k -> 0 <= sbv[j] }

function hnco::sbv_is_valid(vector<int> const&, int)
  ensures { result <-> sbv_valid sbv n }
  loop 0
    invariant { forall j. 0 <= j < $k -> sbv[j] < n }
