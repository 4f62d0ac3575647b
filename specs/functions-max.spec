# The declared maximum: an upper bound of every value, and the value at some point
use cpp.Pow2 bits.Bits fn.Fn reals.RSum reals.Flip reals.Linear reals.Hiff
import functions
opaque Function fn
opaque Map fmapping
extern Function::get_bv_size { fn_size {o} }
extern Function::get_maximum { fn_max {o} }
extern Function::has_known_maximum { fn_has_max {o} }
extern Function::evaluate { fn_evaluate {o} {0} }
extern Map::is_surjective { fm_surjective {o} }
extern Map::map { {1} := fm_image {o} {0} }
define {
  type fmapping
  function fm_onto fmapping : bool
  val fm_surjective (m: fmapping) : bool ensures { result = fm_onto m }
  function image_of fmapping (seq int) : seq int
  val fm_image (m: fmapping) (x: seq int) : seq int ensures { result = image_of m x }
  let rec ghost full_sum (x: seq int) (lo hi: int) requires { 0 <= lo <= hi <= length x /\ all_are x 1 } ensures { sum x lo hi = hi - lo } variant { hi - lo }
  = if lo < hi then full_sum x lo (hi-1)
  let ghost if_full (x: seq int) ensures { all_are x 1 -> weight x = length x } = if any bool ensures { result <-> all_are x 1 } then full_sum x 0 (length x)
  let ghost if_full_part (x: seq int) (lo hi: int) requires { 0 <= lo <= hi <= length x } ensures { all_are x 1 -> sum x lo hi = hi - lo } = if any bool ensures { result <-> all_are x 1 } then full_sum x lo hi
  let ghost not_both (x: seq int) (b c h t: int) requires { head_is x b h /\ tail_is x c t /\ b <> c } ensures { h + t <= length x }
  = if h + t > length x then (assert { length x > 0 }; assert { h > 0 /\ t > 0 }; assert { x[h-1] = b }; assert { x[h-1] = c })
  (* h ones, then zeros *)
  predicate peak (x: seq int) (b h: int) = 0 <= h <= length x /\ (forall i. 0 <= i < h -> x[i] = b) /\ forall i. h <= i < length x -> x[i] = 1 - b
  function posw (w: seq real) (i: int) : real = if w[i] >. 0.0 then w[i] else 0.0
  predicate best_lin (w: seq real) (x: seq int) = forall i. 0 <= i < length x -> x[i] = if w[i] >. 0.0 then 1 else 0
  function absw (w: seq real) (i: int) : real = if w[i] >. 0.0 then w[i] else -. w[i]
  predicate best_spin (w: seq real) (x: seq int) = forall i. 0 <= i < length x -> x[i] = if w[i] >. 0.0 then 0 else 1
}
file lib/hnco/functions/collection/theory.cc
function hnco::function::OneMax::get_maximum
  ensures { result = from_int _bv_size }
function hnco::function::OneMax::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result <=. from_int _bv_size }
  ensures { all_are x 1 -> result = from_int _bv_size }
  ghost entry { if_full x; weight_bounds x 0 (length x) }

function hnco::function::LeadingOnes::get_maximum
  ensures { result = from_int _bv_size }
function hnco::function::LeadingOnes::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result <=. from_int _bv_size }
  ensures { all_are x 1 -> result = from_int _bv_size }
  loop 0
    invariant { 0 <= i <= length x }
    variant { length x - i }

function hnco::function::Needle::get_maximum
  ensures { result = 1.0 }
function hnco::function::Needle::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result <=. 1.0 }
  ensures { all_are x 1 -> result = 1.0 }

function hnco::function::Hiff::get_maximum
  requires { _bv_size >= 0 /\ _depth >= 0 /\ (_depth + 1) * _bv_size <= 2147483647 }
  ensures { result = from_int ((_depth + 1) * _bv_size) }
function hnco::function::Hiff::evaluate
  requires { is_bv x /\ length x = _bv_size /\ _depth >= 0 /\ _bv_size = pow2 _depth }
  ensures { result <=. from_int ((_depth + 1) * _bv_size) }
  ensures { all_are x 1 -> result = from_int ((_depth + 1) * _bv_size) }
  loop 0
    invariant { 0 <= i <= _depth + 1 /\ block_size = pow2 i /\ num_blocks = (if i <= _depth then pow2 (_depth-i) else 0) }
    invariant { result_ <=. from_int (i * _bv_size) /\ (all_are x 1 -> result_ = from_int (i * _bv_size)) }
    variant { _depth + 1 - i }
  ghost begin 0 { pow2_split _depth i; assert { block_size >= 1 /\ num_blocks >= 1 /\ num_blocks * block_size = _bv_size }; assert { (i+1) * _bv_size = i * _bv_size + num_blocks * block_size } }
  loop 1
    invariant { 0 <= j <= num_blocks /\ offset = j * block_size }
    invariant { result_ <=. from_int (i * _bv_size + j * block_size) /\ (all_are x 1 -> result_ = from_int (i * _bv_size + j * block_size)) }
    invariant { all_are x 1 -> j > 0 -> not last_ }
    variant { num_blocks - j }
  ghost begin 1 { block_in j num_blocks block_size (length x) }
  ghost after 1 { assert { result_ <=. from_int ((i+1) * _bv_size) }; assert { (i+1) * _bv_size <= (_depth + 1) * _bv_size } }

function hnco::function::Ridge::get_maximum
  requires { 0 <= _bv_size <= 1000000000 }
  ensures { result = from_int (2 * _bv_size) }
function hnco::function::Ridge::evaluate
  requires { is_bv x /\ _bv_size = length x /\ length x <= 1000000000 }
  ensures { result <=. from_int (2 * _bv_size) }
  ensures { all_are x 1 -> result = from_int (2 * _bv_size) }
  ghost decl it { if_ridge x it; weight_bounds x 0 (length x) }

function hnco::function::Plateau::get_maximum
  requires { 0 <= _bv_size <= 1000000000 }
  ensures { result = from_int (_bv_size + 2) }
function hnco::function::Plateau::evaluate
  requires { is_bv x /\ _bv_size = length x /\ length x <= 1000000000 }
  ensures { result <=. from_int (_bv_size + 2) }
  ensures { all_are x 1 -> result = from_int (_bv_size + 2) }
  ghost decl it { weight_bounds x 0 (length x); if_full x }

file lib/hnco/functions/collection/four-peaks.cc
function head
  requires { is_bv x }
  ensures { head_is x b result }
  loop 0
    invariant { 0 <= count <= length x /\ iter = count /\ forall i. 0 <= i < count -> x[i] = b }
    variant { length x - count }

function tail
  requires { is_bv x }
  ensures { tail_is x b result }
  loop 0
    invariant { 0 <= count <= length x /\ iter = count /\ forall i. length x - count <= i < length x -> x[i] = b }
    variant { length x - count }

function hnco::function::FourPeaks::FourPeaks(int, int)
  raises { Throw -> true }
  requires { 0 <= bv_size <= 1000000000 /\ -2147483648 <= threshold }
  ensures { _bv_size = bv_size /\ _threshold = threshold /\ threshold <= div bv_size 2 - 1 }
  ensures { _maximum = 2 * bv_size - max threshold (-1) - 1 }
function hnco::function::FourPeaks::get_maximum
  ensures { result = from_int _maximum }
function hnco::function::FourPeaks::evaluate
  requires { is_bv x /\ length x = _bv_size <= 1000000000 /\ _threshold <= div _bv_size 2 - 1 /\ _maximum = 2 * _bv_size - max _threshold (-1) - 1 }
  ensures { result <=. from_int _maximum }
  ensures { peak x 1 (_bv_size - 1 - max _threshold (-1)) -> result = from_int _maximum }
  ghost decl t0 { not_both x 1 0 h1 t0 }

function hnco::function::SixPeaks::SixPeaks(int, int)
  raises { Throw -> true }
  requires { 0 <= bv_size <= 1000000000 /\ -2147483648 <= threshold }
  ensures { _bv_size = bv_size /\ _threshold = threshold /\ threshold <= div bv_size 2 - 1 }
  ensures { _maximum = 2 * bv_size - max threshold (-1) - 1 }
function hnco::function::SixPeaks::get_maximum
  ensures { result = from_int _maximum }
function hnco::function::SixPeaks::evaluate
  requires { is_bv x /\ length x = _bv_size <= 1000000000 /\ _threshold <= div _bv_size 2 - 1 /\ _maximum = 2 * _bv_size - max _threshold (-1) - 1 }
  ensures { result <=. from_int _maximum }
  ensures { peak x 1 (_bv_size - 1 - max _threshold (-1)) -> result = from_int _maximum }
  ghost decl t1 { not_both x 1 0 h1 t0; not_both x 0 1 h0 t1 }

file lib/hnco/functions/collection/jump.cc
function hnco::function::Jump::Jump(int, int)
  raises { Throw -> true }
  requires { bv_size > 0 }
  ensures { _bv_size = bv_size /\ _gap = gap /\ 1 <= gap }
function hnco::function::Jump::get_maximum
  ensures { result = from_int _bv_size }
function hnco::function::Jump::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result <=. from_int _bv_size }
  ensures { all_are x 1 -> result = from_int _bv_size }
  ghost entry { if_full x; weight_bounds x 0 (length x) }
function hnco::function::DeceptiveJump::DeceptiveJump(int, int)
  raises { Throw -> true }
  requires { bv_size > 0 }
  ensures { _bv_size = bv_size /\ _gap = gap /\ 1 <= gap }
function hnco::function::DeceptiveJump::get_maximum
  requires { 0 <= _bv_size /\ 1 <= _gap /\ _bv_size + _gap <= 2147483647 }
  ensures { result = from_int (_bv_size + _gap) }
function hnco::function::DeceptiveJump::evaluate
  requires { is_bv x /\ length x = _bv_size /\ 1 <= _gap /\ _bv_size + _gap <= 2147483647 }
  ensures { result <=. from_int (_bv_size + _gap) }
  ensures { all_are x 1 -> result = from_int (_bv_size + _gap) }
  ghost entry { if_full x; weight_bounds x 0 (length x) }

file lib/hnco/functions/collection/trap.cc
function hnco::function::Trap::Trap(int, int)
  raises { Throw -> true }
  requires { bv_size >= 0 /\ num_traps > 0 }
  ensures { _bv_size = bv_size /\ _num_traps = num_traps /\ _trap_size >= 0 /\ _bv_size = _num_traps * _trap_size }
function hnco::function::Trap::get_maximum
  ensures { result = from_int _bv_size }
function hnco::function::Trap::evaluate
  requires { is_bv x /\ _trap_size >= 0 /\ _num_traps >= 0 /\ length x = _num_traps * _trap_size /\ _bv_size = length x }
  ensures { result <=. from_int _bv_size }
  ensures { all_are x 1 -> result = from_int _bv_size }
  loop 0
    invariant { first = $k * _trap_size /\ last_ = first + _trap_size }
    invariant { result_ <=. from_int first /\ (all_are x 1 -> result_ = from_int first) }
  ghost begin 0 { trap_in $k _num_traps _trap_size; weight_bounds x first (first + _trap_size); if_full_part x first (first + _trap_size) }
  loop 1
    invariant { weight_ = sum x first j }

file lib/hnco/functions/collection/linear-function.cc
function hnco::function::LinearFunction::get_maximum
  ensures { result = rsum (posw _weights) 0 (length _weights) }
  loop 0
    invariant { result_ = rsum (posw _weights) 0 $k }
function hnco::function::LinearFunction::evaluate
  requires { is_bv x /\ length x = length _weights }
  ensures { result <=. rsum (posw _weights) 0 (length _weights) }
  ensures { best_lin _weights x -> result = rsum (posw _weights) 0 (length _weights) }
  loop 0
    invariant { result_ <=. rsum (posw _weights) 0 $k }
    invariant { best_lin _weights x -> result_ = rsum (posw _weights) 0 $k }

file lib/hnco/functions/collection/walsh/walsh-expansion-1.cc
function hnco::function::WalshExpansion1::get_maximum
  ensures { result = rsum (absw _linear) 0 (length _linear) }
  loop 0
    invariant { result_ = rsum (absw _linear) 0 $k }
function hnco::function::WalshExpansion1::evaluate
  requires { is_bv s /\ length s = length _linear }
  ensures { result <=. rsum (absw _linear) 0 (length _linear) }
  ensures { best_spin _linear s -> result = rsum (absw _linear) 0 (length _linear) }
  loop 0
    invariant { result_ <=. rsum (absw _linear) 0 $k }
    invariant { best_spin _linear s -> result_ = rsum (absw _linear) 0 $k }

file lib/hnco/functions/modifiers/modifier.cc
function hnco::function::modifier::FunctionMapComposition::has_known_maximum
  ensures { result <-> has_max _function /\ fm_onto _map }
function hnco::function::modifier::FunctionMapComposition::get_maximum
  ensures { result = max_of _function /\ has_max _function /\ fm_onto _map }
  raises { Throw -> not (has_max _function /\ fm_onto _map) }
function hnco::function::modifier::FunctionMapComposition::evaluate
  ensures { result = value_of _function (image_of _map bv) }

file lib/hnco/functions/controllers/controller.cc
function hnco::function::controller::Controller::has_known_maximum
  ensures { result -> has_max _function }
function hnco::function::controller::Controller::get_maximum
  ensures { result = max_of _function }
