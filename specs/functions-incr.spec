# Incremental evaluation: the old value plus the difference of the full evaluations (see functions.spec)
use cpp.Pow2 bits.Bits cpp.Sum fn.Fn reals.PairSgn reals.RSum reals.Flip reals.Linear
import functions
opaque Function fn
opaque StopWatch int
extern StopWatch::start { () }
extern StopWatch::stop { () }
extern Function::evaluate { fn_evaluate {o} {0} }
extern Function::evaluate_incrementally { fn_incr {o} {0} {1} {2} }
extern Function::evaluate_safely { fn_evaluate_safely {o} {0} }
extern Function::update { fn_update {o} {0} {1} }
extern Function::get_bv_size { fn_size {o} }
extern Function::get_maximum { fn_max {o} }
extern Function::has_known_maximum { fn_has_max {o} }
extern Function::provides_incremental_evaluation { fn_has_incr {o} }
define {
  let rec ghost count_mem (s: seq int) (n v hi: int)
    requires { ascending s n /\ 0 <= hi <= length s }
    ensures { count s v 0 hi = if among s hi v then 1 else 0 } variant { hi }
  = if hi > 0 then count_mem s n v (hi-1)
  let ghost count_all (s: seq int) (n: int)
    requires { ascending s n } ensures { sbv_valid s n /\ forall v. mod (count s v 0 (length s)) 2 = if among s (length s) v then 1 else 0 }
  = let lemma one (v: int) ensures { mod (count s v 0 (length s)) 2 = if among s (length s) v then 1 else 0 } = count_mem s n v (length s) in ()
}
file lib/hnco/functions/collection/theory.cc
function hnco::function::OneMax::evaluate_incrementally
  requires { is_bv x /\ ascending flipped_bits (length x) }
  ensures { result = v +. from_int (weight (flipn x flipped_bits (length flipped_bits)) - weight x) }
  loop 0
    invariant { delta = from_int (weight (flipn x flipped_bits $k) - weight x) }
  ghost begin 0 { next_flip x flipped_bits $k; sum_flip (flipn x flipped_bits $k) flipped_bits[$k] (length x) }

file lib/hnco/functions/collection/linear-function.cc
function hnco::function::LinearFunction::evaluate_incrementally
  requires { is_bv x /\ length _weights = length x /\ ascending flipped_bits (length x) }
  ensures { result = value +. lin _weights (flipn x flipped_bits (length flipped_bits)) -. lin _weights x }
  loop 0
    invariant { value = (value at L0) +. lin _weights (flipn x flipped_bits $k) -. lin _weights x }
  ghost begin 0 { next_flip x flipped_bits $k; lin_flip _weights (flipn x flipped_bits $k) flipped_bits[$k] }

file lib/hnco/functions/collection/walsh/walsh-expansion-1.cc
function hnco::function::WalshExpansion1::evaluate_incrementally
  requires { is_bv x /\ length _linear = length x /\ ascending flipped_bits (length x) }
  ensures { result = value +. spins _linear (flipn x flipped_bits (length flipped_bits)) -. spins _linear x }
  loop 0
    invariant { value = (value at L0) +. spins _linear (flipn x flipped_bits $k) -. spins _linear x }
  ghost begin 0 { next_flip x flipped_bits $k; spins_flip _linear (flipn x flipped_bits $k) flipped_bits[$k] }

file lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.cc
function hnco::function::NearestNeighborIsingModel1::evaluate_incrementally
  use bonds.Bonds
  define {
    function nx (n i: int) : int = if i = n - 1 then 0 else i + 1
    function pv (n i: int) : int = if i = 0 then n - 1 else i - 1
    function wc (c: seq real) (per: bool) (i: int) : real = if i = length c - 1 /\ not per then 0.0 else c[i]
    let ghost ising1_bonds (c h: seq real) (per: bool) (s: seq int) requires { length s = length c /\ length s > 0 }
      ensures { ising1 c h per s = rsum (bd s (nx (length s)) (wc c per)) 0 (length s) +. spins h s }
    = rsum_ext (chain c s) (bd s (nx (length s)) (wc c per)) 0 (length s - 1);
      assert { bd s (nx (length s)) (wc c per) (length s - 1) = closing c per s }
    let ghost cycle (n: int) requires { n > 0 } ensures { inverse (nx n) (pv n) n }
    = let lemma one (i: int) requires { 0 <= i < n } ensures { 0 <= nx n i < n /\ 0 <= pv n i < n /\ pv n (nx n i) = i /\ nx n (pv n i) = i } = () in ()
    let ghost right (x: seq int) (c: seq real) (per: bool) (s: seq int) (k: int)
      ensures { rat x (nx (length x)) (wc c per) s k = if among s (length s) (nx (length x) s[k]) then 0.0 else -. 2.0 *. pair_sgn x[s[k]] x[nx (length x) s[k]] (wc c per s[k]) }
    = ()
    let ghost left (x: seq int) (c: seq real) (per: bool) (s: seq int) (k: int) requires { 0 <= s[k] < length x /\ length x = length c }
      ensures { lat x (nx (length x)) (pv (length x)) (wc c per) s k = if among s (length s) (pv (length x) s[k]) then 0.0 else -. 2.0 *. pair_sgn x[pv (length x) s[k]] x[s[k]] (wc c per (pv (length x) s[k])) }
    = ()
  }
  requires { is_bv x /\ length x > 0 /\ length x = length _coupling /\ length x = length _field /\ ascending flipped_bits (length x) }
  requires { length _flipped_bits = length x /\ forall i. 0 <= i < length x -> _flipped_bits[i] = 0 }
  ensures { result = value +. ising1 _coupling _field _periodic_boundary_conditions (flipn x flipped_bits (length flipped_bits))
                           -. ising1 _coupling _field _periodic_boundary_conditions x }
  ensures { length _flipped_bits = length x /\ forall i. 0 <= i < length x -> _flipped_bits[i] = 0 }
  ghost entry {
    count_all flipped_bits (length x); flipn_is x flipped_bits (length flipped_bits);
    let ghost y = flipn x flipped_bits (length flipped_bits) in
    let ghost per = pure { _periodic_boundary_conditions } in
    ising1_bonds _coupling _field per x; ising1_bonds _coupling _field per y;
    cycle (length x);
    bonds_flip x y (nx (length x)) (pv (length x)) (wc _coupling per) flipped_bits;
  }
  loop 0
    invariant { length _flipped_bits = length x /\ forall i. 0 <= i < length x -> _flipped_bits[i] = if among flipped_bits (length flipped_bits) i then 1 else 0 }
    invariant { value = (value at L0) +. rsum (rat x (nx (length x)) (wc _coupling per) flipped_bits) 0 $k }
  ghost begin 0 { right x _coupling per flipped_bits $k }
  loop 1
    invariant { length _flipped_bits = length x /\ forall i. 0 <= i < length x -> _flipped_bits[i] = if among flipped_bits (length flipped_bits) i then 1 else 0 }
    invariant { value = (value at L1) +. rsum (lat x (nx (length x)) (pv (length x)) (wc _coupling per) flipped_bits) 0 $k }
  ghost begin 1 { left x _coupling per flipped_bits $k }
  loop 2
    invariant { value = (value at L2) +. spins _field (flipn x flipped_bits $k) -. spins _field x }
    invariant { length _flipped_bits = length x /\ forall i. 0 <= i < length x -> _flipped_bits[i] = 0 }
  ghost begin 2 { next_flip x flipped_bits $k; spins_flip _field (flipn x flipped_bits $k) flipped_bits[$k] }

file lib/hnco/functions/modifiers/modifier.cc
function hnco::function::modifier::OppositeFunction::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) }
  ensures { incremental _function -> value = -. value_of _function bv -> result = -. value_of _function (flipn bv flipped_bits (length flipped_bits)) }
function hnco::function::modifier::OppositeFunction::provides_incremental_evaluation
  ensures { result -> has_incr _function }

file lib/hnco/functions/controllers/controller.cc
function hnco::function::controller::Controller::provides_incremental_evaluation
  ensures { result -> has_incr _function }
function hnco::function::controller::Cache::provides_incremental_evaluation
  ensures { not result }
function hnco::function::controller::StopOnTarget::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) }
  ensures { incremental _function -> value = value_of _function bv -> result = value_of _function (flipn bv flipped_bits (length flipped_bits)) }
  raises { TargetReached -> true }
  ghost entry { count_all flipped_bits (length bv) }
function hnco::function::controller::CallCounter::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) /\ 0 <= _num_calls < 2147483647 }
  ensures { incremental _function -> value = value_of _function bv -> result = value_of _function (flipn bv flipped_bits (length flipped_bits)) }
  ensures { _num_calls = old _num_calls + 1 /\ _function = old _function }
function hnco::function::controller::OnBudgetFunction::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) /\ 0 <= _num_calls <= _budget <= 2147483647 }
  ensures { incremental _function -> value = value_of _function bv -> result = value_of _function (flipn bv flipped_bits (length flipped_bits)) }
  raises { LastEvaluation -> true }
function hnco::function::controller::ProgressTracker::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) /\ 0 <= _num_calls < 2147483647 }
  ensures { incremental _function -> value = value_of _function bv -> result = value_of _function (flipn bv flipped_bits (length flipped_bits)) }
  ghost entry { count_all flipped_bits (length bv) }
