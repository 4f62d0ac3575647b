# Complete search
use bits.Bits cpp.Perm fn.Fn fn.Ranks fn.Omp
import algorithm
import iterator
define {
  let rec lemma value_inj (x y: seq int) (hi: int)
    requires { is_bv x /\ is_bv y /\ 0 <= hi <= length x /\ length x = length y /\ value x 0 hi = value y 0 hi }
    ensures { forall i. 0 <= i < hi -> x[i] = y[i] } variant { hi }
  = if hi > 0 then begin value_bounds x 0 (hi - 1); value_bounds y 0 (hi - 1); value_inj x y (hi - 1) end
  let lemma value_eq (x y: seq int)
    requires { is_bv x /\ is_bv y /\ length x = length y /\ value x 0 (length x) = value y 0 (length x) } ensures { x = y }
  = value_inj x y (length x); assert { x == y }
  let lemma value_max (x: seq int) ensures { 0 <= value x 0 (length x) <= pow2 (length x) - 1 } = value_bounds x 0 (length x)
}
file lib/hnco/algorithms/complete-search.cc
function hnco::algorithm::CompleteSearch::maximize
  fields _functions _function _solution
  requires { length functions > 0 /\ length _solution.sfst > 0 }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = functions[0] }
  ensures { forall x. is_bv x -> length x = length _solution.sfst -> value_of _function x <=. _solution.ssnd }
  raises { LastEvaluation -> true }
  loop 0
    variant { pow2 (length iterator.hypercubeIterator_current) - value iterator.hypercubeIterator_current 0 (length iterator.hypercubeIterator_current) }
    invariant { not iterator.hypercubeIterator_initial_state /\ is_bv iterator.hypercubeIterator_current /\ length iterator.hypercubeIterator_current = length (old _solution).sfst /\ sol_ok _function _solution (length (old _solution).sfst) /\ _function = functions[0] }
    invariant { forall x. is_bv x -> length x = length _solution.sfst -> value x 0 (length x) <= value iterator.hypercubeIterator_current 0 (length x) -> value_of _function x <=. _solution.ssnd }
