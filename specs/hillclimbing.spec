# Hill climbers, over an enumeration of the neighbors
use bits.Bits cpp.Perm fn.Fn fn.Ranks fn.Omp
import algorithm
opaque NeighborhoodIterator nbi
extern Iterator::init { _neighborhood <- nbi_init _neighborhood }
extern Iterator::has_next { nbi_has_next _neighborhood }
extern Iterator::next { _neighborhood <- nbi_next _neighborhood; nbi_get _neighborhood }
extern NeighborhoodIterator::set_origin { _neighborhood <- nbi_set _neighborhood {0} }
define {
  (* an enumeration of the neighbors of a point, as established for each iterator under C05:
     the point an iterator starts from, the one it has reached, and how far it is in the list of the neighbors *)
  type nbi
  type nbkind
  function nb_kind nbi : nbkind
  function nb_cur nbi : seq int
  function nb_pos nbi : int
  function nb_list nbi : seq (seq int)
  function neighbors nbkind (seq int) : seq (seq int)
  axiom neighbors_ok : forall k x i. 0 <= i < length (neighbors k x) -> is_bv x -> is_bv (neighbors k x)[i] /\ length (neighbors k x)[i] = length x
  val nbi_init (b: nbi) : nbi ensures { nb_kind result = nb_kind b /\ nb_cur result = nb_cur b /\ nb_pos result = 0 /\ nb_list result = neighbors (nb_kind b) (nb_cur b) }
  val nbi_has_next (b: nbi) : bool ensures { result <-> nb_pos b < length (nb_list b) }
  val nbi_next (b: nbi) : nbi requires { 0 <= nb_pos b < length (nb_list b) }
    ensures { nb_kind result = nb_kind b /\ nb_list result = nb_list b /\ nb_pos result = nb_pos b + 1 /\ nb_cur result = (nb_list b)[nb_pos b] }
  val nbi_get (b: nbi) : seq int ensures { result = nb_cur b }
  val nbi_set (b: nbi) (x: seq int) : nbi requires { length x = length (nb_cur b) } ensures { nb_kind result = nb_kind b /\ nb_cur result = x }
  predicate local_max (f: fn) (s: solution) (k: nbkind) = forall i. 0 <= i < length (neighbors k s.sfst) -> value_of f (neighbors k s.sfst)[i] <=. s.ssnd
}
file lib/hnco/algorithms/local-search/first-ascent-hill-climbing.cc
function hnco::algorithm::FirstAscentHillClimbing::iterate
  fields _function _solution _neighborhood _last_iteration
  requires { sol_ok _function _solution (length (nb_cur _neighborhood)) /\ nb_cur _neighborhood = _solution.sfst /\ not _last_iteration }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  ensures { if _last_iteration then _solution = old _solution /\ local_max _function _solution (nb_kind _neighborhood) else _solution.ssnd >. (old _solution).ssnd /\ nb_cur _neighborhood = _solution.sfst }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ _function = old _function /\ not _last_iteration /\ nb_kind _neighborhood = nb_kind (old _neighborhood) }
    invariant { length (nb_cur _neighborhood) = length _solution.sfst }
    invariant { nb_list _neighborhood = neighbors (nb_kind _neighborhood) _solution.sfst /\ 0 <= nb_pos _neighborhood <= length (nb_list _neighborhood) }
    invariant { forall i. 0 <= i < nb_pos _neighborhood -> value_of _function (nb_list _neighborhood)[i] <=. _solution.ssnd }
    variant { length (nb_list _neighborhood) - nb_pos _neighborhood }

file lib/hnco/algorithms/local-search/steepest-ascent-hill-climbing.cc
function hnco::algorithm::SteepestAscentHillClimbing::iterate
  fields _function _solution _neighborhood _last_iteration _candidates
  requires { sol_ok _function _solution (length (nb_cur _neighborhood)) /\ nb_cur _neighborhood = _solution.sfst /\ not _last_iteration /\ 0 < length _candidates < 2147483648 /\ 0 < length (neighbors (nb_kind _neighborhood) _solution.sfst) }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  ensures { if _last_iteration then _solution = old _solution /\ local_max _function _solution (nb_kind _neighborhood) else _solution.ssnd >. (old _solution).ssnd /\ nb_cur _neighborhood = _solution.sfst }
  ensures { not _last_iteration -> forall i. 0 <= i < length (neighbors (nb_kind _neighborhood) (old _solution).sfst) -> value_of _function (neighbors (nb_kind _neighborhood) (old _solution).sfst)[i] <=. _solution.ssnd }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ _function = old _function /\ not _last_iteration /\ nb_kind _neighborhood = nb_kind (old _neighborhood) }
    invariant { length (nb_cur _neighborhood) = length _solution.sfst }
    invariant { nb_list _neighborhood = neighbors (nb_kind _neighborhood) _solution.sfst /\ 0 <= nb_pos _neighborhood <= length (nb_list _neighborhood) }
    invariant { forall i. 0 <= i < nb_pos _neighborhood -> value_of _function (nb_list _neighborhood)[i] <=. best_value }
    invariant { 1 <= index <= length _candidates /\ forall i. 0 <= i < index -> value_of _function _candidates[i] = best_value /\ is_bv _candidates[i] /\ length _candidates[i] = length (old _solution).sfst }
    variant { length (nb_list _neighborhood) - nb_pos _neighborhood }

