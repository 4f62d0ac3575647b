# Herding evolutionary algorithm: Walsh moments in place of a probability vector
use bits.Bits cpp.Perm reals.RSum reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
import walsh
import norms
record Population
record TriangularMoment
record FullMoment
record TriangularMomentHerding
record FullMomentHerding
define {
  predicate pop_full (b: seq (seq int)) (v: seq real) (p: seq int) (n: int) = pop_ok b v p /\ pop_bv b n /\ length b > 0
}
file lib/hnco/algorithms/walsh-moment/herding.cc
function hnco::algorithm::walsh_moment::TriangularMomentHerding::init
  requires { tri _delta.triangularMoment_first_moment _delta.triangularMoment_second_moment /\ tri _count.triangularMoment_first_moment _count.triangularMoment_second_moment /\ tri _error.triangularMoment_first_moment _error.triangularMoment_second_moment /\ length _permutation = length _delta.triangularMoment_first_moment = length _count.triangularMoment_first_moment = length _error.triangularMoment_first_moment }
  ensures { tri _delta.triangularMoment_first_moment _delta.triangularMoment_second_moment /\ tri _count.triangularMoment_first_moment _count.triangularMoment_second_moment /\ tri _error.triangularMoment_first_moment _error.triangularMoment_second_moment /\ length _permutation = length _delta.triangularMoment_first_moment = length _count.triangularMoment_first_moment = length _error.triangularMoment_first_moment /\ is_perm _permutation /\ length _permutation = length (old _permutation) /\ _time = 0 /\ _delta = old _delta /\ _error = old _error }
  ensures { forall i. 0 <= i < length _permutation -> _count.triangularMoment_first_moment[i] = 0.0 }
function hnco::algorithm::walsh_moment::TriangularMomentHerding::error
  requires { tri _count.triangularMoment_first_moment _count.triangularMoment_second_moment /\ tri _error.triangularMoment_first_moment _error.triangularMoment_second_moment /\ tri target.triangularMoment_first_moment target.triangularMoment_second_moment /\ length target.triangularMoment_first_moment = length _count.triangularMoment_first_moment = length _error.triangularMoment_first_moment }
  ensures { result >=. 0.0 /\ _delta = old _delta /\ _count = old _count /\ _permutation = old _permutation /\ _time = old _time /\ tri _error.triangularMoment_first_moment _error.triangularMoment_second_moment /\ length _error.triangularMoment_first_moment = length (old _error).triangularMoment_first_moment }
  ensures { result *. result = rsum (n2 _error.triangularMoment_first_moment _error.triangularMoment_second_moment) 0 (length _error.triangularMoment_first_moment) }
function hnco::algorithm::walsh_moment::FullMomentHerding::init
  requires { sqr _delta.fullMoment_first_moment _delta.fullMoment_second_moment /\ sqr _count.fullMoment_first_moment _count.fullMoment_second_moment /\ sqr _error.fullMoment_first_moment _error.fullMoment_second_moment /\ length _permutation = length _delta.fullMoment_first_moment = length _count.fullMoment_first_moment = length _error.fullMoment_first_moment }
  ensures { sqr _delta.fullMoment_first_moment _delta.fullMoment_second_moment /\ sqr _count.fullMoment_first_moment _count.fullMoment_second_moment /\ sqr _error.fullMoment_first_moment _error.fullMoment_second_moment /\ length _permutation = length _delta.fullMoment_first_moment = length _count.fullMoment_first_moment = length _error.fullMoment_first_moment /\ is_perm _permutation /\ length _permutation = length (old _permutation) /\ _time = 0 /\ _delta = old _delta /\ _error = old _error }
  ensures { forall i. 0 <= i < length _permutation -> _count.fullMoment_first_moment[i] = 0.0 }
function hnco::algorithm::walsh_moment::FullMomentHerding::error
  requires { sqr _count.fullMoment_first_moment _count.fullMoment_second_moment /\ sqr _error.fullMoment_first_moment _error.fullMoment_second_moment /\ sqr target.fullMoment_first_moment target.fullMoment_second_moment /\ length target.fullMoment_first_moment = length _count.fullMoment_first_moment = length _error.fullMoment_first_moment }
  ensures { result >=. 0.0 /\ _delta = old _delta /\ _count = old _count /\ _permutation = old _permutation /\ _time = old _time /\ sqr _error.fullMoment_first_moment _error.fullMoment_second_moment /\ length _error.fullMoment_first_moment = length (old _error).fullMoment_first_moment }
  ensures { result *. result = rsum (n2 _error.fullMoment_first_moment _error.fullMoment_second_moment) 0 (length _error.fullMoment_first_moment) }
file @specs/tu/eda.cc
function hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::TriangularMomentHerding>::init
  fields _function _solution _target _herding _something_to_log _log_herding_error _log_target_norm _log_delta_norm _log_target
  requires { tri _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_delta.triangularMoment_first_moment _herding.triangularMomentHerding_delta.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_count.triangularMoment_first_moment _herding.triangularMomentHerding_count.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_error.triangularMoment_first_moment _herding.triangularMomentHerding_error.triangularMoment_second_moment /\ length _herding.triangularMomentHerding_permutation = length _herding.triangularMomentHerding_delta.triangularMoment_first_moment = length _herding.triangularMomentHerding_count.triangularMoment_first_moment = length _herding.triangularMomentHerding_error.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ length _solution.sfst = length _target.triangularMoment_first_moment }
  ensures { sol_ok _function _solution (length _target.triangularMoment_first_moment) /\ _function = old _function /\ length _target.triangularMoment_first_moment = length (old _target).triangularMoment_first_moment }
  ensures { tri _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ unit_range _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_delta.triangularMoment_first_moment _herding.triangularMomentHerding_delta.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_count.triangularMoment_first_moment _herding.triangularMomentHerding_count.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_error.triangularMoment_first_moment _herding.triangularMomentHerding_error.triangularMoment_second_moment /\ length _herding.triangularMomentHerding_permutation = length _herding.triangularMomentHerding_delta.triangularMoment_first_moment = length _herding.triangularMomentHerding_count.triangularMoment_first_moment = length _herding.triangularMomentHerding_error.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ is_perm _herding.triangularMomentHerding_permutation }
  raises { LastEvaluation -> true }
function hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::TriangularMomentHerding>::iterate
  fields _functions _function _solution _population _target _selection _herding _herding_error _target_norm _delta_norm _margin _selection_size _reset_period _learning_rate _bound_moment _iteration _log_herding_error _log_target_norm _log_delta_norm
  requires { sol_ok _function _solution (length _target.triangularMoment_first_moment) /\ fns_ok _function _functions /\ tri _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ unit_range _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ tri _selection.triangularMoment_first_moment _selection.triangularMoment_second_moment /\ length _selection.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ tri _herding.triangularMomentHerding_delta.triangularMoment_first_moment _herding.triangularMomentHerding_delta.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_count.triangularMoment_first_moment _herding.triangularMomentHerding_count.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_error.triangularMoment_first_moment _herding.triangularMomentHerding_error.triangularMoment_second_moment /\ length _herding.triangularMomentHerding_permutation = length _herding.triangularMomentHerding_delta.triangularMoment_first_moment = length _herding.triangularMomentHerding_count.triangularMoment_first_moment = length _herding.triangularMomentHerding_error.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ is_perm _herding.triangularMomentHerding_permutation }
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.triangularMoment_first_moment) /\ 0 < _selection_size <= length _population.population_bvs /\ 0.0 <=. _learning_rate <=. 1.0 /\ 0.0 <=. _margin <. 1.0 }
  ensures { sol_ok _function _solution (length _target.triangularMoment_first_moment) /\ _solution.ssnd >=. (old _solution).ssnd /\ length _target.triangularMoment_first_moment = length (old _target).triangularMoment_first_moment }
  ensures { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.triangularMoment_first_moment) /\ paired _function _population.population_bvs _population.population_values /\ topped _function _population.population_bvs _solution }
  ensures { tri _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ unit_range _target.triangularMoment_first_moment _target.triangularMoment_second_moment /\ tri _selection.triangularMoment_first_moment _selection.triangularMoment_second_moment /\ length _selection.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ tri _herding.triangularMomentHerding_delta.triangularMoment_first_moment _herding.triangularMomentHerding_delta.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_count.triangularMoment_first_moment _herding.triangularMomentHerding_count.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_error.triangularMoment_first_moment _herding.triangularMomentHerding_error.triangularMoment_second_moment /\ length _herding.triangularMomentHerding_permutation = length _herding.triangularMomentHerding_delta.triangularMoment_first_moment = length _herding.triangularMomentHerding_count.triangularMoment_first_moment = length _herding.triangularMomentHerding_error.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ is_perm _herding.triangularMomentHerding_permutation }
  ensures { _bound_moment -> range (1.0 -. _margin) _target.triangularMoment_first_moment _target.triangularMoment_second_moment }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ length _population.population_bvs = length (old _population).population_bvs }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.triangularMoment_first_moment) /\ length _population.population_bvs = length (old _population).population_bvs }
    invariant { tri _herding.triangularMomentHerding_delta.triangularMoment_first_moment _herding.triangularMomentHerding_delta.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_count.triangularMoment_first_moment _herding.triangularMomentHerding_count.triangularMoment_second_moment /\ tri _herding.triangularMomentHerding_error.triangularMoment_first_moment _herding.triangularMomentHerding_error.triangularMoment_second_moment /\ length _herding.triangularMomentHerding_permutation = length _herding.triangularMomentHerding_delta.triangularMoment_first_moment = length _herding.triangularMomentHerding_count.triangularMoment_first_moment = length _herding.triangularMomentHerding_error.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ is_perm _herding.triangularMomentHerding_permutation }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { tri _selection.triangularMoment_first_moment _selection.triangularMoment_second_moment /\ length _selection.triangularMoment_first_moment = length _target.triangularMoment_first_moment /\ range (from_int $k) _selection.triangularMoment_first_moment _selection.triangularMoment_second_moment }
function hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::FullMomentHerding>::init
  fields _function _solution _target _herding _something_to_log _log_herding_error _log_target_norm _log_delta_norm _log_target
  requires { sqr _target.fullMoment_first_moment _target.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_delta.fullMoment_first_moment _herding.fullMomentHerding_delta.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_count.fullMoment_first_moment _herding.fullMomentHerding_count.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_error.fullMoment_first_moment _herding.fullMomentHerding_error.fullMoment_second_moment /\ length _herding.fullMomentHerding_permutation = length _herding.fullMomentHerding_delta.fullMoment_first_moment = length _herding.fullMomentHerding_count.fullMoment_first_moment = length _herding.fullMomentHerding_error.fullMoment_first_moment = length _target.fullMoment_first_moment /\ length _solution.sfst = length _target.fullMoment_first_moment }
  ensures { sol_ok _function _solution (length _target.fullMoment_first_moment) /\ _function = old _function /\ length _target.fullMoment_first_moment = length (old _target).fullMoment_first_moment }
  ensures { sqr _target.fullMoment_first_moment _target.fullMoment_second_moment /\ unit_range _target.fullMoment_first_moment _target.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_delta.fullMoment_first_moment _herding.fullMomentHerding_delta.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_count.fullMoment_first_moment _herding.fullMomentHerding_count.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_error.fullMoment_first_moment _herding.fullMomentHerding_error.fullMoment_second_moment /\ length _herding.fullMomentHerding_permutation = length _herding.fullMomentHerding_delta.fullMoment_first_moment = length _herding.fullMomentHerding_count.fullMoment_first_moment = length _herding.fullMomentHerding_error.fullMoment_first_moment = length _target.fullMoment_first_moment /\ is_perm _herding.fullMomentHerding_permutation }
  raises { LastEvaluation -> true }
function hnco::algorithm::walsh_moment::Hea<hnco::algorithm::walsh_moment::FullMomentHerding>::iterate
  fields _functions _function _solution _population _target _selection _herding _herding_error _target_norm _delta_norm _margin _selection_size _reset_period _learning_rate _bound_moment _iteration _log_herding_error _log_target_norm _log_delta_norm
  requires { sol_ok _function _solution (length _target.fullMoment_first_moment) /\ fns_ok _function _functions /\ sqr _target.fullMoment_first_moment _target.fullMoment_second_moment /\ unit_range _target.fullMoment_first_moment _target.fullMoment_second_moment /\ sqr _selection.fullMoment_first_moment _selection.fullMoment_second_moment /\ length _selection.fullMoment_first_moment = length _target.fullMoment_first_moment /\ sqr _herding.fullMomentHerding_delta.fullMoment_first_moment _herding.fullMomentHerding_delta.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_count.fullMoment_first_moment _herding.fullMomentHerding_count.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_error.fullMoment_first_moment _herding.fullMomentHerding_error.fullMoment_second_moment /\ length _herding.fullMomentHerding_permutation = length _herding.fullMomentHerding_delta.fullMoment_first_moment = length _herding.fullMomentHerding_count.fullMoment_first_moment = length _herding.fullMomentHerding_error.fullMoment_first_moment = length _target.fullMoment_first_moment /\ is_perm _herding.fullMomentHerding_permutation }
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.fullMoment_first_moment) /\ 0 < _selection_size <= length _population.population_bvs /\ 0.0 <=. _learning_rate <=. 1.0 /\ 0.0 <=. _margin <. 1.0 }
  ensures { sol_ok _function _solution (length _target.fullMoment_first_moment) /\ _solution.ssnd >=. (old _solution).ssnd /\ length _target.fullMoment_first_moment = length (old _target).fullMoment_first_moment }
  ensures { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.fullMoment_first_moment) /\ paired _function _population.population_bvs _population.population_values /\ topped _function _population.population_bvs _solution }
  ensures { sqr _target.fullMoment_first_moment _target.fullMoment_second_moment /\ unit_range _target.fullMoment_first_moment _target.fullMoment_second_moment /\ sqr _selection.fullMoment_first_moment _selection.fullMoment_second_moment /\ length _selection.fullMoment_first_moment = length _target.fullMoment_first_moment /\ sqr _herding.fullMomentHerding_delta.fullMoment_first_moment _herding.fullMomentHerding_delta.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_count.fullMoment_first_moment _herding.fullMomentHerding_count.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_error.fullMoment_first_moment _herding.fullMomentHerding_error.fullMoment_second_moment /\ length _herding.fullMomentHerding_permutation = length _herding.fullMomentHerding_delta.fullMoment_first_moment = length _herding.fullMomentHerding_count.fullMoment_first_moment = length _herding.fullMomentHerding_error.fullMoment_first_moment = length _target.fullMoment_first_moment /\ is_perm _herding.fullMomentHerding_permutation }
  ensures { _bound_moment -> range (1.0 -. _margin) _target.fullMoment_first_moment _target.fullMoment_second_moment }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ length _population.population_bvs = length (old _population).population_bvs }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _target.fullMoment_first_moment) /\ length _population.population_bvs = length (old _population).population_bvs }
    invariant { sqr _herding.fullMomentHerding_delta.fullMoment_first_moment _herding.fullMomentHerding_delta.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_count.fullMoment_first_moment _herding.fullMomentHerding_count.fullMoment_second_moment /\ sqr _herding.fullMomentHerding_error.fullMoment_first_moment _herding.fullMomentHerding_error.fullMoment_second_moment /\ length _herding.fullMomentHerding_permutation = length _herding.fullMomentHerding_delta.fullMoment_first_moment = length _herding.fullMomentHerding_count.fullMoment_first_moment = length _herding.fullMomentHerding_error.fullMoment_first_moment = length _target.fullMoment_first_moment /\ is_perm _herding.fullMomentHerding_permutation }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { sqr _selection.fullMoment_first_moment _selection.fullMoment_second_moment /\ length _selection.fullMoment_first_moment = length _target.fullMoment_first_moment /\ range (from_int $k) _selection.fullMoment_first_moment _selection.fullMoment_second_moment }
