# Local search: random local search, random walk, simulated annealing
use bits.Bits cpp.Perm reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
import neighborhood
record Neighborhood
record StandardBitMutation
extern Function::evaluate_incrementally { fn_try_incr {o} {0} {1} {2} }
extern Function::provides_incremental_evaluation { fn_has_incr {o} }
define {
  (* a search state between two moves; the value of the solution is that of the origin *)
  predicate nb_ok (b: neighborhood) = is_bv b.neighborhood_origin /\ b.neighborhood_candidate = b.neighborhood_origin
  predicate sol_at (f: fn) (s: solution) (x: seq int) = s.ssnd = value_of f x
  predicate rates_ok (r lo hi f c: real) = 0.0 <=. lo <=. hi <=. 1.0 /\ 0.0 <=. r <=. hi /\ f >=. 1.0 /\ c >=. 0.0
  predicate sbm_ok (b: standardBitMutation) = is_bv b.standardBitMutation_origin /\ b.standardBitMutation_candidate = b.standardBitMutation_origin
  let lemma flip_link (o c s: seq int) requires { ascending s (length o) /\ flip_at o c s } ensures { c = flipn o s (length s) }
  = assert { Flip.ascending s (length o) }; assert { forall v. among s (length s) v <-> inside s v }; flipn_unique o s c
}

file lib/hnco/algorithms/local-search/random-local-search.cc
function hnco::algorithm::RandomLocalSearch::iterate_full
  fields _function _solution _neighborhood _num_failures _patience _last_iteration
  requires { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin }
  ensures { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ length _neighborhood.neighborhood_origin = length (old _neighborhood.neighborhood_origin) /\ (_last_iteration -> old _last_iteration \/ _solution.sfst = _neighborhood.neighborhood_origin)}
  ensures { _num_failures = 0 \/ (_num_failures = old _num_failures + 1 /\ _solution.ssnd = (old _solution).ssnd /\ _neighborhood.neighborhood_origin = old _neighborhood.neighborhood_origin) }
  ensures { _last_iteration <-> (old _last_iteration \/ (_patience > 0 /\ _num_failures = _patience)) }
  raises { LastEvaluation -> is_bv _neighborhood.neighborhood_origin /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function }

file lib/hnco/algorithms/local-search/random-local-search.cc
function hnco::algorithm::RandomLocalSearch::iterate_incremental
  fields _function _solution _neighborhood _num_failures _patience _last_iteration
  requires { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ incremental _function }
  ensures { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ length _neighborhood.neighborhood_origin = length (old _neighborhood.neighborhood_origin) /\ (_last_iteration -> old _last_iteration \/ _solution.sfst = _neighborhood.neighborhood_origin)}
  ensures { _num_failures = 0 \/ (_num_failures = old _num_failures + 1 /\ _solution.ssnd = (old _solution).ssnd /\ _neighborhood.neighborhood_origin = old _neighborhood.neighborhood_origin) }
  ensures { _last_iteration <-> (old _last_iteration \/ (_patience > 0 /\ _num_failures = _patience)) }
  raises { LastEvaluation -> is_bv _neighborhood.neighborhood_origin /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function }

function hnco::algorithm::RandomLocalSearch::iterate
  fields _function _solution _neighborhood _num_failures _patience _last_iteration _incremental_evaluation
  requires { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ (has_incr _function -> incremental _function) }
  ensures { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function /\ _solution.ssnd >=. (old _solution).ssnd }
  raises { LastEvaluation -> is_bv _neighborhood.neighborhood_origin /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function }
function hnco::algorithm::RandomLocalSearch::init
  fields _function _solution _neighborhood _num_failures _starting_point _random_initialization
  requires { is_bv _starting_point /\ length _starting_point = length _solution.sfst }
  ensures { nb_ok _neighborhood /\ sol_at _function _solution _neighborhood.neighborhood_origin /\ _function = old _function /\ length _neighborhood.neighborhood_origin = length (old _solution).sfst }
  raises { LastEvaluation -> true }
function hnco::algorithm::RandomLocalSearch::finalize
  fields _function _solution _neighborhood
  requires { is_bv _neighborhood.neighborhood_origin /\ sol_at _function _solution _neighborhood.neighborhood_origin }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _solution.ssnd = (old _solution).ssnd }

file lib/hnco/algorithms/local-search/random-walk.cc
function hnco::algorithm::RandomWalk::iterate_full
  fields _function _solution _neighborhood _value 
  requires { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ sol_ok _function _solution (length _neighborhood.neighborhood_origin) }
  ensures { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _solution.ssnd >=. (old _solution).ssnd /\ _solution.ssnd >=. _value }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }

function hnco::algorithm::RandomWalk::iterate_incremental
  fields _function _solution _neighborhood _value 
  requires { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ incremental _function }
  ensures { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _solution.ssnd >=. (old _solution).ssnd /\ _solution.ssnd >=. _value }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }

function hnco::algorithm::RandomWalk::iterate
  fields _function _solution _neighborhood _value _incremental_evaluation
  requires { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ (has_incr _function -> incremental _function) }
  ensures { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _solution.ssnd >=. (old _solution).ssnd /\ _solution.ssnd >=. _value }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }

function hnco::algorithm::RandomWalk::init
  fields _function _solution _neighborhood _value _starting_point _random_initialization
  requires { is_bv _starting_point /\ length _starting_point = length _solution.sfst }
  ensures { nb_ok _neighborhood /\ _value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function /\ sol_ok _function _solution (length _neighborhood.neighborhood_origin) }
  raises { LastEvaluation -> true }

file lib/hnco/algorithms/local-search/simulated-annealing.cc
function hnco::algorithm::SimulatedAnnealing::init_beta
  anyquotient
  fields _function _solution _neighborhood _beta _num_trials _initial_acceptance_probability
  requires { sol_ok _function _solution (length _solution.sfst) /\ _initial_acceptance_probability >. 0.0 }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  raises { LastEvaluation -> sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  loop 0
    invariant { 0 <= $k /\ sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function /\ length bv = length (old _solution).sfst }
function hnco::algorithm::SimulatedAnnealing::init
  fields _function _solution _neighborhood _current_value _beta _transitions _starting_point _random_initialization _num_trials _initial_acceptance_probability
  requires { is_bv _starting_point /\ length _starting_point = length _solution.sfst /\ _initial_acceptance_probability >. 0.0 }
  ensures { nb_ok _neighborhood /\ _current_value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function /\ _transitions = 0 }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _current_value <=. _solution.ssnd /\ length _neighborhood.neighborhood_origin = length (old _solution).sfst }
  raises { LastEvaluation -> true }
function hnco::algorithm::SimulatedAnnealing::iterate
  fields _function _solution _neighborhood _current_value _beta _beta_ratio _transitions _num_transitions
  requires { nb_ok _neighborhood /\ _current_value = value_of _function _neighborhood.neighborhood_origin /\ sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _current_value <=. _solution.ssnd }
  ensures { nb_ok _neighborhood /\ _current_value = value_of _function _neighborhood.neighborhood_origin /\ _function = old _function }
  ensures { sol_ok _function _solution (length _neighborhood.neighborhood_origin) /\ _solution.ssnd >=. (old _solution).ssnd /\ _current_value <=. _solution.ssnd }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }


file lib/hnco/algorithms/evolutionary-algorithms/self-adjusting-one-plus-one-ea.cc
function hnco::algorithm::SelfAdjustingOnePlusOneEa::iterate_full
  fields _function _solution _mutation _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient 
  requires { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ (true \/ incremental _function) /\ length _mutation.standardBitMutation_origin > 0 /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  ensures { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ length _mutation.standardBitMutation_origin = length (old _mutation.standardBitMutation_origin) /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  raises { LastEvaluation -> is_bv _mutation.standardBitMutation_origin /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
function hnco::algorithm::SelfAdjustingOnePlusOneEa::iterate_incremental
  fields _function _solution _mutation _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient 
  requires { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ ( incremental _function) /\ length _mutation.standardBitMutation_origin > 0 /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  ensures { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ length _mutation.standardBitMutation_origin = length (old _mutation.standardBitMutation_origin) /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  raises { LastEvaluation -> is_bv _mutation.standardBitMutation_origin /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
function hnco::algorithm::SelfAdjustingOnePlusOneEa::iterate
  fields _function _solution _mutation _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient _incremental_evaluation
  requires { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ (has_incr _function -> incremental _function) /\ length _mutation.standardBitMutation_origin > 0 /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  ensures { sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ length _mutation.standardBitMutation_origin = length (old _mutation.standardBitMutation_origin) /\ rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient }
  raises { LastEvaluation -> is_bv _mutation.standardBitMutation_origin /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function }
function hnco::algorithm::SelfAdjustingOnePlusOneEa::init
  fields _function _solution _mutation _mutation_rate _mutation_rate_init _allow_no_mutation _coefficient _update_strength _success_ratio _log_mutation_rate _something_to_log _mutation_rate_min _mutation_rate_max
  requires { length _solution.sfst > 0 /\ length _mutation.standardBitMutation_origin > 0 /\ rates_ok _mutation_rate_init _mutation_rate_min _mutation_rate_max _update_strength 0.0 }
  ensures { rates_ok _mutation_rate _mutation_rate_min _mutation_rate_max _update_strength _coefficient /\ sbm_ok _mutation /\ sol_at _function _solution _mutation.standardBitMutation_origin /\ _function = old _function /\ length _mutation.standardBitMutation_origin = length (old _solution).sfst }
  raises { LastEvaluation -> true }
function hnco::algorithm::SelfAdjustingOnePlusOneEa::finalize
  fields _function _solution _mutation
  requires { is_bv _mutation.standardBitMutation_origin /\ sol_at _function _solution _mutation.standardBitMutation_origin }
  ensures { sol_ok _function _solution (length _mutation.standardBitMutation_origin) /\ _solution.ssnd = (old _solution).ssnd }
