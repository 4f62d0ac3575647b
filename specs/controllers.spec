# Controllers: transparent decorators with a budget, a target, counters
use bits.Bits cpp.Sum reals.RSum reals.Flip fn.Fn
opaque Function fn
opaque StopWatch int
extern StopWatch::start { () }
extern StopWatch::stop { () }
extern Function::evaluate { fn_evaluate {o} {0} }
extern Function::evaluate_incrementally { fn_incr {o} {0} {1} {2} }
extern Function::evaluate_safely { fn_evaluate_safely {o} {0} }
extern Function::update { fn_update {o} {0} {1} }
extern Function::get_bv_size { fn_size {o} }
extern Function::get_maximum { fn_max {o} }
extern Function::has_known_maximum { fn_has_max {o} }
extern Function::provides_incremental_evaluation { fn_has_incr {o} }
define {
  let rec ghost count_mem (s: seq int) (n v hi: int)
    requires { ascending s n /\ 0 <= hi <= length s }
    ensures { count s v 0 hi = if among s hi v then 1 else 0 } variant { hi }
  = if hi > 0 then count_mem s n v (hi-1)
  let ghost count_all (s: seq int) (n: int)
    requires { ascending s n } ensures { sbv_valid s n /\ forall v. mod (count s v 0 (length s)) 2 = if among s (length s) v then 1 else 0 }
  = let lemma one (v: int) ensures { mod (count s v 0 (length s)) 2 = if among s (length s) v then 1 else 0 } = count_mem s n v (length s) in ()
}
file lib/hnco/functions/controllers/controller.cc
function hnco::function::controller::StopOnTarget::evaluate
  ensures { result = value_of _function bv /\ result <. _target /\ _function = old _function /\ _target = old _target /\ _trigger = old _trigger }
  raises { TargetReached -> value_of _function bv >=. _target /\ _trigger.sfst = bv /\ _trigger.ssnd = value_of _function bv /\ _function = old _function }

function hnco::function::controller::StopOnTarget::evaluate_incrementally
  requires { is_bv bv /\ ascending flipped_bits (length bv) }
  ensures { result = incr_of _function bv value flipped_bits /\ result <. _target /\ _function = old _function /\ _target = old _target /\ _trigger = old _trigger }
  raises { TargetReached -> incr_of _function bv value flipped_bits >=. _target /\ flipped bv flipped_bits _trigger.sfst (length flipped_bits) /\ _trigger.ssnd = incr_of _function bv value flipped_bits }
  ghost entry { count_all flipped_bits (length bv) }

function hnco::function::controller::StopOnTarget::update
  ensures { value <. _target /\ _function = old _function /\ _trigger = old _trigger }
  raises { TargetReached -> value >=. _target /\ _trigger.sfst = bv /\ _trigger.ssnd = value }

function hnco::function::controller::CallCounter::evaluate
  requires { _num_calls < 2147483647 }
  ensures { result = value_of _function bv /\ _num_calls = old _num_calls + 1 /\ _function = old _function }

function hnco::function::controller::CallCounter::evaluate_incrementally
  requires { _num_calls < 2147483647 }
  ensures { result = incr_of _function bv value flipped_bits /\ _num_calls = old _num_calls + 1 /\ _function = old _function }

function hnco::function::controller::CallCounter::update
  requires { _num_calls < 2147483647 }
  ensures { _num_calls = old _num_calls + 1 /\ _function = old _function }

function hnco::function::controller::OnBudgetFunction::evaluate
  requires { 0 <= _num_calls <= _budget <= 2147483647 }
  ensures { result = value_of _function bv /\ old _num_calls < _budget /\ _num_calls = old _num_calls + 1 /\ _function = old _function /\ _budget = old _budget }
  raises { LastEvaluation -> old _num_calls = _budget /\ _num_calls = old _num_calls /\ _budget = old _budget }

function hnco::function::controller::OnBudgetFunction::evaluate_incrementally
  requires { 0 <= _num_calls <= _budget <= 2147483647 }
  ensures { result = incr_of _function bv value flipped_bits /\ old _num_calls < _budget /\ _num_calls = old _num_calls + 1 /\ _function = old _function /\ _budget = old _budget }
  raises { LastEvaluation -> old _num_calls = _budget /\ _num_calls = old _num_calls /\ _budget = old _budget }

function hnco::function::controller::OnBudgetFunction::update
  requires { 0 <= _num_calls <= _budget <= 2147483647 }
  ensures { old _num_calls < _budget /\ _num_calls = old _num_calls + 1 /\ _budget = old _budget }
  raises { LastEvaluation -> old _num_calls = _budget /\ _num_calls = old _num_calls /\ _budget = old _budget }

function hnco::function::controller::ProgressTracker::update_last_improvement_details
  fields _num_calls _record_bit_vector _last_improvement _log_improvement
  ensures { _last_improvement.event_num_evaluations = _num_calls /\ _last_improvement.event_solution.ssnd = value }
  ensures { _record_bit_vector -> _last_improvement.event_solution.sfst = bv }
  ensures { not _record_bit_vector -> _last_improvement.event_solution.sfst = old _last_improvement.event_solution.sfst }
  ensures { _num_calls = old _num_calls /\ _record_bit_vector = old _record_bit_vector /\ _log_improvement = old _log_improvement }

function hnco::function::controller::ProgressTracker::update_last_improvement
  fields _num_calls _record_bit_vector _last_improvement _log_improvement
  use fn.History
  requires { _num_calls >= 1 }
  ensures { _num_calls = old _num_calls /\ _record_bit_vector = old _record_bit_vector /\ _log_improvement = old _log_improvement }
  ensures { forall h. length h = _num_calls - 1 -> (length h = 0 \/ tracked h (old _last_improvement).event_num_evaluations (old _last_improvement).event_solution.ssnd) ->
     tracked (snoc h value) _last_improvement.event_num_evaluations _last_improvement.event_solution.ssnd }
  ensures { _record_bit_vector /\ _last_improvement.event_num_evaluations = _num_calls -> _last_improvement.event_solution.sfst = bv \/ _last_improvement = old _last_improvement }
  ensures { _last_improvement = old _last_improvement \/ _last_improvement.event_num_evaluations = _num_calls }

function hnco::function::controller::ProgressTracker::evaluate
  use fn.History
  requires { 0 <= _num_calls < 2147483647 }
  ensures { result = value_of _function bv /\ _num_calls = old _num_calls + 1 /\ _function = old _function /\ _record_bit_vector = old _record_bit_vector }
  ensures { forall h. length h = old _num_calls -> (length h = 0 \/ tracked h (old _last_improvement).event_num_evaluations (old _last_improvement).event_solution.ssnd) ->
     tracked (snoc h result) _last_improvement.event_num_evaluations _last_improvement.event_solution.ssnd }
  ensures { _record_bit_vector /\ _last_improvement.event_num_evaluations = _num_calls -> _last_improvement.event_solution.sfst = bv \/ _last_improvement = old _last_improvement }

function hnco::function::controller::ProgressTracker::evaluate_incrementally
  use fn.History
  requires { is_bv bv /\ ascending flipped_bits (length bv) /\ 0 <= _num_calls < 2147483647 }
  ensures { result = incr_of _function bv value flipped_bits /\ _num_calls = old _num_calls + 1 /\ _function = old _function /\ _record_bit_vector = old _record_bit_vector }
  ensures { forall h. length h = old _num_calls -> (length h = 0 \/ tracked h (old _last_improvement).event_num_evaluations (old _last_improvement).event_solution.ssnd) ->
     tracked (snoc h result) _last_improvement.event_num_evaluations _last_improvement.event_solution.ssnd }
  ensures { _record_bit_vector /\ _last_improvement.event_num_evaluations = _num_calls -> flipped bv flipped_bits _last_improvement.event_solution.sfst (length flipped_bits) \/ _last_improvement = old _last_improvement }
  ghost entry { count_all flipped_bits (length bv) }

function hnco::function::controller::ProgressTracker::update
  use fn.History
  requires { 0 <= _num_calls < 2147483647 }
  ensures { _num_calls = old _num_calls + 1 /\ _function = old _function /\ _record_bit_vector = old _record_bit_vector }
  ensures { forall h. length h = old _num_calls -> (length h = 0 \/ tracked h (old _last_improvement).event_num_evaluations (old _last_improvement).event_solution.ssnd) ->
     tracked (snoc h value) _last_improvement.event_num_evaluations _last_improvement.event_solution.ssnd }
  ensures { _record_bit_vector /\ _last_improvement.event_num_evaluations = _num_calls -> _last_improvement.event_solution.sfst = bv \/ _last_improvement = old _last_improvement }

function hnco::function::controller::Cache::evaluate
  define {
    predicate same_bits (k: seq bool) (x: seq int) = length k = length x /\ forall i. 0 <= i < length x -> (k[i] <-> x[i] <> 0)
    predicate caches (m: fmap (seq bool) real) (f: fn) = forall k x. mdom m k -> is_bv x -> same_bits k x -> mval m k = value_of f x
    let ghost unique_bits (k: seq bool) (x: seq int) requires { is_bv x /\ same_bits k x } ensures { forall y. is_bv y -> same_bits k y -> y = x }
    = assert { forall y. is_bv y -> same_bits k y -> y == x }
  }
  requires { is_bv bv /\ length bv = length _key /\ caches _cache _function /\ 0 <= _num_lookups <= _num_evaluations < 2147483647 }
  ensures { result = value_of _function bv }
  ensures { caches _cache _function /\ length _key = length (old _key) /\ _function = old _function }
  ensures { _num_evaluations = old _num_evaluations + 1 /\ 0 <= _num_lookups <= _num_evaluations }
  ensures { forall k. mdom _cache k <-> (mdom (old _cache) k \/ same_bits k bv) }

# what every controller forwards
function hnco::function::controller::Controller::get_bv_size
  ensures { result = size_of _function }
function hnco::function::controller::Controller::get_maximum
  ensures { result = max_of _function }
function hnco::function::controller::Controller::has_known_maximum
  ensures { result = has_max _function }
function hnco::function::controller::Controller::provides_incremental_evaluation
  ensures { result = has_incr _function }
function hnco::function::controller::Controller::evaluate_safely
  ensures { result = value_of _function bv /\ _function = old _function }
