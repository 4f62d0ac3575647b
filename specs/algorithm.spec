# Search algorithms: the solution is consistent, improves, and survives an interruption
use bits.Bits cpp.Perm reals.Flip fn.Fn fn.Ranks fn.Omp
import population
import pv
extern _compare { cmp_accepts {0} {1} }
define {
  (* assumption: the comparison given to the algorithm never accepts a worse value (the default is >=) *)
  val cmp_accepts (a b: real) : bool ensures { result -> a >=. b }
  predicate sol_ok (f: fn) (s: solution) (n: int) = is_bv s.sfst /\ length s.sfst = n /\ s.ssnd = value_of f s.sfst
  predicate sol_size (s: solution) (n: int) = length s.sfst = n
  (* the threads' functions are copies of the function *)
  predicate fns_ok (f: fn) (fs: seq fn) = (forall k x. 0 <= k < length fs -> value_of fs[k] x = value_of f x) /\ (length fs > 1 -> omp_threads <= length fs)
  predicate pop_bv (b: seq (seq int)) (n: int) = forall i. 0 <= i < length b -> is_bv b[i] /\ length b[i] = n
  predicate topped (f: fn) (b: seq (seq int)) (s: solution) = forall i. 0 <= i < length b -> value_of f b[i] <=. s.ssnd
  predicate pop_size (b: seq (seq int)) (n: int) = forall i. 0 <= i < length b -> length b[i] = n
}
file lib/hnco/algorithms/algorithm.cc
function hnco::algorithm::Algorithm::random_solution
  fields _function _solution
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  raises { LastEvaluation -> is_bv _solution.sfst /\ length _solution.sfst = length (old _solution).sfst }
function hnco::algorithm::Algorithm::set_solution(vector<bit> const&, double)
  fields _function _solution
  ensures { _solution.sfst = bv /\ _solution.ssnd = value /\ _function = old _function }
function hnco::algorithm::Algorithm::set_solution(vector<bit> const&)
  fields _function _solution
  ensures { _solution.sfst = bv /\ _solution.ssnd = value_of _function bv /\ _function = old _function }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
function hnco::algorithm::Algorithm::update_solution(vector<bit> const&, double)
  fields _function _solution
  ensures { if value >. (old _solution).ssnd then _solution.sfst = bv /\ _solution.ssnd = value else _solution = old _solution }
  ensures { _function = old _function }
function hnco::algorithm::Algorithm::update_solution(std::pair<vector<bit>, double> const&)
  fields _function _solution
  ensures { if s.ssnd >. (old _solution).ssnd then _solution = s else _solution = old _solution }
  ensures { _function = old _function }
function hnco::algorithm::Algorithm::update_solution(vector<bit> const&)
  fields _function _solution
  ensures { if value_of _function bv >. (old _solution).ssnd then _solution.sfst = bv /\ _solution.ssnd = value_of _function bv else _solution = old _solution }
  ensures { _function = old _function }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }


file lib/hnco/algorithms/probability-vector/pbil.cc
function hnco::algorithm::Pbil::iterate
  fields _functions _function _solution _pv _mean _population _selection_size _learning_rate _lower_bound _upper_bound
  requires { sol_ok _function _solution (length _pv) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound }
  requires { pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ pop_size _population.population_bvs (length _pv) /\ length _mean = length _pv }
  requires { 0 < _selection_size <= length _population.population_bvs }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { pop_bv _population.population_bvs (length _pv) /\ paired _function _population.population_bvs _population.population_values }
  ensures { topped _function _population.population_bvs _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ length _population.population_bvs = length (old _population.population_bvs) }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }
  loop 0
    invariant { _solution = old _solution /\ _pv = old _pv /\ length _population.population_bvs = length (old _population.population_bvs) }
    invariant { _population.population_values = old _population.population_values /\ _population.population_permutation = old _population.population_permutation }
    invariant { forall i. 0 <= i < length _population.population_bvs -> length _population.population_bvs[i] = length _pv /\ (i < $k -> is_bv _population.population_bvs[i]) }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { length _mean = length (old _pv) }

file lib/hnco/algorithms/probability-vector/nps-pbil.cc
function hnco::algorithm::NpsPbil::iterate
  fields _functions _function _solution _pv _mean_best _mean_worst _population _selection_size _learning_rate _lower_bound _upper_bound
  requires { sol_ok _function _solution (length _pv) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound }
  requires { pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ pop_size _population.population_bvs (length _pv) /\ length _mean_best = length _pv /\ length _mean_worst = length _pv }
  requires { 0 < _selection_size <= length _population.population_bvs }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { pop_bv _population.population_bvs (length _pv) /\ paired _function _population.population_bvs _population.population_values }
  ensures { topped _function _population.population_bvs _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ length _population.population_bvs = length (old _population.population_bvs) }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }
  loop 0
    invariant { _solution = old _solution /\ _pv = old _pv /\ length _population.population_bvs = length (old _population.population_bvs) }
    invariant { _population.population_values = old _population.population_values /\ _population.population_permutation = old _population.population_permutation }
    invariant { forall i. 0 <= i < length _population.population_bvs -> length _population.population_bvs[i] = length _pv /\ (i < $k -> is_bv _population.population_bvs[i]) }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { length _mean_best = length (old _pv) }
  loop 2
    invariant { length _mean_worst = length (old _pv) }

file lib/hnco/algorithms/probability-vector/umda.cc
function hnco::algorithm::Umda::iterate
  fields _functions _function _solution _pv  _population _selection_size _lower_bound _upper_bound
  requires { sol_ok _function _solution (length _pv) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound }
  requires { pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ pop_size _population.population_bvs (length _pv) }
  requires { 0 < _selection_size <= length _population.population_bvs }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { pop_bv _population.population_bvs (length _pv) /\ paired _function _population.population_bvs _population.population_values }
  ensures { topped _function _population.population_bvs _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ length _population.population_bvs = length (old _population.population_bvs) }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }
  loop 0
    invariant { _solution = old _solution /\ _pv = old _pv /\ length _population.population_bvs = length (old _population.population_bvs) }
    invariant { _population.population_values = old _population.population_values /\ _population.population_permutation = old _population.population_permutation }
    invariant { forall i. 0 <= i < length _population.population_bvs -> length _population.population_bvs[i] = length _pv /\ (i < $k -> is_bv _population.population_bvs[i]) }
  ghost before 1 { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
  loop 1
    invariant { length _pv = length (old _pv) }

file lib/hnco/algorithms/probability-vector/pbil.cc
function hnco::algorithm::Pbil::init
  fields _function _solution _pv _something_to_log _log_entropy _log_pv
  requires { length _solution.sfst = length _pv }
  ensures { sol_ok _function _solution (length _pv) /\ _function = old _function /\ length _pv = length (old _pv) }
  ensures { forall i. 0 <= i < length _pv -> _pv[i] = 0.5 }
  raises { LastEvaluation -> true }

file lib/hnco/algorithms/probability-vector/nps-pbil.cc
function hnco::algorithm::NpsPbil::init
  fields _function _solution _pv _something_to_log _log_entropy _log_pv
  requires { length _solution.sfst = length _pv }
  ensures { sol_ok _function _solution (length _pv) /\ _function = old _function /\ length _pv = length (old _pv) }
  ensures { forall i. 0 <= i < length _pv -> _pv[i] = 0.5 }
  raises { LastEvaluation -> true }

file lib/hnco/algorithms/probability-vector/umda.cc
function hnco::algorithm::Umda::init
  fields _function _solution _pv _something_to_log _log_entropy _log_pv
  requires { length _solution.sfst = length _pv }
  ensures { sol_ok _function _solution (length _pv) /\ _function = old _function /\ length _pv = length (old _pv) }
  ensures { forall i. 0 <= i < length _pv -> _pv[i] = 0.5 }
  raises { LastEvaluation -> true }

file lib/hnco/algorithms/probability-vector/compact-ga.cc
function hnco::algorithm::CompactGa::init
  fields _function _solution _pv _something_to_log _log_entropy _log_pv
  requires { length _solution.sfst = length _pv }
  ensures { sol_ok _function _solution (length _pv) /\ _function = old _function /\ length _pv = length (old _pv) }
  ensures { forall i. 0 <= i < length _pv -> _pv[i] = 0.5 }
  raises { LastEvaluation -> true }

function hnco::algorithm::CompactGa::iterate
  fields _function _solution _pv _candidates _learning_rate _lower_bound _upper_bound
  requires { sol_ok _function _solution (length _pv) /\ _lower_bound <=. _upper_bound /\ length _candidates = 2 /\ length _candidates[0] = length _pv = length _candidates[1] }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd /\ topped _function _candidates _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound /\ _function = old _function }
  raises { LastEvaluation -> sol_ok _function _solution (length _pv) /\ _function = old _function }
  loop 0
    invariant { length _pv = length (old _pv) }

file lib/hnco/algorithms/probability-vector/mmas.cc
function hnco::algorithm::Mmas::init
  fields _function _solution _pv _something_to_log _log_entropy _log_pv _learning_rate _lower_bound _upper_bound
  requires { length _solution.sfst = length _pv /\ _lower_bound <=. _upper_bound }
  ensures { sol_ok _function _solution (length _pv) /\ _function = old _function /\ length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  raises { LastEvaluation -> true }

function hnco::algorithm::Mmas::iterate
  fields _function _solution _pv _x _learning_rate _lower_bound _upper_bound
  requires { sol_ok _function _solution (length _pv) /\ _lower_bound <=. _upper_bound /\ length _x = length _pv }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound /\ _function = old _function }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }

file lib/hnco/algorithms/random-search.cc
function hnco::algorithm::RandomSearch::init
  fields _function _solution
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  raises { LastEvaluation -> true }
function hnco::algorithm::RandomSearch::iterate
  fields _function _solution _candidate
  requires { sol_ok _function _solution (length _candidate) }
  ensures { sol_ok _function _solution (length _candidate) /\ _function = old _function /\ is_bv _candidate /\ length _candidate = length (old _candidate) }
  ensures { _solution.ssnd >=. (old _solution).ssnd /\ _solution.ssnd >=. value_of _function _candidate }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }

