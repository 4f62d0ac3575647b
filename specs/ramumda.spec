# Estimation of distribution algorithms with a model other than a probability vector in the solution space
use bits.Bits cpp.Perm reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
import map
import transvection
import crossover
record Population
record TsAffineMap
define {
  predicate pop_full (b: seq (seq int)) (v: seq real) (p: seq int) (n: int) = pop_ok b v p /\ pop_size b n /\ length b > 0
}
file lib/hnco/algorithms/probability-vector/ram-umda.cc
function hnco::algorithm::RamUmda::init
  fields _function _solution _population_x _something_to_log _log_entropy _log_pv
  requires { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _solution.sfst) }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  ensures { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _solution.sfst) /\ pop_bv _population_x.population_bvs (length _solution.sfst) }
  raises { LastEvaluation -> true }
function hnco::algorithm::RamUmda::compute_ts_length
  fields _iteration _ts_length _ts_length_mode _ts_length_increment_period _ts_length_lower_bound _ts_length_upper_bound _ts_length_distribution_parameter
  requires { 0 <= _ts_length /\ 0 < _ts_length_increment_period /\ 0 <= _ts_length_lower_bound <= _ts_length_upper_bound /\ 0 <= _iteration /\ 0.0 <. _ts_length_distribution_parameter <. 1.0 /\ 0 <= _ts_length_mode <= 5 }
  ensures { 0 <= _ts_length /\ _ts_length_increment_period = old _ts_length_increment_period }
  ensures { _iteration = old _iteration /\ _ts_length_mode = old _ts_length_mode /\ _ts_length_lower_bound = old _ts_length_lower_bound /\ _ts_length_upper_bound = old _ts_length_upper_bound /\ _ts_length_distribution_parameter = old _ts_length_distribution_parameter }
function hnco::algorithm::RamUmda::iterate
  fields _functions _function _solution _pv _population_x _population_y _selection_size _lower_bound _upper_bound _map _inverse_map _a _iteration _ts_length _ts_length_mode _ts_length_increment_period _ts_length_lower_bound _ts_length_upper_bound _ts_length_distribution_parameter 
  requires { sol_ok _function _solution (length _pv) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound /\ length _a = length _pv > 1 }
  requires { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _pv) /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_size _population_y.population_bvs (length _pv) }
  requires { 0 < _selection_size <= length _population_x.population_bvs /\ _selection_size <= length _population_y.population_bvs }
  requires { 0 <= _ts_length /\ 0 < _ts_length_increment_period /\ 0 <= _ts_length_lower_bound <= _ts_length_upper_bound /\ 0 <= _iteration /\ 0.0 <. _ts_length_distribution_parameter <. 1.0 /\ 0 <= _ts_length_mode <= 5 }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { topped _function (old _population_x).population_bvs _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  ensures { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _pv) /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_size _population_y.population_bvs (length _pv) /\ length _population_x.population_bvs = length (old _population_x).population_bvs }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ 0 <= _ts_length }
  diverges
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }
  ghost before 0 { assert { paired _function _population_x.population_bvs _population_x.population_values }; top _population_x.population_values _population_x.population_permutation; assert { topped _function (old _population_x).population_bvs _solution }; }
  loop 0
    invariant { is_bv _map.tsAffineMap_bv /\ length _map.tsAffineMap_bv = length (old _pv) /\ tsv _map.tsAffineMap_ts (length (old _pv)) }
    invariant { length _population_y.population_bvs = length (old _population_y).population_bvs /\ pop_size _population_y.population_bvs (length _pv) /\ forall i. 0 <= i < $k -> is_bv _population_y.population_bvs[i] }
  loop 1
    invariant { length _pv = length (old _pv) }
  loop 2
    invariant { is_bv _inverse_map.tsAffineMap_bv /\ length _inverse_map.tsAffineMap_bv = length (old _pv) /\ tsv _inverse_map.tsAffineMap_ts (length (old _pv)) }
    invariant { length _population_x.population_bvs = length (old _population_x).population_bvs /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_ok _population_x.population_bvs _population_x.population_values _population_x.population_permutation /\ length _a = length _pv }
function hnco::algorithm::RamUmda2::iterate
  fields _functions _function _solution _pv _population_x _population_y _selection_size _lower_bound _upper_bound _map _inverse_map _a _iteration _ts_length _ts_length_mode _ts_length_increment_period _ts_length_lower_bound _ts_length_upper_bound _ts_length_distribution_parameter _pv_y _b _c _crossover_probability _latent_space_probability
  requires { sol_ok _function _solution (length _pv) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound /\ length _a = length _pv > 1 /\ length _pv_y = length _pv = length _b = length _c }
  requires { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _pv) /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_size _population_y.population_bvs (length _pv) }
  requires { 0 < _selection_size <= length _population_x.population_bvs /\ _selection_size <= length _population_y.population_bvs }
  requires { 0 <= _ts_length /\ 0 < _ts_length_increment_period /\ 0 <= _ts_length_lower_bound <= _ts_length_upper_bound /\ 0 <= _iteration /\ 0.0 <. _ts_length_distribution_parameter <. 1.0 /\ 0 <= _ts_length_mode <= 5 }
  ensures { sol_ok _function _solution (length _pv) /\ _solution.ssnd >=. (old _solution).ssnd }
  ensures { topped _function (old _population_x).population_bvs _solution }
  ensures { length _pv = length (old _pv) /\ within _pv _lower_bound _upper_bound }
  ensures { pop_full _population_x.population_bvs _population_x.population_values _population_x.population_permutation (length _pv) /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_size _population_y.population_bvs (length _pv) /\ length _population_x.population_bvs = length (old _population_x).population_bvs }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ 0 <= _ts_length }
  diverges
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function /\ _pv = old _pv }
  ghost before 0 { assert { paired _function _population_x.population_bvs _population_x.population_values }; top _population_x.population_values _population_x.population_permutation; assert { topped _function (old _population_x).population_bvs _solution }; }
  loop 0
    invariant { length _pv = length (old _pv) }
  loop 1
    invariant { is_bv _map.tsAffineMap_bv /\ length _map.tsAffineMap_bv = length (old _pv) /\ tsv _map.tsAffineMap_ts (length (old _pv)) }
    invariant { length _population_y.population_bvs = length (old _population_y).population_bvs /\ pop_size _population_y.population_bvs (length _pv) /\ forall i. 0 <= i < $k -> is_bv _population_y.population_bvs[i] }
  loop 2
    invariant { length _pv_y = length (old _pv) }
  loop 3
    invariant { is_bv _inverse_map.tsAffineMap_bv /\ length _inverse_map.tsAffineMap_bv = length (old _pv) /\ tsv _inverse_map.tsAffineMap_ts (length (old _pv)) }
    invariant { length _population_x.population_bvs = length (old _population_x).population_bvs /\ pop_bv _population_x.population_bvs (length _pv) /\ pop_ok _population_x.population_bvs _population_x.population_values _population_x.population_permutation /\ length _a = length _pv /\ length _pv_y = length _pv = length _b = length _c }
