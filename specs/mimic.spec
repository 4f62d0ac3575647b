# Estimation of distribution algorithms with a model other than a probability vector in the solution space
use bits.Bits cpp.Perm cpp.PermOnto reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
record Population
define {
  predicate pop_full (b: seq (seq int)) (v: seq real) (p: seq int) (n: int) = pop_ok b v p /\ pop_size b n /\ length b > 0
  (* contingency table of k individuals *)
  predicate tab (t: seq (seq int)) (k: int) = length t = 2 /\ length t[0] = 2 = length t[1] /\ 0 <= t[0][0] /\ 0 <= t[0][1] /\ 0 <= t[1][0] /\ 0 <= t[1][1] /\
    t[0][0] + t[0][1] + t[1][0] + t[1][1] = k
  let lemma tab_inc (t: seq (seq int)) (a b k: int)
    requires { tab t k /\ is_bit a /\ is_bit b } ensures { tab t[a <- t[a][b <- t[a][b] + 1]] (k + 1) } = ()
  let ghost onto_bits (p b: seq int)
    requires { is_perm p /\ length p = length b /\ forall j. 0 <= j < length b -> is_bit b[p[j]] }
    ensures { is_bv b }
  = let lemma one (x: int) requires { 0 <= x < length b } ensures { is_bit b[x] }
    = let ghost j = preimage p x in assert { is_bit b[p[j]] } in ()
}
file lib/hnco/algorithms/mimic.cc
function hnco::algorithm::Mimic::init
  fields _function _solution _permutation _parameters _population _selection_size
  requires { length _parameters = 2 /\ 0 < _selection_size < length _population.population_bvs }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function /\ is_perm _permutation /\ length _permutation = length (old _permutation) }
  ensures { length _parameters = 2 /\ length _parameters[0] = length (old _parameters)[0] /\ length _parameters[1] = length (old _parameters)[1] }
  raises { LastEvaluation -> true }
  loop 0
    invariant { length _parameters = 2 /\ length _parameters[0] = length (old _parameters)[0] /\ length _parameters[1] = length (old _parameters)[1] }
function hnco::algorithm::Mimic::sample
  fields _permutation _parameters
  requires { length bv > 0 /\ is_perm _permutation /\ length _permutation = length bv /\ length _parameters = 2 /\ length _parameters[0] = length bv = length _parameters[1] }
  ensures { is_bv bv /\ length bv = length (old bv) /\ _permutation = old _permutation /\ _parameters = old _parameters }
  loop 0
    invariant { length bv = length (old bv) /\ 1 <= $k <= length bv /\ forall j. 0 <= j < $k -> is_bit bv[_permutation[j]] }
  ghost exit { onto_bits _permutation bv; }
function hnco::algorithm::Mimic::compute_conditional_entropy
  fields _parameters _table _entropies _selection_size
  requires { 0 <= index < length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _entropies = length _parameters[1] }
  requires { tab _table _selection_size }
  ensures { length _entropies = length (old _entropies) /\ length _parameters = 2 /\ length _parameters[0] = length (old _parameters)[0] /\ length _parameters[1] = length (old _parameters)[1] /\ _table = old _table /\ _selection_size = old _selection_size }
  ensures { forall j. 0 <= j < length _entropies -> j <> index -> _entropies[j] = (old _entropies)[j] }
  loop 0
    invariant { length _parameters = 2 /\ length _parameters[0] = length (old _parameters)[0] /\ length _parameters[1] = length (old _parameters)[1] /\ entropy >=. 0.0 }
    invariant { total = (if $k > 0 then _table[0][0] + _table[0][1] else 0) + (if $k > 1 then _table[1][0] + _table[1][1] else 0) }
function hnco::algorithm::Mimic::update_model
  fields _population _permutation _parameters _mean _entropies _table _lower_bound _upper_bound _selection_size
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _mean) /\ pop_bv _population.population_bvs (length _mean) /\ 0 < _selection_size <= length _population.population_bvs }
  requires { length _mean > 0 /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 /\ _lower_bound <=. _upper_bound }
  ensures { _population = old _population /\ _selection_size = old _selection_size /\ _lower_bound = old _lower_bound /\ _upper_bound = old _upper_bound /\ length _mean = length (old _mean) }
  ensures { is_perm _permutation /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 }
  ensures { within _parameters[0] _lower_bound _upper_bound /\ within _parameters[1] _lower_bound _upper_bound }
  loop 0
    invariant { length _mean = length (old _mean) /\ forall c. 0 <= c < length _mean -> 0.0 <=. _mean[c] <=. from_int $k }
  loop 1
    invariant { _selection_size = old _selection_size }
    invariant { is_perm _permutation /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 }
  loop 2
    invariant { _selection_size = old _selection_size }
    invariant { is_perm _permutation /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 }
  loop 3
    invariant { tab _table $k }
  loop 4
    invariant { length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] }
  loop 5
    invariant { length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ forall q. 0 <= q < $k -> within _parameters[q] _lower_bound _upper_bound }
function hnco::algorithm::Mimic::iterate
  fields _functions _function _solution _population _permutation _parameters _mean _entropies _table _lower_bound _upper_bound _selection_size
  requires { sol_ok _function _solution (length _mean) /\ fns_ok _function _functions /\ _lower_bound <=. _upper_bound }
  requires { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _mean) /\ 0 < _selection_size <= length _population.population_bvs }
  requires { is_perm _permutation /\ length _mean > 0 /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 }
  ensures { sol_ok _function _solution (length _mean) /\ _solution.ssnd >=. (old _solution).ssnd /\ length _mean = length (old _mean) }
  ensures { pop_full _population.population_bvs _population.population_values _population.population_permutation (length _mean) /\ pop_bv _population.population_bvs (length _mean) /\ paired _function _population.population_bvs _population.population_values }
  ensures { topped _function _population.population_bvs _solution }
  ensures { _function = old _function /\ _functions = old _functions /\ _selection_size = old _selection_size /\ length _population.population_bvs = length (old _population).population_bvs }
  ensures { is_perm _permutation /\ length _permutation = length _mean = length _entropies /\ length _parameters = 2 /\ length _parameters[0] = length _mean = length _parameters[1] /\ length _table = 2 }
  ensures { within _parameters[0] _lower_bound _upper_bound /\ within _parameters[1] _lower_bound _upper_bound }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { length _population.population_bvs = length (old _population).population_bvs /\ _permutation = old _permutation /\ _parameters = old _parameters }
    invariant { _population.population_values = (old _population).population_values /\ _population.population_permutation = (old _population).population_permutation }
    invariant { forall i. 0 <= i < length _population.population_bvs -> length _population.population_bvs[i] = length _mean /\ (i < $k -> is_bv _population.population_bvs[i]) }
  ghost exit { assert { paired _function _population.population_bvs _population.population_values }; top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }
