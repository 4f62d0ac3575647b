# Evolutionary algorithms
use bits.Bits cpp.Perm reals.Flip fn.Fn fn.Ranks fn.Omp
import algorithm
import neighborhood
import crossover
record Population
record HammingSphere
file lib/hnco/algorithms/evolutionary-algorithms/two-rate-one-plus-lambda-ea.cc
define {
  predicate filled (b: seq (seq int)) (k n: int) = forall i. 0 <= i < length b -> length b[i] = n /\ (i < k -> is_bv b[i])
}
function hnco::algorithm::TwoRateOnePlusLambdaEa::init
  fields _function _solution _mutation_operator _mutation_rate _mutation_rate_init _allow_no_mutation _log_mutation_rate _something_to_log
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  raises { LastEvaluation -> true }
function hnco::algorithm::TwoRateOnePlusLambdaEa::iterate
  fields _functions _function _solution _population _mutation_operator _mutation_rate _mutation_rate_min _mutation_rate_max
  requires { sol_ok _function _solution (length _mutation_operator.standardBitMutation_origin) /\ length _solution.sfst > 0 /\ length _mutation_operator.standardBitMutation_candidate = length _solution.sfst /\ 0 < length _population.population_bvs /\ fns_ok _function _functions /\ 0.0 <=. _mutation_rate_min <=. _mutation_rate <=. _mutation_rate_max <=. 0.5 }
  ensures { 0.0 <=. _mutation_rate_min <=. _mutation_rate <=. _mutation_rate_max <=. 0.5 }
  requires { pop_ok _population.population_bvs _population.population_values _population.population_permutation /\ pop_size _population.population_bvs (length _solution.sfst) }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  ensures { pop_bv _population.population_bvs (length _solution.sfst) /\ paired _function _population.population_bvs _population.population_values }
  ensures { topped _function _population.population_bvs _solution }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ length _population.population_bvs = length (old _population.population_bvs) /\ filled _population.population_bvs $k (length _solution.sfst) }
    invariant { _population.population_values = old _population.population_values /\ _population.population_permutation = old _population.population_permutation }
    invariant { length _mutation_operator.standardBitMutation_origin = length _solution.sfst = length _mutation_operator.standardBitMutation_candidate }
  loop 1
    invariant { _solution = old _solution /\ length _population.population_bvs = length (old _population.population_bvs) /\ filled _population.population_bvs $k (length _solution.sfst) }
    invariant { _population.population_values = old _population.population_values /\ _population.population_permutation = old _population.population_permutation }
    invariant { length _mutation_operator.standardBitMutation_origin = length _solution.sfst = length _mutation_operator.standardBitMutation_candidate }
  ghost after 1 { assert { pop_bv _population.population_bvs (length _solution.sfst) }; }
  ghost exit { top _population.population_values _population.population_permutation; assert { topped _function _population.population_bvs _solution }; }

file lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
function hnco::algorithm::OnePlusLambdaCommaLambdaGa::init
  fields _function _solution _radius_dist _parent _crossover _crossover_bias _mutation_rate
  requires { 0.0 <=. _mutation_rate <=. 1.0 /\ 0.0 <. _crossover_bias <. 1.0 }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function }
  raises { LastEvaluation -> true }
function hnco::algorithm::OnePlusLambdaCommaLambdaGa::iterate
  fields _function _solution _offsprings _mutation _parent _crossover _radius_dist
  requires { sol_ok _function _solution (length _mutation.hammingSphere_origin) /\ length _mutation.hammingSphere_candidate = length _solution.sfst = length _parent /\ 0 < length _offsprings.population_bvs }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation /\ pop_size _offsprings.population_bvs (length _solution.sfst) }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  ensures { pop_bv _offsprings.population_bvs (length _solution.sfst) /\ paired _function _offsprings.population_bvs _offsprings.population_values }
  ensures { topped _function _offsprings.population_bvs _solution }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) /\ filled _offsprings.population_bvs $k (length _solution.sfst) }
    invariant { _offsprings.population_values = old _offsprings.population_values /\ _offsprings.population_permutation = old _offsprings.population_permutation }
    invariant { length _mutation.hammingSphere_origin = length _solution.sfst = length _mutation.hammingSphere_candidate }
  ghost after 0 { assert { pop_bv _offsprings.population_bvs (length _solution.sfst) }; }
  loop 1
    invariant { 0 <= n <= length _offsprings.population_bvs /\ forall i. 0 <= i < n -> _offsprings.population_values[_offsprings.population_permutation[i]] = value }
    variant { length _offsprings.population_bvs - n }
  loop 2
    invariant { _solution = old _solution /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) /\ filled _offsprings.population_bvs $k (length _solution.sfst) }
    invariant { length _offsprings.population_values = length _offsprings.population_bvs = length _offsprings.population_permutation /\ is_perm _offsprings.population_permutation }
  ghost after 2 { assert { pop_bv _offsprings.population_bvs (length _solution.sfst) }; }
  loop 3
    invariant { 0 <= n <= length _offsprings.population_bvs /\ forall i. 0 <= i < n -> _offsprings.population_values[_offsprings.population_permutation[i]] = value }
    variant { length _offsprings.population_bvs - n }
  ghost exit { top _offsprings.population_values _offsprings.population_permutation; assert { topped _function _offsprings.population_bvs _solution }; }

file lib/hnco/algorithms/evolutionary-algorithms/mu-comma-lambda-ea.cc
function hnco::algorithm::MuCommaLambdaEa::init
  fields _function _solution _parents _mutation _mutation_rate _allow_no_mutation
  requires { 0.0 <=. _mutation_rate <=. 1.0 /\ 0 < length _mutation.standardBitMutation_origin /\ pop_size _parents.population_bvs (length _solution.sfst) }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function /\ pop_bv _parents.population_bvs (length _solution.sfst) /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { _parents.population_values = old _parents.population_values /\ _parents.population_permutation = old _parents.population_permutation }
  raises { LastEvaluation -> true }
function hnco::algorithm::MuCommaLambdaEa::iterate
  fields _functions _function _solution _parents _offsprings _mutation _select_parent
  requires { sol_ok _function _solution (length _mutation.standardBitMutation_origin) /\ fns_ok _function _functions /\ length _mutation.standardBitMutation_candidate = length _solution.sfst }
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ pop_bv _parents.population_bvs (length _solution.sfst) }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation }
  requires { 0 < length _parents.population_bvs <= length _offsprings.population_bvs /\ _select_parent = { d_lo = 0; d_hi = length _parents.population_bvs - 1 } }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { pop_bv _parents.population_bvs (length _solution.sfst) /\ paired _function _parents.population_bvs _parents.population_values /\ topped _function _parents.population_bvs _solution }
  ensures { length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
  ensures { is_perm _offsprings.population_permutation }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ _parents = old _parents /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
    invariant { forall i. 0 <= i < $k -> is_bv _offsprings.population_bvs[i] /\ length _offsprings.population_bvs[i] = length _solution.sfst }
    invariant { _offsprings.population_values = old _offsprings.population_values /\ _offsprings.population_permutation = old _offsprings.population_permutation }
    invariant { length _mutation.standardBitMutation_origin = length _solution.sfst = length _mutation.standardBitMutation_candidate }
  ghost after 0 { assert { pop_bv _offsprings.population_bvs (length _solution.sfst) }; }
  ghost exit { top _parents.population_values _parents.population_permutation; assert { topped _function _parents.population_bvs _solution }; }

file lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
function hnco::algorithm::MuPlusLambdaEa::init
  fields _function _solution _parents _mutation _mutation_rate _allow_no_mutation
  requires { 0.0 <=. _mutation_rate <=. 1.0 /\ 0 < length _mutation.standardBitMutation_origin /\ pop_size _parents.population_bvs (length _solution.sfst) }
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ 0 < length _parents.population_bvs }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function /\ pop_bv _parents.population_bvs (length _solution.sfst) /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ paired _function _parents.population_bvs _parents.population_values /\ topped _function _parents.population_bvs _solution }
  raises { LastEvaluation -> true }
  ghost exit { top _parents.population_values _parents.population_permutation; assert { topped _function _parents.population_bvs _solution }; }
function hnco::algorithm::MuPlusLambdaEa::iterate
  fields _functions _function _solution _parents _offsprings _plus_selection _mutation _select_parent
  requires { sol_ok _function _solution (length _mutation.standardBitMutation_origin) /\ fns_ok _function _functions /\ length _mutation.standardBitMutation_candidate = length _solution.sfst }
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ pop_bv _parents.population_bvs (length _solution.sfst) /\ paired _function _parents.population_bvs _parents.population_values }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation }
  requires { pop_ok _plus_selection.plusSelection_pool.population_bvs _plus_selection.plusSelection_pool.population_values _plus_selection.plusSelection_pool.population_permutation }
  requires { length _plus_selection.plusSelection_pool.population_bvs = length _parents.population_bvs + length _offsprings.population_bvs }
  requires { 0 < length _parents.population_bvs /\ _select_parent = { d_lo = 0; d_hi = length _parents.population_bvs - 1 } }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { pop_bv _parents.population_bvs (length _solution.sfst) /\ paired _function _parents.population_bvs _parents.population_values /\ topped _function _parents.population_bvs _solution }
  ensures { length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ _parents = old _parents /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
    invariant { forall i. 0 <= i < $k -> is_bv _offsprings.population_bvs[i] /\ length _offsprings.population_bvs[i] = length _solution.sfst }
    invariant { _offsprings.population_values = old _offsprings.population_values /\ _offsprings.population_permutation = old _offsprings.population_permutation }
    invariant { length _mutation.standardBitMutation_origin = length _solution.sfst = length _mutation.standardBitMutation_candidate }
  ghost after 0 { assert { pop_bv _offsprings.population_bvs (length _solution.sfst) }; }
  ghost exit { top _parents.population_values _parents.population_permutation; assert { topped _function _parents.population_bvs _solution }; }

file lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
function hnco::algorithm::GeneticAlgorithm::iterate
  fields _functions _function _solution _parents _offsprings _tournament_selection _mutation _do_crossover
  requires { sol_ok _function _solution (length _mutation.standardBitMutation_origin) /\ fns_ok _function _functions /\ length _mutation.standardBitMutation_candidate = length _solution.sfst }
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ pop_bv _parents.population_bvs (length _solution.sfst) }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation /\ pop_size _offsprings.population_bvs (length _solution.sfst) }
  requires { 0 < length _parents.population_bvs <= length _offsprings.population_bvs }
  requires { tour_ok _tournament_selection.tournamentSelection_tournament_selection /\ tour_on _tournament_selection.tournamentSelection_tournament_selection _parents.population_bvs _parents.population_values }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _solution.ssnd >=. (old _solution).ssnd /\ _function = old _function }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { pop_bv _parents.population_bvs (length _solution.sfst) /\ paired _function _parents.population_bvs _parents.population_values /\ topped _function _parents.population_bvs _solution }
  ensures { length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
  raises { LastEvaluation -> _solution = old _solution /\ _function = old _function }
  loop 0
    invariant { _solution = old _solution /\ _parents = old _parents /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
    invariant { tour_ok _tournament_selection.tournamentSelection_tournament_selection /\ tour_on _tournament_selection.tournamentSelection_tournament_selection _parents.population_bvs _parents.population_values }
    invariant { filled _offsprings.population_bvs $k (length _solution.sfst) }
    invariant { _offsprings.population_values = old _offsprings.population_values /\ _offsprings.population_permutation = old _offsprings.population_permutation }
    invariant { length _mutation.standardBitMutation_origin = length _solution.sfst = length _mutation.standardBitMutation_candidate }
  ghost after 0 { assert { pop_bv _offsprings.population_bvs (length _solution.sfst) }; }
  ghost exit { top _parents.population_values _parents.population_permutation; assert { topped _function _parents.population_bvs _solution }; }
function hnco::algorithm::GeneticAlgorithm::init
  fields _function _solution _parents _mutation _mutation_rate _allow_no_mutation _tournament_selection _tournament_size _do_crossover _crossover_probability
  requires { 0.0 <=. _mutation_rate <=. 1.0 /\ 0 < length _mutation.standardBitMutation_origin /\ pop_size _parents.population_bvs (length _solution.sfst) }
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ 0 < length _parents.population_bvs }
  requires { is_perm _tournament_selection.tournamentSelection_tournament_selection.tournamentSelection_double__greater_double___permutation /\ length _tournament_selection.tournamentSelection_tournament_selection.tournamentSelection_double__greater_double___permutation = length _parents.population_bvs }
  requires { tour_on _tournament_selection.tournamentSelection_tournament_selection _parents.population_bvs _parents.population_values /\ 2 <= _tournament_size < length _parents.population_bvs }
  ensures { sol_ok _function _solution (length (old _solution).sfst) /\ _function = old _function /\ pop_bv _parents.population_bvs (length _solution.sfst) /\ length _parents.population_bvs = length (old _parents.population_bvs) }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation /\ paired _function _parents.population_bvs _parents.population_values /\ topped _function _parents.population_bvs _solution }
  raises { LastEvaluation -> true }
  ghost exit { top _parents.population_values _parents.population_permutation; assert { topped _function _parents.population_bvs _solution }; }
