# Populations: pairing of points and values, ranks, selection
use bits.Bits cpp.Shuffle cpp.Perm fn.Fn fn.Ranks fn.Omp
opaque Function fn
record Population
extern Function::evaluate { fn_try {o} {0} }
extern Function::evaluate_safely { fn_evaluate_safely {o} {0} }
extern omp_get_thread_num { omp_thread () }
extern Function::update { fn_try_update {o} {0} {1} }
define {
  predicate pop_ok (b: seq (seq int)) (v: seq real) (p: seq int) = length v = length b /\ length p = length b /\ is_perm p
  predicate paired (f: fn) (b: seq (seq int)) (v: seq real) = length b = length v /\ forall i. 0 <= i < length b -> v[i] = value_of f b[i]
  (* b, v are the k best of c, w according to the ranking p *)
  predicate chosen (b: seq (seq int)) (v: seq real) (c: seq (seq int)) (w: seq real) (p: seq int) (k: int) =
    is_perm p /\ length p = length c /\ ranked w p k /\ length b = k /\ length v = k /\ k <= length c /\
    forall i. 0 <= i < k -> b[i] = c[p[i]] /\ v[i] = w[p[i]]
}
file lib/hnco/algorithms/population.cc
function hnco::algorithm::Population::random
  ensures { length bvs = length (old bvs) }
  ensures { forall i. 0 <= i < length bvs -> is_bv bvs[i] /\ length bvs[i] = length (old bvs)[i] }
  ensures { values = old values /\ permutation = old permutation }
  loop 0
    invariant { length bvs = length (old bvs) /\ forall i. 0 <= i < length bvs -> length bvs[i] = length (old bvs)[i] /\ (i < $k -> is_bv bvs[i]) }

function hnco::algorithm::Population::evaluate
  requires { length bvs = length values }
  ensures { paired function_ bvs values /\ length values = length (old values) }
  ensures { bvs = old bvs /\ permutation = old permutation }
  raises { LastEvaluation -> bvs = old bvs /\ permutation = old permutation /\ length values = length (old values) }
  loop 0
    invariant { length values = length bvs /\ forall j. 0 <= j < $k -> values[j] = value_of function_ bvs[j] }

function hnco::algorithm::Population::evaluate_in_parallel
  params fns
  requires { length bvs = length values /\ omp_threads <= length fns }
  requires { forall k x. 0 <= k < length fns -> value_of fns[k] x = value_of fns[0] x }
  ensures { paired fns[0] bvs values /\ length values = length (old values) }
  ensures { bvs = old bvs /\ permutation = old permutation }
  raises { LastEvaluation -> bvs = old bvs /\ permutation = old permutation /\ length values = length (old values) }
  loop 0
    invariant { length values = length bvs /\ forall j. 0 <= j < $k -> values[j] = value_of fns[0] bvs[j] }

function hnco::algorithm::Population::sort
  requires { pop_ok bvs values permutation }
  ensures { pop_ok bvs values permutation /\ ranked values permutation (length permutation) }
  ensures { bvs = old bvs /\ values = old values }

function hnco::algorithm::Population::partial_sort
  requires { pop_ok bvs values permutation /\ 0 < selection_size <= length bvs }
  ensures { pop_ok bvs values permutation /\ ranked values permutation selection_size }
  ensures { bvs = old bvs /\ values = old values }

file lib/hnco/algorithms/evolutionary-algorithms/mu-comma-lambda-ea.cc
function hnco::algorithm::CommaSelection::select
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation }
  requires { 0 < length _parents.population_bvs <= length _offsprings.population_bvs }
  ensures { exists p. chosen _parents.population_bvs _parents.population_values (old _offsprings.population_bvs) (old _offsprings.population_values) p (length (old _parents.population_bvs)) }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation }
  ensures { ranked _parents.population_values _parents.population_permutation (length _parents.population_permutation) }
  ensures { length _offsprings.population_bvs = length (old _offsprings.population_bvs) /\ is_perm _offsprings.population_permutation /\ length _offsprings.population_values = length _offsprings.population_bvs }
  ghost entry { let ghost c = pure { _offsprings.population_bvs } in let ghost w = pure { _offsprings.population_values } in let ghost n = pure { length _parents.population_bvs } in }
  ghost before 0 { let ghost p = pure { _offsprings.population_permutation } in let ghost pp = pure { _parents.population_permutation } in assert { length p = length c /\ n <= length c }; }
  loop 0
    variant { n - $k }
    invariant { _offsprings.population_values = w /\ _offsprings.population_permutation = p /\ _parents.population_permutation = pp }
    invariant { length p = length c /\ length _parents.population_bvs = n /\ length _parents.population_values = n /\ length _offsprings.population_bvs = length c }
    invariant { forall j. 0 <= j < $k -> _parents.population_bvs[j] = c[p[j]] /\ _parents.population_values[j] = w[p[j]] }
    invariant { forall j. $k <= j < length c -> _offsprings.population_bvs[p[j]] = c[p[j]] }
  ghost exit { assert { chosen _parents.population_bvs _parents.population_values c w _offsprings.population_permutation n } }

file lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
function hnco::algorithm::PlusSelection::select
  requires { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation }
  requires { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation }
  requires { pop_ok _pool.population_bvs _pool.population_values _pool.population_permutation }
  requires { 0 < length _parents.population_bvs /\ length _pool.population_bvs = length _parents.population_bvs + length _offsprings.population_bvs }
  ensures { exists p. chosen _parents.population_bvs _parents.population_values ((old _parents.population_bvs) ++ (old _offsprings.population_bvs)) ((old _parents.population_values) ++ (old _offsprings.population_values)) p (length (old _parents.population_bvs)) }
  ensures { pop_ok _parents.population_bvs _parents.population_values _parents.population_permutation }
  ensures { ranked _parents.population_values _parents.population_permutation (length _parents.population_permutation) }
  ensures { pop_ok _pool.population_bvs _pool.population_values _pool.population_permutation /\ length _pool.population_bvs = length (old _pool.population_bvs) }
  ensures { pop_ok _offsprings.population_bvs _offsprings.population_values _offsprings.population_permutation /\ length _offsprings.population_bvs = length (old _offsprings.population_bvs) }
  ghost entry { let ghost c1 = pure { _parents.population_bvs } in let ghost c2 = pure { _offsprings.population_bvs } in let ghost w1 = pure { _parents.population_values } in let ghost w2 = pure { _offsprings.population_values } in let ghost n = pure { length _parents.population_bvs } in let ghost m = pure { length _offsprings.population_bvs } in let ghost pp1 = pure { _parents.population_permutation } in let ghost pp2 = pure { _offsprings.population_permutation } in let ghost pp3 = pure { _pool.population_permutation } in  }
  loop 0
    variant { n - $k }
    invariant { _offsprings.population_bvs = c2 /\ _offsprings.population_values = w2 /\ _offsprings.population_permutation = pp2 /\ _parents.population_permutation = pp1 /\ _pool.population_permutation = pp3 /\ _parents.population_values = w1 }
    invariant { length _parents.population_bvs = n /\ length _pool.population_bvs = n + m /\ length _pool.population_values = n + m }
    invariant { forall j. 0 <= j < $k -> _pool.population_bvs[j] = c1[j] /\ _pool.population_values[j] = w1[j] }
    invariant { forall j. $k <= j < n -> _parents.population_bvs[j] = c1[j] }
  loop 1
    variant { m - $k }
    invariant { _offsprings.population_values = w2 /\ _offsprings.population_permutation = pp2 /\ _parents.population_permutation = pp1 /\ _pool.population_permutation = pp3 }
    invariant { length _parents.population_bvs = n /\ length _parents.population_values = n /\ length _pool.population_bvs = n + m /\ length _pool.population_values = n + m /\ length _offsprings.population_bvs = m }
    invariant { forall j. 0 <= j < n -> _pool.population_bvs[j] = c1[j] /\ _pool.population_values[j] = w1[j] }
    invariant { forall j. 0 <= j < $k -> _pool.population_bvs[n + j] = c2[j] /\ _pool.population_values[n + j] = w2[j] }
    invariant { forall j. $k <= j < m -> _offsprings.population_bvs[j] = c2[j] }
  ghost after 1 { assert { forall j. 0 <= j < n + m -> _pool.population_bvs[j] = (c1 ++ c2)[j] /\ _pool.population_values[j] = (w1 ++ w2)[j] }; assert { _pool.population_bvs == c1 ++ c2 }; assert { _pool.population_values == w1 ++ w2 } }
  ghost before 2 { let ghost p = pure { _pool.population_permutation } in let ghost pp = pure { _parents.population_permutation } in }
  loop 2
    variant { n - $k }
    invariant { _pool.population_values = w1 ++ w2 /\ _pool.population_permutation = p /\ _parents.population_permutation = pp }
    invariant { length p = n + m /\ length _parents.population_bvs = n /\ length _parents.population_values = n /\ length _pool.population_bvs = n + m }
    invariant { forall j. 0 <= j < $k -> _parents.population_bvs[j] = (c1 ++ c2)[p[j]] /\ _parents.population_values[j] = (w1 ++ w2)[p[j]] }
    invariant { forall j. $k <= j < n + m -> _pool.population_bvs[p[j]] = (c1 ++ c2)[p[j]] }
  ghost exit { assert { chosen _parents.population_bvs _parents.population_values (c1 ++ c2) (w1 ++ w2) _pool.population_permutation n } }

file lib/hnco/algorithms/evolutionary-algorithms/random-selection.cc
function hnco::algorithm::UniformSelection::select
  requires { 0 < length _population.population_bvs /\ _choose_individual.d_lo = 0 /\ _choose_individual.d_hi = length _population.population_bvs - 1 }
  ensures { exists i. 0 <= i < length _population.population_bvs /\ result = _population.population_bvs[i] }

function hnco::multiobjective::algorithm::TournamentSelection<double, std::greater<double>>::init
  requires { is_perm _permutation }
  ensures { is_perm _permutation /\ length _permutation = length (old _permutation) /\ _start = 0 /\ _stop = _tournament_size /\ _bvs = old _bvs /\ _values = old _values /\ _tournament_size = old _tournament_size }

function hnco::multiobjective::algorithm::TournamentSelection<double, std::greater<double>>::select
  requires { is_perm _permutation /\ length _permutation = length _bvs /\ length _values = length _bvs }
  requires { 2 <= _tournament_size < length _bvs /\ 0 <= _start /\ _stop = _start + _tournament_size /\ _stop <= length _bvs }
  ensures { is_perm _permutation /\ length _permutation = length _bvs /\ _bvs = old _bvs /\ _values = old _values /\ _tournament_size = old _tournament_size }
  ensures { 0 <= _start /\ _stop = _start + _tournament_size /\ _stop <= length _bvs }
  ensures { exists w. old _start <= w < old _stop /\ result = _bvs[(old _permutation)[w]] /\ forall j. old _start <= j < old _stop -> _values[(old _permutation)[w]] >=. _values[(old _permutation)[j]] }
  loop 0
    invariant { _start <= winner < $k <= _stop /\ best_value = _values[_permutation[winner]] }
    invariant { forall j. _start <= j < $k -> _values[_permutation[winner]] >=. _values[_permutation[j]] }

function hnco::algorithm::TournamentSelection::init
  define {
  (* the tournament draws from the population it was built on *)
  predicate tour_on (t: tournamentSelection_double__greater_double__) (b: seq (seq int)) (v: seq real) = t.tournamentSelection_double__greater_double___bvs = b /\ t.tournamentSelection_double__greater_double___values = v /\ length v = length b
  predicate tour_ok (t: tournamentSelection_double__greater_double__) = is_perm t.tournamentSelection_double__greater_double___permutation /\ length t.tournamentSelection_double__greater_double___permutation = length t.tournamentSelection_double__greater_double___bvs /\ length t.tournamentSelection_double__greater_double___values = length t.tournamentSelection_double__greater_double___bvs /\
    2 <= t.tournamentSelection_double__greater_double___tournament_size < length t.tournamentSelection_double__greater_double___bvs /\ 0 <= t.tournamentSelection_double__greater_double___start /\ t.tournamentSelection_double__greater_double___stop = t.tournamentSelection_double__greater_double___start + t.tournamentSelection_double__greater_double___tournament_size /\ t.tournamentSelection_double__greater_double___stop <= length t.tournamentSelection_double__greater_double___bvs
  }
  fields _population _tournament_selection _tournament_size
  requires { is_perm _tournament_selection.tournamentSelection_double__greater_double___permutation /\ length _tournament_selection.tournamentSelection_double__greater_double___permutation = length _population.population_bvs }
  requires { tour_on _tournament_selection _population.population_bvs _population.population_values /\ 2 <= _tournament_size < length _population.population_bvs }
  ensures { tour_ok _tournament_selection /\ tour_on _tournament_selection _population.population_bvs _population.population_values /\ _population = old _population }
function hnco::algorithm::TournamentSelection::select
  define {
  (* the tournament draws from the population it was built on *)
  predicate tour_on (t: tournamentSelection_double__greater_double__) (b: seq (seq int)) (v: seq real) = t.tournamentSelection_double__greater_double___bvs = b /\ t.tournamentSelection_double__greater_double___values = v /\ length v = length b
  predicate tour_ok (t: tournamentSelection_double__greater_double__) = is_perm t.tournamentSelection_double__greater_double___permutation /\ length t.tournamentSelection_double__greater_double___permutation = length t.tournamentSelection_double__greater_double___bvs /\ length t.tournamentSelection_double__greater_double___values = length t.tournamentSelection_double__greater_double___bvs /\
    2 <= t.tournamentSelection_double__greater_double___tournament_size < length t.tournamentSelection_double__greater_double___bvs /\ 0 <= t.tournamentSelection_double__greater_double___start /\ t.tournamentSelection_double__greater_double___stop = t.tournamentSelection_double__greater_double___start + t.tournamentSelection_double__greater_double___tournament_size /\ t.tournamentSelection_double__greater_double___stop <= length t.tournamentSelection_double__greater_double___bvs
  }
  fields _population _tournament_selection _tournament_size
  requires { tour_ok _tournament_selection /\ tour_on _tournament_selection _population.population_bvs _population.population_values }
  ensures { tour_ok _tournament_selection /\ tour_on _tournament_selection _population.population_bvs _population.population_values /\ _population = old _population }
  ensures { exists i. 0 <= i < length _population.population_bvs /\ result = _population.population_bvs[i] }
