# Multi-objective optimisation: dominance, fronts, populations, solutions
use bits.Bits cpp.Shuffle cpp.Perm cpp.USet pareto.Pareto fn.Omp
opaque Function mfn
record Population
extern Function::evaluate { {1} := mfn_evaluate {o} {0} }
extern Function::get_output_size { mfn_size {o} }
extern omp_get_thread_num { omp_thread () }
define {
  (* the solutions are exactly the non-dominated individuals, in order *)
  predicate nondom_of (b: seq (seq int)) (v: seq (seq real)) (sb: seq (seq int)) (sv: seq (seq real)) = length sb = length sv > 0 /\
    (forall s. 0 <= s < length sb -> exists i. 0 <= i < length b /\ nondom v i /\ sb[s] = b[i] /\ sv[s] = v[i]) /\
    (forall i. 0 <= i < length b -> nondom v i -> exists s. 0 <= s < length sb /\ sb[s] = b[i] /\ sv[s] = v[i])
  predicate mo_paired (f: mfn) (b: seq (seq int)) (v: seq (seq real)) = length b = length v /\ forall i. 0 <= i < length b -> v[i] = mvalue_of f b[i]
}
file lib/hnco/multiobjective/algorithms/nsga2.cc
function hnco::multiobjective::function::dominates
  requires { length a = length b }
  ensures { result <-> dom a b }
  loop 0
    invariant { forall j. 0 <= j < $k -> a[j] <=. b[j] }
    invariant { result_ <-> exists j. 0 <= j < $k /\ a[j] <. b[j] }

function hnco::multiobjective::algorithm::Nsga2ParetoFrontComputation::is_non_dominated
  fields _population _non_dominated
  requires { same_size _population.population_values }
  requires { 0 <= i < length _population.population_values /\ inside _non_dominated (length _population.population_values) }
  ensures { result <-> forall j. smem j _non_dominated -> not dom _population.population_values[j] _population.population_values[i] }
  ensures { _population = old _population /\ _non_dominated = old _non_dominated }
  loop 0
    invariant { forall j. 0 <= j < $k -> not dom _population.population_values[_non_dominated[j]] _population.population_values[i] }

function hnco::multiobjective::algorithm::Nsga2ParetoFrontComputation::compute
  hide layer peeled pool_ok same_size is_fronts dom inpre
  requires { length pareto_fronts = length _population.population_values }
  requires { length _population.population_bvs = length _population.population_values }
  requires { same_size _population.population_values }
  ensures { _population = old _population }
  ensures { is_fronts _population.population_values pareto_fronts }
  ghost before 0 { peel_start _population.population_values pareto_fronts _pool; }
  loop 0
    invariant { _population = old _population }
    invariant { pool_ok _population.population_values _pool /\ peeled _population.population_values pareto_fronts _pool front /\ length pareto_fronts = length _population.population_values }
    variant { length _pool }
  ghost after 0 { peel_end _population.population_values pareto_fronts _pool front }
  ghost before 1 { layer_start _population.population_values _pool; }
  loop 1
    invariant { _population = old _population }
    invariant { layer _population.population_values _pool $k _non_dominated _next_pool }
  ghost begin 1 { let ghost nd0 = _non_dominated in let ghost np0 = _next_pool in layer_facts _population.population_values _pool $k nd0 np0; }
  loop 2
    invariant { sdistinct _dominated /\ forall x. smem x _dominated <-> (inpre x nd0 $k /\ dom _population.population_values[i] _population.population_values[x]) }
  loop 3
    invariant { sdistinct _non_dominated /\ forall x. smem x _non_dominated <-> (smem x nd0 /\ not inpre x _dominated $k) }
    invariant { sdistinct _next_pool /\ forall x. smem x _next_pool <-> (smem x np0 \/ inpre x _dominated $k) }
    invariant { length _non_dominated = length nd0 - $k /\ length _next_pool = length np0 + $k }
  ghost end 1 { if pure { smem _pool[$k] _non_dominated } then step_in _population.population_values _pool $k nd0 np0 _dominated _non_dominated _next_pool else step_out _population.population_values _pool $k nd0 np0 _next_pool }
  ghost before 4 { layer_done _population.population_values _pool _non_dominated _next_pool; let ghost fr0 = pareto_fronts in }
  loop 4
    invariant { forall j. 0 <= j < length _non_dominated -> 0 <= _non_dominated[j] < length pareto_fronts }
    invariant { forall j. 0 <= j < length pareto_fronts -> pareto_fronts[j] = if inpre j _non_dominated $k then front else fr0[j] }
  ghost after 4 { peel _population.population_values fr0 _pool _non_dominated _next_pool pareto_fronts front }

file lib/hnco/multiobjective/algorithms/population.cc
function hnco::multiobjective::algorithm::Population::random
  ensures { length bvs = length (old bvs) }
  ensures { forall i. 0 <= i < length bvs -> is_bv bvs[i] /\ length bvs[i] = length (old bvs)[i] }
  ensures { values = old values }
  loop 0
    invariant { length bvs = length (old bvs) /\ forall i. 0 <= i < length bvs -> length bvs[i] = length (old bvs)[i] /\ (i < $k -> is_bv bvs[i]) }

function hnco::multiobjective::algorithm::Population::evaluate
  requires { length bvs = length values }
  ensures { mo_paired function_ bvs values }
  ensures { bvs = old bvs }
  loop 0
    invariant { length values = length bvs /\ forall j. 0 <= j < $k -> values[j] = mvalue_of function_ bvs[j] }

function hnco::multiobjective::algorithm::Population::evaluate_in_parallel
  params fns
  requires { length bvs = length values /\ omp_threads <= length fns }
  requires { forall k x. 0 <= k < length fns -> mvalue_of fns[k] x = mvalue_of fns[0] x }
  ensures { mo_paired fns[0] bvs values }
  ensures { bvs = old bvs }
  loop 0
    invariant { length values = length bvs /\ forall j. 0 <= j < $k -> values[j] = mvalue_of fns[0] bvs[j] }

file lib/hnco/multiobjective/algorithms/nsga2.cc
function hnco::multiobjective::algorithm::Nsga2::finalize
  hide dom is_fronts nondom same_size
  fields _parents _solutions
  requires { length _parents.population_bvs = length _parents.population_values > 0 }
  requires { same_size _parents.population_values }
  ensures { _parents = old _parents }
  ensures { nondom_of _parents.population_bvs _parents.population_values _solutions.population_bvs _solutions.population_values }
  loop 0
    invariant { 0 <= index <= $k /\ length _solutions.population_bvs = length _parents.population_bvs /\ length _solutions.population_values = length _parents.population_bvs }
    invariant { forall s. 0 <= s < index -> exists i. 0 <= i < $k /\ nondom _parents.population_values i /\ _solutions.population_bvs[s] = _parents.population_bvs[i] /\ _solutions.population_values[s] = _parents.population_values[i] }
    invariant { forall i. 0 <= i < $k -> nondom _parents.population_values i -> exists s. 0 <= s < index /\ _solutions.population_bvs[s] = _parents.population_bvs[i] /\ _solutions.population_values[s] = _parents.population_values[i] }
  ghost before 0 { fronts_nondom _parents.population_values fronts; }
  ghost exit {
    assert { forall s. 0 <= s < length _solutions.population_bvs -> exists i. 0 <= i < length _parents.population_bvs /\ nondom _parents.population_values i /\ _solutions.population_bvs[s] = _parents.population_bvs[i] /\ _solutions.population_values[s] = _parents.population_values[i] };
    assert { forall i. 0 <= i < length _parents.population_bvs -> nondom _parents.population_values i -> exists s. 0 <= s < length _solutions.population_bvs /\ _solutions.population_bvs[s] = _parents.population_bvs[i] /\ _solutions.population_values[s] = _parents.population_values[i] }
  }
