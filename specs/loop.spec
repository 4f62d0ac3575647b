# The main loop of the iterative algorithms, and restarts
use bits.Bits cpp.Perm reals.Flip fn.Fn fn.Ranks fn.Omp fn.Alg
import algorithm
opaque Algorithm alg
extern IterativeAlgorithm::init { _last_iteration <- alg_start () }
extern IterativeAlgorithm::iterate { _last_iteration <- alg_step _last_iteration }
extern IterativeAlgorithm::log { () }
extern Algorithm::maximize { _algorithm <- alg_maximize _algorithm {0} }
extern Algorithm::finalize { _algorithm <- alg_finalize _algorithm }
extern Algorithm::get_solution { alg_solution _algorithm }
define {
  (* any algorithm: iterations since its initialization; initializing may leave the flag in any state;
     no iteration may be asked for after the last one *)
  val ref runs : int
  val alg_start () : bool writes { runs } ensures { runs = 0 } raises { LastEvaluation -> true }
  val alg_step (last: bool) : bool writes { runs } requires { runs >= 0 /\ not last } ensures { runs = old runs + 1 } raises { LastEvaluation -> runs = old runs }
  (* a decorated algorithm: once it has been run, finalizing it makes its solution consistent (the contracts of the algorithms) *)
  predicate a_ok alg fn
  val alg_maximize (a: alg) (fs: seq fn) : alg requires { length fs > 0 } ensures { a_size result = a_size a /\ a_ok result fs[0] } raises { LastEvaluation -> true }
  val alg_finalize (a: alg) : alg ensures { a_size result = a_size a /\ forall f. a_ok a f -> a_ok result f /\ sol_ok f (a_sol result) (a_size a) }
  val alg_solution (a: alg) : solution ensures { result = a_sol a }
}
file lib/hnco/algorithms/iterative-algorithm.cc
function hnco::algorithm::IterativeAlgorithm::loop
  fields _iteration _last_iteration _num_iterations _something_to_log
  ensures { _num_iterations = old _num_iterations }
  ensures { _num_iterations > 0 -> 0 <= runs <= _num_iterations /\ (runs = _num_iterations \/ _last_iteration) }
  ensures { _num_iterations <= 0 -> _last_iteration }
  raises { LastEvaluation -> true }
  diverges
  loop 0
    invariant { 0 <= _iteration <= _num_iterations /\ runs = _iteration /\ _num_iterations = old _num_iterations }
  loop 1
    invariant { runs = _iteration >= 0 /\ _num_iterations = old _num_iterations }
file lib/hnco/algorithms/decorators/restart.cc
function hnco::algorithm::Restart::finalize
  fields _function _solution _algorithm _first_iteration
  requires { a_ok _algorithm _function /\ (not _first_iteration -> sol_ok _function _solution (a_size _algorithm)) }
  ensures { sol_ok _function _solution (a_size _algorithm) /\ _function = old _function /\ _first_iteration = old _first_iteration /\ a_size _algorithm = a_size (old _algorithm) }
  ensures { a_ok _algorithm _function /\ _solution.ssnd >=. (a_sol _algorithm).ssnd /\ (not _first_iteration -> _solution.ssnd >=. (old _solution).ssnd) }
function hnco::algorithm::Restart::iterate
  fields _functions _function _solution _algorithm _first_iteration
  requires { length _functions > 0 /\ _function = _functions[0] /\ (not _first_iteration -> sol_ok _function _solution (a_size _algorithm)) }
  ensures { sol_ok _function _solution (a_size _algorithm) /\ _function = old _function /\ _functions = old _functions /\ not _first_iteration /\ a_size _algorithm = a_size (old _algorithm) }
  ensures { _solution.ssnd >=. (a_sol _algorithm).ssnd /\ (old (not _first_iteration) -> _solution.ssnd >=. (old _solution).ssnd) }
  raises { LastEvaluation -> _solution = old _solution /\ _first_iteration = old _first_iteration /\ _function = old _function /\ a_size _algorithm = a_size (old _algorithm) }
function hnco::algorithm::Restart::maximize
  fields _functions _function _solution _algorithm _first_iteration _num_iterations
  requires { length functions > 0 }
  ensures { sol_ok functions[0] _solution (a_size _algorithm) /\ not _first_iteration /\ _function = functions[0] /\ _num_iterations > 0 }
  raises { LastEvaluation -> not _first_iteration -> sol_ok functions[0] _solution (a_size _algorithm) }
  diverges
  loop 0
    invariant { 0 <= $k <= _num_iterations /\ _num_iterations = old _num_iterations /\ length _functions > 0 /\ _function = _functions[0] = functions[0] /\ (_first_iteration <-> $k = 0) /\ (not _first_iteration -> sol_ok _function _solution (a_size _algorithm)) }
  loop 1
    invariant { length _functions > 0 /\ _function = _functions[0] = functions[0] /\ (not _first_iteration -> sol_ok _function _solution (a_size _algorithm)) }
