(* A decorated or evaluated function: the pointer to an abstract hnco::function::Function.
   Assumption: it is deterministic (evaluating it twice at a point gives the same value). *)
module Fn
  use int.Int
  use real.RealInfix
  use seq.Seq
  use cpp.Cpp
  use reals.Flip

  type fn
  function value_of fn (seq int) : real
  function incr_of fn (seq int) real (seq int) : real
  function size_of fn : int
  function has_max fn : bool
  function max_of fn : real
  function has_incr fn : bool
  (* what being incrementally evaluable means *)
  predicate incremental (f: fn) = forall x s. ascending s (length x) ->
    incr_of f x (value_of f x) s = value_of f (flipn x s (length s))
  val fn_evaluate (f: fn) (x: seq int) : real ensures { result = value_of f x }
  val fn_evaluate_safely (f: fn) (x: seq int) : real ensures { result = value_of f x }
  val fn_incr (f: fn) (x: seq int) (v: real) (s: seq int) : real ensures { result = incr_of f x v s }
  val fn_update (f: fn) (x: seq int) (v: real) : unit
  (* evaluations of a function under a budget: any of them may be refused *)
  val fn_try (f: fn) (x: seq int) : real ensures { result = value_of f x } raises { LastEvaluation -> true }
  val fn_try_incr (f: fn) (x: seq int) (v: real) (s: seq int) : real ensures { result = incr_of f x v s } raises { LastEvaluation -> true }
  val fn_try_update (f: fn) (x: seq int) (v: real) : unit raises { LastEvaluation -> true }
  val fn_size (f: fn) : int ensures { result = size_of f } ensures { 0 <= result }
  val fn_has_max (f: fn) : bool ensures { result = has_max f }
  val fn_max (f: fn) : real ensures { result = max_of f }
  val fn_has_incr (f: fn) : bool ensures { result = has_incr f }
end
module Omp
  (* OpenMP: a thread of a parallel region has an index below the number of threads of the region *)
  use int.Int
  val constant omp_threads : int
  axiom omp_threads_pos : 0 < omp_threads
  (* the thread that runs the current iteration: any of them *)
  val ref omp_id : int
  val omp_begin () : unit writes { omp_id } ensures { 0 <= omp_id < omp_threads }
  val omp_thread () : int ensures { 0 <= result < omp_threads /\ result = omp_id }
end
module History
  use int.Int
  use real.RealInfix
  use seq.Seq

  (* after the evaluations whose values are h, the best value is best and call number num was the first to reach it *)
  predicate tracked (h: seq real) (num: int) (best: real) =
    1 <= num <= length h /\ h[num-1] = best /\ (forall i. 0 <= i < length h -> h[i] <=. best) /\ (forall i. 0 <= i < num - 1 -> h[i] <. best)
  let lemma step (h: seq real) (num: int) (best v: real)
    requires { length h = 0 \/ tracked h num best }
    ensures { length h > 0 -> v <=. best -> tracked (snoc h v) num best }
    ensures { length h = 0 \/ v >. best -> tracked (snoc h v) (length h + 1) v }
  = ()
end
module Ranks
  use int.Int
  use real.RealInfix
  use seq.Seq
  use cpp.Perm
  use cpp.PermOnto
  (* the first k ranks are occupied by the k best, in order *)
  predicate ranked (v: seq real) (p: seq int) (k: int) = forall i j. 0 <= i < k -> i <= j < length p -> v[p[i]] >=. v[p[j]]
  let ghost top (v: seq real) (p: seq int)
    requires { is_perm p /\ length v = length p > 0 /\ ranked v p (length p) }
    ensures { forall i. 0 <= i < length v -> v[i] <=. v[p[0]] }
  = let lemma one (i: int) requires { 0 <= i < length v } ensures { v[i] <=. v[p[0]] }
    = perm_onto p; let ghost j = any int ensures { 0 <= result < length p /\ p[result] = i } in assert { v[p[j]] <=. v[p[0]] } in ()
end
module Alg
  use int.Int
  use seq.Seq
  use cpp.Cpp
  use Fn

  (* an algorithm to which another one holds a pointer *)
  type alg
  function a_size alg : int
  function a_sol alg : solution
end
