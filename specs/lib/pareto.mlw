(* Pareto dominance (minimisation) and non-domination ranks *)
module Pareto
  use int.Int
  use real.RealInfix
  use seq.Seq
  use cpp.Cpp
  use cpp.USet

  predicate dom (a b: seq real) = (forall i. 0 <= i < length a -> a[i] <=. b[i]) /\ (exists i. 0 <= i < length a /\ a[i] <. b[i])
  lemma dom_irreflexive : forall a: seq real. not dom a a
  lemma dom_transitive : forall a b c: seq real. length a = length b -> length b = length c -> dom a b -> dom b c -> dom a c

  predicate same_size (v: seq (seq real)) = forall i j. 0 <= i < length v -> 0 <= j < length v -> length v[i] = length v[j]

  (* the number of a front is the length of the longest chain of dominating values: front 0 holds the non-dominated
     values, and removing the fronts before k leaves front k as the non-dominated values of the rest *)
  predicate is_fronts (v: seq (seq real)) (fr: seq int) = length fr = length v /\
    (forall i. 0 <= i < length v -> fr[i] >= 0) /\
    (forall i j. 0 <= i < length v -> 0 <= j < length v -> dom v[j] v[i] -> fr[j] < fr[i]) /\
    (forall i. 0 <= i < length v -> fr[i] > 0 -> exists j. 0 <= j < length v /\ fr[j] = fr[i] - 1 /\ dom v[j] v[i])

  predicate nondom (v: seq (seq real)) (i: int) = forall j. 0 <= j < length v -> not dom v[j] v[i]
  let ghost fronts_nondom (v: seq (seq real)) (fr: seq int)
    requires { is_fronts v fr }
    ensures { forall i. 0 <= i < length v -> (fr[i] = 0 <-> nondom v i) }
    ensures { length v > 0 -> exists i. 0 <= i < length v /\ nondom v i }
  = assert { forall i. 0 <= i < length v -> fr[i] = 0 -> nondom v i };
    assert { forall i. 0 <= i < length v -> nondom v i -> fr[i] = 0 };
    if length v > 0 then begin
      let ref m = 0 in
      for i = 1 to length v - 1 do
        invariant { 0 <= m < length v /\ forall j. 0 <= j < i -> fr[m] <= fr[j] }
        if fr[i] < fr[m] then m <- i
      done;
      assert { nondom v m }
    end
  predicate inpre (x: int) (s: seq int) (k: int) = exists i. 0 <= i < k /\ s[i] = x
  lemma inpre_all : forall x s. smem x s <-> inpre x s (length s)
  lemma inpre_step : forall x s k. 0 <= k < length s -> (inpre x s (k+1) <-> inpre x s k \/ x = s[k])
  lemma inpre_zero : forall x s. not inpre x s 0
  let lemma smem_snoc (x: int) (s: seq int) (y: int) ensures { smem x (snoc s y) <-> smem x s \/ x = y }
  = assert { (snoc s y)[length s] = y }; assert { forall i. 0 <= i < length s -> (snoc s y)[i] = s[i] }
  lemma smem_empty : forall x: int. not smem x empty_seq
  lemma distinct_snoc : forall s y. sdistinct s -> not smem y s -> sdistinct (snoc s y)
  function mems (s: seq int) : int -> bool = fun x -> smem x s
  predicate inside (s: seq int) (n: int) = forall i. 0 <= i < length s -> 0 <= s[i] < n

  (* among the first k elements of the pool, nd holds those which none of the k dominates, np the others *)
  predicate layer (v: seq (seq real)) (pool: seq int) (k: int) (nd np: seq int) =
    sdistinct nd /\ sdistinct np /\ length nd + length np = k /\
    (forall x. (smem x nd \/ smem x np) <-> inpre x pool k) /\
    (forall x. not (smem x nd /\ smem x np)) /\
    (forall x y. smem x nd -> smem y nd -> not dom v[x] v[y]) /\
    (forall y. smem y np -> exists x. smem x nd /\ dom v[x] v[y])
  predicate pool_ok (v: seq (seq real)) (pool: seq int) = same_size v /\ inside pool (length v) /\ sdistinct pool

  let ghost step_out (v: seq (seq real)) (pool: seq int) (k: int) (nd np np1: seq int)
    requires { pool_ok v pool /\ 0 <= k < length pool /\ layer v pool k nd np }
    requires { exists j. smem j nd /\ dom v[j] v[pool[k]] }
    requires { np1 = snoc np pool[k] }
    ensures { layer v pool (k+1) nd np1 }
  = assert { not inpre pool[k] pool k }

  let ghost cover (v: seq (seq real)) (nd np d nd1: int -> bool) (c: int)
    requires { same_size v /\ 0 <= c < length v }
    requires { forall x. nd x \/ np x -> 0 <= x < length v }
    requires { forall x y. nd x -> nd y -> not dom v[x] v[y] }
    requires { forall y. np y -> exists x. nd x /\ dom v[x] v[y] }
    requires { forall j. nd j -> not dom v[j] v[c] }
    requires { forall x. d x <-> (nd x /\ dom v[c] v[x]) }
    requires { forall x. nd1 x <-> ((nd x /\ not d x) \/ x = c) }
    ensures { forall y. np y \/ d y -> exists x. nd1 x /\ dom v[x] v[y] }
    ensures { forall x y. nd1 x -> nd1 y -> not dom v[x] v[y] }
  = let lemma one (y: int) requires { np y } ensures { exists x. nd1 x /\ dom v[x] v[y] }
    = let x = any int ensures { nd result /\ dom v[result] v[y] } in
      assert { length v[c] = length v[x] = length v[y] };
      if pure { d x } then assert { dom v[c] v[y] by dom v[c] v[x] } else assert { nd1 x } in
    ()
  let ghost step_in (v: seq (seq real)) (pool: seq int) (k: int) (nd np d nd1 np1: seq int)
    requires { pool_ok v pool /\ 0 <= k < length pool /\ layer v pool k nd np }
    requires { forall j. smem j nd -> not dom v[j] v[pool[k]] }
    requires { sdistinct d /\ forall x. smem x d <-> (smem x nd /\ dom v[pool[k]] v[x]) }
    requires { sdistinct nd1 /\ forall x. smem x nd1 <-> ((smem x nd /\ not smem x d) \/ x = pool[k]) }
    requires { sdistinct np1 /\ forall x. smem x np1 <-> (smem x np \/ smem x d) }
    requires { length nd1 = length nd - length d + 1 /\ length np1 = length np + length d }
    ensures { layer v pool (k+1) nd1 np1 }
  = assert { not inpre pool[k] pool k };
    assert { forall x. inpre x pool k -> 0 <= x < length v };
    cover v (mems nd) (mems np) (mems d) (mems nd1) pool[k];
    assert { forall x. mems nd1 x <-> smem x nd1 };
    assert { forall x y. smem x nd1 -> smem y nd1 -> not dom v[x] v[y] };
    assert { forall y. smem y np1 -> (exists x. smem x nd1 /\ dom v[x] v[y]) by (mems np y \/ mems d y) /\ (exists x. mems nd1 x /\ dom v[x] v[y]) }

  let ghost layer_start (v: seq (seq real)) (pool: seq int)
    ensures { layer v pool 0 empty_seq empty_seq }
  = ()
  let ghost layer_facts (v: seq (seq real)) (pool: seq int) (k: int) (nd np: seq int)
    requires { pool_ok v pool /\ 0 <= k < length pool /\ layer v pool k nd np }
    ensures { same_size v /\ inside pool (length v) /\ inside nd (length v) /\ inside np (length v) /\ sdistinct nd /\ sdistinct np /\ not smem pool[k] nd /\ not smem pool[k] np }
    ensures { forall x. smem x nd -> not smem x np }
  = assert { not inpre pool[k] pool k };
    assert { forall i. 0 <= i < length nd -> smem nd[i] nd };
    assert { forall i. 0 <= i < length np -> smem np[i] np }

  let ghost layer_done (v: seq (seq real)) (pool: seq int) (nd np: seq int)
    requires { pool_ok v pool /\ layer v pool (length pool) nd np }
    ensures { pool_ok v np /\ inside nd (length v) /\ length nd + length np = length pool }
    ensures { forall x y. smem x nd -> smem y pool -> not dom v[y] v[x] }
    ensures { length pool > 0 -> length nd > 0 }
  = assert { forall x. smem x pool -> 0 <= x < length v };
    assert { forall i. 0 <= i < length np -> smem np[i] np };
    assert { forall i. 0 <= i < length nd -> smem nd[i] nd };
    assert { forall x y z. smem x nd -> smem y np -> smem z nd -> dom v[z] v[y] -> dom v[y] v[x] -> dom v[z] v[x] };
    if length pool > 0 && length nd = 0 then begin assert { smem np[0] np }; absurd end

  (* the fronts before number f are assigned, and the pool holds the values that remain *)
  predicate peeled_set (v: seq (seq real)) (fr: seq int) (pool: int -> bool) (f: int) = length fr = length v /\ 0 <= f /\
    (forall i. 0 <= i < length v -> not pool i -> 0 <= fr[i] < f) /\
    (forall i j. 0 <= i < length v -> 0 <= j < length v -> not pool i -> not pool j -> dom v[j] v[i] -> fr[j] < fr[i]) /\
    (forall i j. 0 <= i < length v -> not pool i -> pool j -> not dom v[j] v[i]) /\
    (forall i. 0 <= i < length v -> not pool i -> fr[i] > 0 -> exists j. 0 <= j < length v /\ not pool j /\ fr[j] = fr[i] - 1 /\ dom v[j] v[i]) /\
    (f > 0 -> forall i. pool i -> exists j. 0 <= j < length v /\ not pool j /\ fr[j] = f - 1 /\ dom v[j] v[i])
  let ghost peel_set (v: seq (seq real)) (fr fr1: seq int) (pool nd np: int -> bool) (f: int)
    requires { forall x. pool x -> 0 <= x < length v }
    requires { forall x. pool x <-> (nd x \/ np x) }
    requires { forall x. not (nd x /\ np x) }
    requires { forall x y. nd x -> pool y -> not dom v[y] v[x] }
    requires { forall y. np y -> exists x. nd x /\ dom v[x] v[y] }
    requires { peeled_set v fr pool f }
    requires { length fr1 = length fr /\ forall i. 0 <= i < length v -> fr1[i] = if nd i then f else fr[i] }
    ensures { peeled_set v fr1 np (f+1) }
  = assert { forall i. 0 <= i < length v -> not pool i -> fr1[i] = fr[i] };
    assert { forall i. np i -> (exists j. 0 <= j < length v /\ not np j /\ fr1[j] = f /\ dom v[j] v[i]) by (exists j. nd j /\ dom v[j] v[i]) };
    assert { forall i. 0 <= i < length v -> nd i -> fr1[i] > 0 -> (exists j. 0 <= j < length v /\ not np j /\ fr1[j] = fr1[i] - 1 /\ dom v[j] v[i]) by (exists j. 0 <= j < length v /\ not pool j /\ fr[j] = f - 1 /\ dom v[j] v[i]) };
    assert { forall i. 0 <= i < length v -> not pool i -> fr1[i] > 0 -> (exists j. 0 <= j < length v /\ not np j /\ fr1[j] = fr1[i] - 1 /\ dom v[j] v[i]) by (exists j. 0 <= j < length v /\ not pool j /\ fr[j] = fr[i] - 1 /\ dom v[j] v[i]) }
  predicate peeled (v: seq (seq real)) (fr pool: seq int) (f: int) = peeled_set v fr (mems pool) f
  let ghost peel (v: seq (seq real)) (fr pool nd np fr1: seq int) (f: int)
    requires { pool_ok v pool /\ layer v pool (length pool) nd np /\ peeled v fr pool f }
    requires { length fr1 = length fr /\ forall i. 0 <= i < length v -> fr1[i] = if smem i nd then f else fr[i] }
    ensures { peeled v fr1 np (f+1) }
  = layer_done v pool nd np;
    peel_set v fr fr1 (mems pool) (mems nd) (mems np) f
  let ghost peel_start (v: seq (seq real)) (fr pool: seq int)
    requires { length fr = length v = length pool /\ forall i. 0 <= i < length pool -> pool[i] = i }
    requires { same_size v }
    ensures { peeled v fr pool 0 /\ pool_ok v pool }
  = assert { forall i. 0 <= i < length v -> smem i pool }
  let ghost peel_end (v: seq (seq real)) (fr pool: seq int) (f: int)
    requires { length pool = 0 /\ peeled v fr pool f }
    ensures { is_fronts v fr }
  = assert { forall x. not mems pool x }

  (* an objective function with several values *)
  type mfn
  function mvalue_of mfn (seq int) : seq real
  function msize_of mfn : int
  val mfn_evaluate (f: mfn) (x: seq int) : seq real ensures { result = mvalue_of f x }
  val mfn_size (f: mfn) : int ensures { result = msize_of f }
end
