(* sums of pair interactions along a cyclic successor relation, and how they change under flips *)
module Bonds
  use int.Int
  use real.RealInfix
  use seq.Seq
  use cpp.Cpp
  use bits.Bits
  use reals.RSum
  use reals.Flip
  use reals.PairSgn

  function zero_ (i: int) : real = 0.0
  let ghost rsum_single (f: int -> real) (lo hi p: int)
    requires { lo <= p < hi /\ forall i. lo <= i < hi -> i <> p -> f i = 0.0 } ensures { rsum f lo hi = f p }
  = rsum_zero zero_ lo hi; rsum_upd zero_ f lo hi p

  function row (f: int -> int -> real) (m i: int) : real = rsum (f i) 0 m
  function swap (f: int -> int -> real) (j i: int) : real = f i j
  let rec ghost fubini (f: int -> int -> real) (n m: int)
    requires { 0 <= n /\ 0 <= m } ensures { rsum (row f m) 0 n = rsum (row (swap f) n) 0 m } variant { n }
  = if n = 0 then rsum_zero (row (swap f) 0) 0 m
    else begin fubini f (n-1) m;
      let lemma one (j: int) requires { 0 <= j < m } ensures { row (swap f) n j = row (swap f) (n-1) j +. f (n-1) j }
      = assert { swap f j (n-1) = f (n-1) j } in ();
      rsum_add (row (swap f) (n-1)) (f (n-1)) (row (swap f) n) 0 m end

  predicate inverse (nxt prv: int -> int) (n: int) = forall i. 0 <= i < n -> 0 <= nxt i < n /\ 0 <= prv i < n /\ prv (nxt i) = i /\ nxt (prv i) = i
  function comp (g: int -> real) (prv: int -> int) (i: int) : real = g (prv i)
  function dirac (g: int -> real) (prv: int -> int) (i j: int) : real = if prv i = j then g j else 0.0
  let ghost reindex (g: int -> real) (nxt prv: int -> int) (n: int)
    requires { 0 <= n /\ inverse nxt prv n } ensures { rsum (comp g prv) 0 n = rsum g 0 n }
  = fubini (dirac g prv) n n;
    let lemma one (i: int) requires { 0 <= i < n } ensures { row (dirac g prv) n i = comp g prv i }
    = rsum_single (dirac g prv i) 0 n (prv i) in
    let lemma two (j: int) requires { 0 <= j < n } ensures { row (swap (dirac g prv)) n j = g j }
    = rsum_single (swap (dirac g prv) j) 0 n (nxt j) in
    rsum_ext (row (dirac g prv) n) (comp g prv) 0 n;
    rsum_ext (row (swap (dirac g prv)) n) g 0 n

  function bd (x: seq int) (nxt: int -> int) (w: int -> real) (i: int) : real = pair_sgn x[i] x[nxt i] (w i)
  (* what flipping the bits listed in s changes in the interaction of i with its right, respectively left, neighbor *)
  function rt (x: seq int) (nxt: int -> int) (w: int -> real) (s: seq int) (i: int) : real = if among s (length s) (nxt i) then 0.0 else -. 2.0 *. bd x nxt w i
  function lt (x: seq int) (nxt prv: int -> int) (w: int -> real) (s: seq int) (i: int) : real = if among s (length s) (prv i) then 0.0 else -. 2.0 *. bd x nxt w (prv i)
  function rat (x: seq int) (nxt: int -> int) (w: int -> real) (s: seq int) (j: int) : real = rt x nxt w s s[j]
  function lat (x: seq int) (nxt prv: int -> int) (w: int -> real) (s: seq int) (j: int) : real = lt x nxt prv w s s[j]
  function only (g: int -> real) (s: seq int) (k i: int) : real = if among s k i then g i else 0.0
  function listed (g: int -> real) (s: seq int) (j: int) : real = g s[j]
  let ghost sparse (g: int -> real) (s: seq int) (n: int) requires { ascending s n }
    ensures { rsum (listed g s) 0 (length s) = rsum (only g s (length s)) 0 n }
  = sparse_sum s g n (length s); rsum_ext (fun j -> g s[j]) (listed g s) 0 (length s);
    rsum_ext (fun i -> if among s (length s) i then g i else 0.0) (only g s (length s)) 0 n
  function gt (x: seq int) (nxt: int -> int) (w: int -> real) (s: seq int) (i: int) : real =
    if among s (length s) (nxt i) /\ not among s (length s) i then -. 2.0 *. bd x nxt w i else 0.0
  function plus2 (f g: int -> real) (i: int) : real = f i +. g i
  let ghost bonds_flip (x y: seq int) (nxt prv: int -> int) (w: int -> real) (s: seq int)
    requires { is_bv x /\ ascending s (length x) /\ flipped x s y (length s) /\ inverse nxt prv (length x) }
    ensures { rsum (bd y nxt w) 0 (length x) = rsum (bd x nxt w) 0 (length x) +. rsum (rat x nxt w s) 0 (length s) +. rsum (lat x nxt prv w s) 0 (length s) }
  = let n = length x in
    sparse (rt x nxt w s) s n; rsum_ext (listed (rt x nxt w s) s) (rat x nxt w s) 0 (length s);
    assert { [@a] rsum (rat x nxt w s) 0 (length s) = rsum (only (rt x nxt w s) s (length s)) 0 n };
    sparse (lt x nxt prv w s) s n; rsum_ext (listed (lt x nxt prv w s) s) (lat x nxt prv w s) 0 (length s);
    assert { [@a] rsum (lat x nxt prv w s) 0 (length s) = rsum (only (lt x nxt prv w s) s (length s)) 0 n };
    let lemma left (i: int) requires { 0 <= i < n } ensures { only (lt x nxt prv w s) s (length s) i = comp (gt x nxt w s) prv i }
    = assert { nxt (prv i) = i } in
    rsum_ext (only (lt x nxt prv w s) s (length s)) (comp (gt x nxt w s) prv) 0 n;
    reindex (gt x nxt w s) nxt prv n;
    assert { rsum (lat x nxt prv w s) 0 (length s) = rsum (gt x nxt w s) 0 n };
    rsum_add (only (rt x nxt w s) s (length s)) (gt x nxt w s) (plus2 (only (rt x nxt w s) s (length s)) (gt x nxt w s)) 0 n;
    let lemma bond (i: int) requires { 0 <= i < n } ensures { bd y nxt w i = bd x nxt w i +. plus2 (only (rt x nxt w s) s (length s)) (gt x nxt w s) i }
    = assert { 0 <= nxt i < n };
      assert { is_bit x[i] /\ is_bit x[nxt i] } in
    rsum_add (bd x nxt w) (plus2 (only (rt x nxt w s) s (length s)) (gt x nxt w s)) (bd y nxt w) 0 n
end
