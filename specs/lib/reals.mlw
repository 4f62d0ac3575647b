(* Finite sums and products of reals. *)
module RSum
  use int.Int
  use real.RealInfix

  let rec ghost function rsum (f: int -> real) (lo hi: int) : real
    variant { hi - lo }
  = if hi <= lo then 0.0 else rsum f lo (hi - 1) +. f (hi - 1)

  let rec ghost rsum_ext (f g: int -> real) (lo hi: int)
    requires { forall i. lo <= i < hi -> f i = g i }
    ensures { rsum f lo hi = rsum g lo hi }
    variant { hi - lo }
  = if lo < hi then rsum_ext f g lo (hi - 1)

  (* changing the term at p changes the sum by the difference *)
  let rec ghost rsum_upd (f g: int -> real) (lo hi p: int)
    requires { lo <= p < hi /\ forall i. lo <= i < hi -> i <> p -> f i = g i }
    ensures { rsum g lo hi = rsum f lo hi +. g p -. f p }
    variant { hi - lo }
  = if p = hi - 1 then rsum_ext f g lo (hi - 1) else rsum_upd f g lo (hi - 1) p

  let rec ghost rsum_add (f g h: int -> real) (lo hi: int)
    requires { forall i. lo <= i < hi -> h i = f i +. g i }
    ensures { rsum h lo hi = rsum f lo hi +. rsum g lo hi }
    variant { hi - lo }
  = if lo < hi then rsum_add f g h lo (hi - 1)

  let rec ghost rsum_le (f g: int -> real) (lo hi: int)
    requires { forall i. lo <= i < hi -> f i <=. g i }
    ensures { rsum f lo hi <=. rsum g lo hi }
    variant { hi - lo }
  = if lo < hi then rsum_le f g lo (hi - 1)

  let rec ghost rsum_zero (f: int -> real) (lo hi: int)
    requires { forall i. lo <= i < hi -> f i = 0.0 } ensures { rsum f lo hi = 0.0 } variant { hi - lo }
  = if lo < hi then rsum_zero f lo (hi - 1)

  let rec ghost rsum_shift (f g: int -> real) (lo hi d: int)
    requires { forall i. lo <= i < hi -> g (i + d) = f i }
    ensures { rsum g (lo + d) (hi + d) = rsum f lo hi }
    variant { hi - lo }
  = if lo < hi then rsum_shift f g lo (hi - 1) d

  let rec ghost rsum_split (f: int -> real) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { rsum f lo hi = rsum f lo mid +. rsum f mid hi }
    variant { hi - mid }
  = if mid < hi then rsum_split f lo mid (hi - 1)

  let rec ghost function rprod (f: int -> real) (lo hi: int) : real
    variant { hi - lo }
  = if hi <= lo then 1.0 else rprod f lo (hi - 1) *. f (hi - 1)
end

module Flip
  use int.Int
  use real.RealInfix
  use seq.Seq
  use RSum

  predicate ascending (s: seq int) (n: int) = (forall i j. 0 <= i < j < length s -> s[i] < s[j]) /\ forall i. 0 <= i < length s -> 0 <= s[i] < n
  predicate among (s: seq int) (k v: int) = exists i. 0 <= i < k /\ s[i] = v
  (* y is x flipped at the first k positions of s *)
  predicate flipped (x s y: seq int) (k: int) = length y = length x /\
    forall i. 0 <= i < length x -> y[i] = if among s k i then 1 - x[i] else x[i]
  let rec ghost function flipn (x s: seq int) (k: int) : seq int
    requires { forall i. 0 <= i < k -> 0 <= s[i] < length x }
    ensures { length result = length x } variant { k }
  = if k <= 0 then x else let y = flipn x s (k-1) in y[s[k-1] <- 1 - y[s[k-1]]]
  let rec ghost flipn_is (x s: seq int) (k: int)
    requires { 0 <= k <= length s /\ ascending s (length x) } ensures { flipped x s (flipn x s k) k } variant { k }
  = if k > 0 then begin flipn_is x s (k-1);
      assert { not among s (k-1) s[k-1] };
      let lemma one (i: int) requires { 0 <= i < length x } ensures { (flipn x s k)[i] = if among s k i then 1 - x[i] else x[i] }
      = assert { among s k i <-> (among s (k-1) i \/ s[k-1] = i) } in () end
  let ghost flipn_unique (x s y: seq int) requires { ascending s (length x) /\ flipped x s y (length s) } ensures { y = flipn x s (length s) }
  = flipn_is x s (length s); assert { y == flipn x s (length s) }
  (* the sum over a list of positions is the sum over all marked positions *)
  let rec ghost sparse_sum (s: seq int) (g: int -> real) (n k: int)
    requires { 0 <= k <= length s /\ ascending s n }
    ensures { rsum (fun j -> g s[j]) 0 k = rsum (fun i -> if among s k i then g i else 0.0) 0 n } variant { k }
  = if k > 0 then begin sparse_sum s g n (k-1);
      assert { not among s (k-1) s[k-1] };
      assert { forall i. among s k i <-> (among s (k-1) i \/ s[k-1] = i) };
      rsum_upd (fun i -> if among s (k-1) i then g i else 0.0) (fun i -> if among s k i then g i else 0.0) 0 n s[k-1] end
    else rsum_zero (fun i -> if among s k i then g i else 0.0) 0 n
end

module Linear
  use int.Int
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use cpp.Cpp
  use bits.Bits
  use RSum
  use Flip
  function sgn (b: int) (w: real) : real = if b = 0 then w else -. w
  function linterm (w: seq real) (x: seq int) (i: int) : real = if x[i] <> 0 then w[i] else 0.0
  function lin (w: seq real) (x: seq int) : real = rsum (linterm w x) 0 (length x)
  function spinterm (w: seq real) (x: seq int) (i: int) : real = sgn x[i] w[i]
  function spins (w: seq real) (x: seq int) : real = rsum (spinterm w x) 0 (length x)
  let ghost lin_flip (w: seq real) (x: seq int) (p: int) requires { 0 <= p < length x /\ is_bit x[p] }
    ensures { lin w x[p <- 1 - x[p]] = lin w x +. (if x[p] <> 0 then -. w[p] else w[p]) }
  = rsum_upd (linterm w x) (linterm w x[p <- 1 - x[p]]) 0 (length x) p
  let ghost spins_flip (w: seq real) (x: seq int) (p: int) requires { 0 <= p < length x /\ is_bit x[p] }
    ensures { spins w x[p <- 1 - x[p]] = spins w x +. (if x[p] <> 0 then 2.0 *. w[p] else -. 2.0 *. w[p]) }
  = rsum_upd (spinterm w x) (spinterm w x[p <- 1 - x[p]]) 0 (length x) p
  let rec ghost sum_flip (x: seq int) (p n: int) requires { 0 <= p < n <= length x /\ is_bit x[p] }
    ensures { sum x[p <- 1 - x[p]] 0 n = sum x 0 n + (if x[p] <> 0 then -1 else 1) } variant { n }
  = if p = n - 1 then sum_ext x x[p <- 1 - x[p]] 0 (n-1) else sum_flip x p (n-1)
  let ghost next_flip (x s: seq int) (k: int) requires { 0 <= k < length s /\ ascending s (length x) }
    ensures { (flipn x s k)[s[k]] = x[s[k]] /\ flipn x s (k+1) = (flipn x s k)[s[k] <- 1 - x[s[k]]] }
  = flipn_is x s k; assert { not among s k s[k] }
end

module Blocks
  use int.Int
  use cpp.Pow2
  let rec ghost pow2_split (d i: int) requires { 0 <= i <= d } ensures { pow2 (d-i) * pow2 i = pow2 d } variant { i }
  = if i > 0 then begin pow2_split d (i-1);
      let a = pow2 (d-i) in let b = pow2 (i-1) in assert { pow2 (d-i+1) = 2 * a /\ pow2 i = 2 * b /\ (2 * a) * b = a * (2 * b) } end
  let ghost block_in (j b s n: int) requires { 0 <= j < b /\ 0 <= s /\ b * s = n } ensures { 0 <= j * s /\ (j+1) * s <= n /\ (j+1) * s = j * s + s } = assert { (b - j - 1) * s >= 0 }
end

module Hiff
  use int.Int
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use RSum
  use export Blocks
  use cpp.Pow2
  predicate uniform (x: seq int) (a l: int) = forall k. a <= k < a + l -> x[k] = x[a]
  predicate unib (x: seq int) (i j: int) = uniform x (j * pow2 i) (pow2 i)
  function hblk (x: seq int) (i j: int) : real = if unib x i j then from_int (pow2 i) else 0.0
  function hlevel (x: seq int) (d i: int) : real = rsum (hblk x i) 0 (pow2 (d-i))
  predicate mixed (x: seq int) (d i: int) = forall j. 0 <= j < pow2 (d-i) -> not unib x i j
  let ghost half (x: seq int) (a l j: int) requires { 0 <= l /\ not uniform x ((2*j) * l) l } ensures { not uniform x (j * (2*l)) (2*l) }
  = assert { (2*j) * l = j * (2*l) }; assert { uniform x (j * (2*l)) (2*l) -> uniform x (j*(2*l)) l }
  let rec ghost mixed_up (x: seq int) (d i l: int) requires { 0 <= i <= l <= d /\ mixed x d i } ensures { mixed x d l } variant { l }
  = if i < l then begin mixed_up x d i (l-1);
      assert { pow2 l = 2 * pow2 (l-1) /\ pow2 (d-(l-1)) = 2 * pow2 (d-l) };
      let lemma one (j: int) requires { 0 <= j < pow2 (d-l) } ensures { not unib x l j }
      = assert { not unib x (l-1) (2*j) }; half x 0 (pow2 (l-1)) j in () end
  let rec ghost mixed_sum (x: seq int) (d i l: int) requires { 0 <= i <= l <= d+1 /\ (i <= d -> mixed x d i) } ensures { rsum (hlevel x d) i l = 0.0 } variant { l }
  = if i < l then begin mixed_sum x d i (l-1); mixed_up x d i (l-1);
      assert { mixed x d (l-1) }; assert { forall j. 0 <= j < pow2 (d-(l-1)) -> hblk x (l-1) j = 0.0 };
      rsum_zero (hblk x (l-1)) 0 (pow2 (d-(l-1)));
      assert { hlevel x d (l-1) = 0.0 } end
end

module PairSgn
  use int.Int
  use real.RealInfix
  (* the product of two spins times w *)
  function pair_sgn (a b: int) (w: real) : real = if a = b then w else -. w
end
