(* Mathematics of bit vectors over GF(2). *)
module Bits
  use int.Int
  use int.ComputerDivision
  use seq.Seq
  use cpp.Cpp

  predicate is_bit (b: int) = b = 0 \/ b = 1
  predicate is_bv (x: seq int) = forall i. 0 <= i < length x -> is_bit x[i]
  predicate sbv_valid (s: seq int) (n: int) =
    (forall i. 0 <= i < length s -> 0 <= s[i] < n) /\ forall i j. 0 <= i < j < length s -> s[i] <= s[j]
  predicate is_zero (x: seq int) = forall i. 0 <= i < length x -> x[i] = 0

  function weight (x: seq int) : int = sum x 0 (length x)

  function b2x (a b: int) : int = if a = b then 0 else 1    (* sum of bits mod 2 *)

  (* number of positions in lo..hi-1 where x and y differ *)
  let rec function dist (x y: seq int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else dist x y lo (hi - 1) + (if x[hi-1] <> y[hi-1] then 1 else 0)

  (* number of positions in lo..hi-1 where both are non zero *)
  let rec function common (x y: seq int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else common x y lo (hi - 1) + (if x[hi-1] <> 0 && y[hi-1] <> 0 then 1 else 0)

  function dot (x y: seq int) : int = mod (common x y 0 (length x)) 2

  (* bool sequences *)
  let rec function bweight (x: seq bool) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else bweight x lo (hi - 1) + (if x[hi-1] then 1 else 0)
  let rec function bcommon (x: seq int) (y: seq bool) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else bcommon x y lo (hi - 1) + (if x[hi-1] <> 0 && y[hi-1] then 1 else 0)

  let rec lemma common_bounds (x y: seq int) (lo hi: int)
    requires { lo <= hi } ensures { 0 <= common x y lo hi <= hi - lo } variant { hi - lo }
  = if lo < hi then common_bounds x y lo (hi - 1)

  let rec lemma bcommon_bounds (x: seq int) (y: seq bool) (lo hi: int)
    requires { lo <= hi } ensures { 0 <= bcommon x y lo hi <= hi - lo } variant { hi - lo }
  = if lo < hi then bcommon_bounds x y lo (hi - 1)

  function add (x y: seq int) : seq int = create (length x) (fun i -> b2x x[i] y[i])

  let rec lemma weight_bounds (x: seq int) (lo hi: int)
    requires { 0 <= lo <= hi <= length x } requires { is_bv x }
    ensures { 0 <= sum x lo hi <= hi - lo } variant { hi - lo }
  = if lo < hi then weight_bounds x lo (hi - 1)
end

module BitsValue
  use int.Int
  use int.ComputerDivision
  use seq.Seq
  use cpp.Pow2
  (* value of x[lo..hi-1], x[lo] least significant *)
  let rec function value (x: seq int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else value x lo (hi - 1) + (if x[hi-1] <> 0 then pow2 (hi - 1 - lo) else 0)

  let rec lemma value_bounds (x: seq int) (lo hi: int)
    requires { lo <= hi } ensures { 0 <= value x lo hi < pow2 (hi - lo) } variant { hi - lo }
  = if lo < hi then value_bounds x lo (hi - 1)

  let ghost div_unique (u d h r: int)
    requires { 0 <= u /\ 1 <= d /\ u = d * h + r /\ 0 <= r < d } ensures { div u d = h /\ mod u d = r }
  = assert { u = d * div u d + mod u d /\ 0 <= mod u d < d };
    assert { d * (h - div u d) = mod u d - r };
    assert { h - div u d > 0 -> d * (h - div u d) >= d }; assert { h - div u d < 0 -> d * (h - div u d) <= - d }
  let ghost digit (u p: int)
    requires { 0 <= u /\ 1 <= p } ensures { mod u (2 * p) = mod u p + p * mod (div u p) 2 }
  = let ghost q = div u p in let ghost r = mod u p in let ghost b = mod q 2 in let ghost h = div q 2 in
    assert { u = p * q + r /\ 0 <= r < p }; assert { q = 2 * h + b /\ 0 <= b <= 1 };
    assert { p * q = 2 * p * h + p * b }; assert { 0 <= p * b <= p };
    assert { u = (2 * p) * h + (p * b + r) };
    div_unique u (2 * p) h (p * b + r)

  (* the vector of the binary digits of u *)
  let rec ghost value_digits (x: seq int) (u k: int)
    requires { 0 <= u /\ 0 <= k <= length x /\ forall i. 0 <= i < k -> x[i] = mod (div u (pow2 i)) 2 }
    ensures { value x 0 k = mod u (pow2 k) } ensures { u < pow2 k -> value x 0 k = u } variant { k }
  = if k > 0 then begin value_digits x u (k - 1); digit u (pow2 (k - 1)); value_bounds x 0 k; assert { 0 <= mod (div u (pow2 (k-1))) 2 <= 1 } end
    else assert { mod u 1 = 0 }
end
