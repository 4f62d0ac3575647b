(* Decoding of bit vectors into numbers *)
module Repr
  use int.Int
  use int.MinMax
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use cpp.Cpp
  use cpp.Pow2
  use bits.BitsValue

  let rec lemma value_agree (x y: seq int) (lo hi: int)
    requires { forall i. lo <= i < hi -> x[i] = y[i] } ensures { value x lo hi = value y lo hi } variant { hi - lo }
  = if lo < hi then value_agree x y lo (hi - 1)

  (* every number below 2^n is the value of n bits *)
  let rec ghost encode (u n: int) : seq int
    requires { 0 <= n /\ 0 <= u < pow2 n }
    ensures { length result = n /\ (forall i. 0 <= i < n -> result[i] = 0 \/ result[i] = 1) /\ value result 0 n = u }
    variant { n }
  = if n = 0 then empty
    else if u < pow2 (n - 1) then begin
      let x = encode u (n - 1) in value_agree x (snoc x 0) 0 (n - 1); snoc x 0 end
    else begin
      let x = encode (u - pow2 (n - 1)) (n - 1) in value_agree x (snoc x 1) 0 (n - 1); snoc x 1 end

  (* code of element i of a permutation whose codes have es bits *)
  function code (bv: seq int) (start es i: int) : int = value bv (start + i * es) (start + (i + 1) * es)
  let ghost mul_mono (a b c: int) requires { a <= b /\ 0 <= c } ensures { a * c <= b * c } = assert { 0 <= (b - a) * c }
  (* codes that rank the elements as p does decode into p *)
  let rec ghost rank_onto (p q v: seq int) (k: int)
    requires { length p = length q = length v /\ 0 <= k <= length p }
    requires { forall i. 0 <= i < length p -> 0 <= p[i] < length p /\ 0 <= q[i] < length p }
    requires { forall i. 0 <= i < length p -> v[p[i]] = i }
    requires { forall j. 0 <= j < length p -> exists i. 0 <= i < length p /\ p[i] = j }
    requires { forall j. 0 <= j < length p -> exists i. 0 <= i < length p /\ q[i] = j }
    requires { forall i j. 0 <= i < j < length p -> q[i] <> q[j] }
    requires { forall i j. 0 <= i < j < length q -> v[q[i]] <= v[q[j]] }
    ensures { forall i. 0 <= i < k -> q[i] = p[i] }
    variant { k }
  = if k > 0 then begin
      rank_onto p q v (k - 1);
      (* where p[k-1] is in q *)
      let m = any int ensures { 0 <= result < length p /\ q[result] = p[k-1] } in
      assert { m >= k - 1 by not (m < k - 1 /\ p[m] = p[k-1] /\ v[p[m]] = m) };
      assert { v[q[m]] = k - 1 };
      let l = any int ensures { 0 <= result < length p /\ p[result] = q[k-1] } in
      assert { v[q[k-1]] = l };
      assert { l <= k - 1 };
      if l < k - 1 then begin assert { q[l] = p[l] = q[k-1] }; absurd end
    end
  (* number of bits needed to write d *)
  predicate bitlen (d e: int) = 1 <= e /\ pow2 (e - 1) <= d < pow2 e

  let lemma bitlen_unique (d e f: int)
    requires { bitlen d e /\ bitlen d f } ensures { e = f }
  = if e < f then pow2_mono e (f - 1) else if f < e then pow2_mono f (e - 1)
  let ghost shift_fits (v s e: int)
    requires { 0 <= v < pow2 s /\ 0 <= s <= e }
    ensures { 0 <= v * pow2 (e - s) < pow2 e }
  = pow2_add s (e - s);
    assert { v * pow2 (e - s) <= (pow2 s - 1) * pow2 (e - s) }
  function int_decode (lo hi u: int) : int = min hi (lo + u)

  (* the exact integer representation reaches every value of its interval *)
  let ghost int_onto (lo hi e v: int)
    requires { lo < hi /\ bitlen (hi - lo) e /\ lo <= v <= hi }
    ensures { exists x. length x = e /\ (forall i. 0 <= i < e -> x[i] = 0 \/ x[i] = 1) /\ int_decode lo hi (value x 0 e) = v }
  = let x = encode (v - lo) e in
    assert { int_decode lo hi (value x 0 e) = v }

  (* halves *)
  let rec ghost function half (k: int) : real requires { 0 <= k } variant { k } ensures { result >. 0.0 }
  = if k = 0 then 1.0 else half (k - 1) /. 2.0
  (* binary fraction 0.x[lo]x[lo+1]..., hi - lo digits *)
  let rec ghost function frac (x: seq int) (lo hi: int) : real variant { hi - lo }
    ensures { lo <= hi -> 0.0 <=. result <=. 1.0 -. half (hi - lo) }
  = if hi <= lo then 0.0 else frac x lo (hi - 1) +. (if x[hi-1] <> 0 then half (hi - lo) else 0.0)
  let rec lemma frac_agree (x y: seq int) (lo hi: int)
    requires { forall i. lo <= i < hi -> x[i] = y[i] } ensures { frac x lo hi = frac y lo hi } variant { hi - lo }
  = if lo < hi then frac_agree x y lo (hi - 1)
  let rec ghost div2 (u: int) : int requires { 0 <= u } ensures { 2 * result <= u <= 2 * result + 1 } variant { u }
  = if u < 2 then 0 else 1 + div2 (u - 2)
  (* every multiple of 2^-n in [0,1) is the fraction of n bits *)
  let rec ghost encode_frac (u n: int) : seq int
    requires { 0 <= n /\ 0 <= u < pow2 n }
    ensures { length result = n /\ (forall i. 0 <= i < n -> result[i] = 0 \/ result[i] = 1) /\ frac result 0 n = from_int u *. half n }
    variant { n }
  = if n = 0 then empty
    else begin
      let h = div2 u in
      let b = u - 2 * h in
      let x = encode_frac h (n - 1) in
      frac_agree x (snoc x b) 0 (n - 1);
      assert { from_int u = 2.0 *. from_int h +. from_int b };
      assert { half (n - 1) = 2.0 *. half n };
      assert { b = 0 \/ b = 1 };
      snoc x b
    end
end
