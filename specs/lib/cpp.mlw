(* Semantics given to the C++ constructs the extractor emits.
   Every `val` without a body here is an assumption about C++ or libstdc++
   (listed by the evidence scan). *)

module Sum
  use int.Int
  use seq.Seq

  (* s[lo] + ... + s[hi-1] *)
  let rec function sum (s: seq int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else sum s lo (hi - 1) + s[hi - 1]

  let rec ghost sum_ext (s t: seq int) (lo hi: int)
    requires { forall i. lo <= i < hi -> s[i] = t[i] }
    ensures { sum s lo hi = sum t lo hi }
    variant { hi - lo }
  = if lo < hi then sum_ext s t lo (hi - 1)

  let rec ghost sum_split (s: seq int) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { sum s lo hi = sum s lo mid + sum s mid hi }
    variant { hi - mid }
  = if mid < hi then sum_split s lo mid (hi - 1)

  let rec function count (s: seq int) (v: int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else count s v lo (hi - 1) + (if s[hi - 1] = v then 1 else 0)

  let rec lemma count_bounds (s: seq int) (v lo hi: int)
    requires { lo <= hi }
    ensures { 0 <= count s v lo hi <= hi - lo }
    variant { hi - lo }
  = if lo < hi then count_bounds s v lo (hi - 1)

  let rec ghost count_ext (s t: seq int) (v lo hi: int)
    requires { forall i. lo <= i < hi -> s[i] = t[i] }
    ensures { count s v lo hi = count t v lo hi }
    variant { hi - lo }
  = if lo < hi then count_ext s t v lo (hi - 1)
end

module Pow2
  use int.Int
  use int.EuclideanDivision as E
  use int.ComputerDivision as C

  let rec function pow2 (n: int) : int
    variant { n }
  = if n <= 0 then 1 else 2 * pow2 (n - 1)

  let rec lemma pow2_pos (n: int)
    ensures { pow2 n >= 1 }
    variant { n }
  = if n > 0 then pow2_pos (n - 1)

  let rec ghost pow2_mono (m n: int)
    requires { m <= n }
    ensures { pow2 m <= pow2 n }
    variant { n - m }
  = if m < n then pow2_mono m (n - 1)

  let rec ghost pow2_smono (m n: int)
    requires { 0 <= m < n }
    ensures { pow2 m < pow2 n }
    variant { n - m }
  = if m < n - 1 then pow2_smono m (n - 1)

  let ghost shl1 (k: int)
    requires { 0 <= k < 64 }
    ensures { C.mod (pow2 k * pow2 1) (pow2 64) = if k = 63 then 0 else pow2 (k + 1) }
    ensures { pow2 k < pow2 64 }
  = if k < 63 then pow2_smono (k + 1) 64;
    pow2_smono k 64;
    assert { pow2 1 = 2 };
    assert { pow2 k * pow2 1 = pow2 (k + 1) }

  let rec ghost pow2_add (m n: int)
    requires { m >= 0 /\ n >= 0 }
    ensures { pow2 (m + n) = pow2 m * pow2 n }
    variant { n }
  = if n > 0 then pow2_add m (n - 1)

end

module Bitwise
  use int.Int
  use int.ComputerDivision
  use Pow2

  (* C++ bitwise operators on non-negative values: uninterpreted except for the
     facts below, which are the definition of the operators on the operand
     shapes the library uses. *)
  function bxor (a b: int) : int
  function bor (a b: int) : int
  function band (a b: int) : int

  axiom bxor_bits: forall a b: int. 0 <= a <= 1 -> 0 <= b <= 1 ->
    bxor a b = (if a = b then 0 else 1)
  axiom bxor_one: forall a: int. 0 <= a <= 1 -> bxor a 1 = 1 - a
  axiom bor_bits: forall a b: int. 0 <= a <= 1 -> 0 <= b <= 1 ->
    bor a b = (if a = 0 /\ b = 0 then 0 else 1)
  axiom band_bits: forall a b: int. 0 <= a <= 1 -> 0 <= b <= 1 ->
    band a b = (if a = 1 /\ b = 1 then 1 else 0)
  axiom bor_pow2: forall a k: int. 0 <= k -> 0 <= a < pow2 k -> bor a (pow2 k) = a + pow2 k
  axiom band_pow2: forall u k: int. 0 <= u -> 0 <= k ->
    band u (pow2 k) = (if mod (div u (pow2 k)) 2 = 1 then pow2 k else 0)
end

module Permut
  use int.Int
  use seq.Seq
  use Sum

  (* rearrangement: exists a bijection on positions; stated for any element type *)
  predicate is_inj_map (p: int -> int) (n: int) =
    (forall i. 0 <= i < n -> 0 <= p i < n) /\
    (forall i j. 0 <= i < n -> 0 <= j < n -> i <> j -> p i <> p j)

  predicate permut (a b: seq 'a) =
    length a = length b /\
    exists p: int -> int. is_inj_map p (length a) /\ forall i. 0 <= i < length a -> b[i] = a[p i]

  (* only positions lo..hi-1 are rearranged, among themselves *)
  predicate permut_sub (a b: seq 'a) (lo hi: int) =
    length a = length b /\
    (forall i. 0 <= i < length a -> (i < lo \/ hi <= i) -> b[i] = a[i]) /\
    exists p: int -> int.
      (forall i. lo <= i < hi -> lo <= p i < hi /\ b[i] = a[p i]) /\
      (forall i j. lo <= i < hi -> lo <= j < hi -> i <> j -> p i <> p j) /\
      (* and back: every element of a is still there *)
      exists q: int -> int. forall i. lo <= i < hi -> lo <= q i < hi /\ p (q i) = i /\ q (p i) = i
end

module Cpp
  use int.Int
  use int.MinMax
  use int.Abs
  use int.ComputerDivision
  use real.RealInfix
  use real.FromInt
  use real.Truncate
  use real.Abs as RAbs
  use seq.Seq
  use export Sum

  type pair 'a 'b = { pfst: 'a; psnd: 'b }
  (* hnco::algorithm::solution_t *)
  type solution = { sfst: seq int; ssnd: real }

  (* associative containers: std::map, std::unordered_map *)
  type fmap 'a 'b
  predicate mdom (fmap 'a 'b) 'a
  function mval (fmap 'a 'b) 'a : 'b
  val mmem (m: fmap 'a 'b) (k: 'a) : bool ensures { result <-> mdom m k }
  val mget (m: fmap 'a 'b) (k: 'a) : 'b requires { [@expl:key present] mdom m k } ensures { result = mval m k }
  val minsert (m: fmap 'a 'b) (k: 'a) (v: 'b) : fmap 'a 'b
    ensures { forall j. mdom result j <-> (mdom m j \/ j = k) }
    ensures { forall j. mdom m j -> mval result j = mval m j }
    ensures { not mdom m k -> mval result k = v }
  val mput (m: fmap 'a 'b) (k: 'a) (v: 'b) : fmap 'a 'b
    ensures { forall j. mdom result j <-> (mdom m j \/ j = k) }
    ensures { forall j. mdom m j -> j <> k -> mval result j = mval m j }
    ensures { mval result k = v }
  val mempty () : fmap 'a 'b ensures { forall j. not mdom result j }

  exception Throw
  exception LastEvaluation
  exception TargetReached
  exception MaximumReached
  exception LocalMaximum

  (* ---- machine integers as mathematical ones; these conversions are checked *)
  val to_unsigned (a: int) : int
    requires { [@expl:conversion to unsigned keeps the value] 0 <= a }
    ensures { result = a }
  val to_u8 (a: int) : int
    requires { [@expl:conversion to 8 bits keeps the value] 0 <= a <= 255 }
    ensures { result = a }
  val usub (a b: int) : int
    requires { [@expl:unsigned subtraction does not wrap] b <= a }
    ensures { result = a - b }
  function t_b2i (b: bool) : int = if b then 1 else 0
  let b2i (b: bool) : int ensures { result = t_b2i b } = if b then 1 else 0

  let ieq (a b: int) : bool ensures { result <-> a = b } = a = b
  let ine (a b: int) : bool ensures { result <-> a <> b } = a <> b
  let ilt (a b: int) : bool ensures { result <-> a < b } = a < b
  let ile (a b: int) : bool ensures { result <-> a <= b } = a <= b
  let igt (a b: int) : bool ensures { result <-> a > b } = a > b
  let ige (a b: int) : bool ensures { result <-> a >= b } = a >= b
  let band (a b: bool) : bool ensures { result <-> (a /\ b) } = a && b
  let beq (a b: bool) : bool ensures { result <-> (a <-> b) } = if a then b else not b
  let bne (a b: bool) : bool ensures { result <-> not (a <-> b) } = if a then not b else b

  val idiv (a b: int) : int
    requires { [@expl:division by zero] b <> 0 } ensures { result = div a b }
  val imod (a b: int) : int
    requires { [@expl:division by zero] b <> 0 } ensures { result = mod a b }
  let imin (a b: int) : int ensures { result = min a b } = if a <= b then a else b
  let imax (a b: int) : int ensures { result = max a b } = if a <= b then b else a
  let iabs (a: int) : int ensures { result = abs a } = if a >= 0 then a else -a

  (* ---- doubles as mathematical reals *)
  val radd (a b: real) : real ensures { result = a +. b }
  val rsub (a b: real) : real ensures { result = a -. b }
  val rmul (a b: real) : real ensures { result = a *. b }
  (* in functions marked anyquotient, a division by 0.0 (IEEE: infinity or NaN) gives any value *)
  val rdiv_any (a b: real) : real ensures { b <> 0.0 -> result = a /. b }
  val rdiv (a b: real) : real requires { [@expl:division by zero] b <> 0.0 } ensures { result = a /. b }
  val rneg (a: real) : real ensures { result = -. a }
  val req (a b: real) : bool ensures { result <-> a = b }
  val rne (a b: real) : bool ensures { result <-> a <> b }
  val rlt (a b: real) : bool ensures { result <-> a <. b }
  val rle (a b: real) : bool ensures { result <-> a <=. b }
  val rgt (a b: real) : bool ensures { result <-> a >. b }
  val rge (a b: real) : bool ensures { result <-> a >=. b }
  val i2r (a: int) : real ensures { result = from_int a }
  val r2i (a: real) : int ensures { result = truncate a }
  val rmin (a b: real) : real ensures { result = (if b <. a then b else a) }
  val rmax (a b: real) : real ensures { result = (if a <. b then b else a) }
  (* <cmath> exp and log as mathematical functions; only what is stated is known *)
  function t_exp (x: real) : real
  axiom t_exp_pos : forall x. t_exp x >. 0.0
  axiom t_exp_0 : t_exp 0.0 = 1.0
  axiom t_exp_mono : forall x y. x <=. y -> t_exp x <=. t_exp y
  val rexp (a: real) : real ensures { result = t_exp a }
  function t_log (x: real) : real
  val rlog (a: real) : real
    requires { [@expl:logarithm of a positive number] a >. 0.0 }
    ensures { result = t_log a }
    ensures { a >=. 1.0 -> result >=. 0.0 }
  val rclamp (v lo hi: real) : real
    requires { [@expl:bounds of clamp are ordered] lo <=. hi }
    ensures { result = (if v <. lo then lo else if hi <. v then hi else v) }
  val iclamp (v lo hi: int) : int
    requires { [@expl:bounds of clamp are ordered] lo <= hi }
    ensures { result = (if v < lo then lo else if hi < v then hi else v) }
  val rabs (a: real) : real ensures { result = RAbs.abs a }

  lemma mul_inv_ge: forall a b: real. 0.0 <. b -> b <=. a -> a /. b >=. 1.0
  lemma ratio_ge1: forall k n: int. 0 < n -> n <= k -> from_int k /. from_int n >=. 1.0

  (* ---- std::vector as a sequence *)
  val constant empty_seq : seq 'a ensures { result = empty }
  val vlen (s: seq 'a) : int ensures { result = length s }
  val vget (s: seq 'a) (i: int) : 'a
    requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = s[i] }
  val vset (s: seq 'a) (i: int) (v: 'a) : seq 'a
    requires { [@expl:index in bounds] 0 <= i < length s } ensures { result = s[i <- v] }
  val vsnoc (s: seq 'a) (v: 'a) : seq 'a ensures { result = snoc s v }
  val vpop (s: seq 'a) : seq 'a
    requires { [@expl:pop_back of an empty vector] length s > 0 }
    ensures { length result = length s - 1 /\ forall i. 0 <= i < length result -> result[i] = s[i] }
  val make_seq (n: int) (v: 'a) : seq 'a
    requires { [@expl:vector size is not negative] 0 <= n }
    ensures { length result = n /\ forall i. 0 <= i < n -> result[i] = v }
  val vresize (s: seq 'a) (n: int) (v: 'a) : seq 'a
    requires { [@expl:vector size is not negative] 0 <= n }
    ensures { length result = n }
    ensures { forall i. 0 <= i < n -> i < length s -> result[i] = s[i] }
    ensures { forall i. length s <= i < n -> result[i] = v }
  val veq (a b: seq 'a) : bool ensures { result <-> a == b } ensures { result -> a = b }
  val ignore_value (a: 'a) : unit

  (* ---- <algorithm>, <numeric>: assumed contracts of the C++ standard library *)
  val vsum (s: seq int) (lo hi: int) : int
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s } ensures { result = sum s lo hi }
  val vcount (s: seq int) (v: int) (lo hi: int) : int
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s } ensures { result = count s v lo hi }
  val vmem (s: seq int) (v: int) (lo hi e: int) : bool
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s /\ e = hi }
    ensures { result <-> exists i. lo <= i < hi /\ s[i] = v }
  val vis_sorted (s: seq int) (lo hi: int) : bool
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { result <-> forall i j. lo <= i < j < hi -> s[i] <= s[j] }
  val vfill (s: seq 'a) (lo hi: int) (v: 'a) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { length result = length s }
    ensures { forall i. lo <= i < hi -> result[i] = v }
    ensures { forall i. 0 <= i < length s -> (i < lo \/ hi <= i) -> result[i] = s[i] }
  val viota (s: seq int) (lo hi v: int) : seq int
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { length result = length s }
    ensures { forall i. lo <= i < hi -> result[i] = v + (i - lo) }
    ensures { forall i. 0 <= i < length s -> (i < lo \/ hi <= i) -> result[i] = s[i] }
  val vreverse (s: seq 'a) (lo hi: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { length result = length s }
    ensures { forall i. lo <= i < hi -> result[i] = s[lo + hi - 1 - i] }
    ensures { forall i. 0 <= i < length s -> (i < lo \/ hi <= i) -> result[i] = s[i] }
  val vcopy (d: seq 'a) (at_ : int) (s: seq 'a) (lo hi: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    requires { [@expl:destination range] 0 <= at_ /\ at_ + (hi - lo) <= length d }
    ensures { length result = length d }
    ensures { forall i. at_ <= i < at_ + (hi - lo) -> result[i] = s[lo + (i - at_)] }
    ensures { forall i. 0 <= i < length d -> (i < at_ \/ at_ + (hi - lo) <= i) -> result[i] = d[i] }

  (* ---- random numbers: any value of the range *)
  val random_real () : real ensures { 0.0 <=. result <. 1.0 }
  val random_bool () : bool
  val random_int (lo hi: int) : int
    requires { [@expl:uniform_int_distribution range] lo <= hi }
    ensures { lo <= result <= hi }
  type idist = { d_lo: int; d_hi: int }
  type bdist = { d_p: real }
  type udist = { d_a: real; d_b: real }
  type ndist = { d_n: int; d_q: real }
  type gdist = { d_mean: real; d_dev: real }
  let make_idist (lo hi: int) : idist
    requires { [@expl:uniform_int_distribution range] lo <= hi } ensures { result = { d_lo = lo; d_hi = hi } }
  = { d_lo = lo; d_hi = hi }
  val draw_idist (d: idist) : int
    requires { [@expl:uniform_int_distribution range] d.d_lo <= d.d_hi } ensures { d.d_lo <= result <= d.d_hi }
  let make_bdist (p: real) : bdist ensures { result = { d_p = p } } = { d_p = p }
  val draw_bdist (d: bdist) : bool ensures { d.d_p = 0.0 -> not result } ensures { d.d_p = 1.0 -> result }
  let make_udist (a b: real) : udist ensures { result = { d_a = a; d_b = b } } = { d_a = a; d_b = b }
  val draw_udist (d: udist) : real
    requires { [@expl:uniform_real_distribution range] d.d_a <=. d.d_b } ensures { d.d_a <=. result <=. d.d_b }
  let make_ndist (n: int) (p: real) : ndist
    requires { [@expl:binomial_distribution parameters] 0 <= n /\ 0.0 <=. p <=. 1.0 } ensures { result = { d_n = n; d_q = p } }
  = { d_n = n; d_q = p }
  val draw_ndist (d: ndist) : int ensures { 0 <= result <= d.d_n }
    ensures { d.d_q = 0.0 -> result = 0 } ensures { d.d_q = 1.0 -> result = d.d_n }
  type geodist = { d_g: real }
  let make_geodist (p: real) : geodist
    requires { [@expl:geometric_distribution parameter] 0.0 <. p <. 1.0 } ensures { result = { d_g = p } }
  = { d_g = p }
  val draw_geodist (d: geodist) : int ensures { 0 <= result }
  let make_gdist (a b: real) : gdist ensures { result = { d_mean = a; d_dev = b } } = { d_mean = a; d_dev = b }
  predicate gauss (d: gdist) (z: real)     (* z is a variate of the normal distribution d *)
  val draw_gdist (d: gdist) : real ensures { gauss d result }
  val rsqrt (a: real) : real
    requires { [@expl:square root of a negative number] a >=. 0.0 }
    ensures { result >=. 0.0 /\ result *. result = a }
  val rpow (a b: real) : real
    ensures { a >. 0.0 -> result >. 0.0 }
    ensures { a >=. 1.0 -> b >=. 0.0 -> result >=. 1.0 }
    ensures { b = 0.0 -> result = 1.0 }
  val rfloor (a: real) : real ensures { result = from_int (floor a) }
  val rceil (a: real) : real ensures { result = from_int (ceil a) }
  val rtrunc (a: real) : real ensures { result = from_int (truncate a) }
end

module Shift
  use int.Int
  use int.ComputerDivision
  use export Pow2
  use export Bitwise
  val ishlu64 (a b: int) : int
    requires { [@expl:shift amount] 0 <= b < 64 }
    ensures { result = mod (a * pow2 b) (pow2 64) }
  val ishl32 (a b: int) : int
    requires { [@expl:shift amount] 0 <= b < 31 }
    requires { [@expl:shift does not overflow] 0 <= a * pow2 b < pow2 31 }
    ensures { result = a * pow2 b }
  val ibxor (a b: int) : int requires { 0 <= a /\ 0 <= b } ensures { result = bxor a b }
  val ibor (a b: int) : int requires { 0 <= a /\ 0 <= b } ensures { result = bor a b }
  val iband (a b: int) : int requires { 0 <= a /\ 0 <= b } ensures { result = band a b }
end

module Shuffle
  use int.Int
  use seq.Seq
  use export Permut
  val vshuffle (s: seq 'a) (lo hi: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { permut_sub s result lo hi }
  (* std::sort: the extractor adds the order of the call's comparison *)
  val vsorted_somehow (s: seq 'a) (lo hi: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= hi <= length s }
    ensures { permut_sub s result lo hi }
  (* std::partial_sort *)
  val vpartially_sorted_somehow (s: seq 'a) (lo mid hi: int) : seq 'a
    requires { [@expl:valid iterator range] 0 <= lo <= mid <= hi <= length s }
    ensures { permut_sub s result lo hi }
end

module Perm
  use int.Int
  use seq.Seq
  predicate is_perm (v: seq int) =
    (forall i. 0 <= i < length v -> 0 <= v[i] < length v) /\ forall i j. 0 <= i < length v -> 0 <= j < length v -> i <> j -> v[i] <> v[j]
end
module PermOnto
  (* a permutation reaches every index *)
  use int.Int
  use seq.Seq
  use ref.Ref
  use Perm
  predicate inj (v: seq int) (n: int) = (forall i. 0 <= i < length v -> 0 <= v[i] < n) /\ forall i j. 0 <= i < length v -> 0 <= j < length v -> i <> j -> v[i] <> v[j]
  (* the first k entries with the value x closed up *)
  let ghost close (v: seq int) (x k: int) : seq int
    requires { 0 <= k <= length v }
    ensures { length result = k /\ forall i. 0 <= i < k -> result[i] = if v[i] > x then v[i] - 1 else v[i] }
  = let w = ref empty in let i = ref 0 in
    while !i < k do
      invariant { 0 <= !i <= k /\ length !w = !i /\ forall j. 0 <= j < !i -> !w[j] = if v[j] > x then v[j] - 1 else v[j] }
      variant { k - !i }
      w := snoc !w (if v[!i] > x then v[!i] - 1 else v[!i]); i := !i + 1
    done; !w
  let rec ghost pigeon (v: seq int) (n: int) : unit
    requires { 0 <= n /\ inj v n }
    variant { n }
    ensures { length v <= n }
  = if length v > 0 then begin
      let k = length v - 1 in let x = v[k] in let w = close v x k in
      assert { inj w (n - 1) }; pigeon w (n - 1) end
  let lemma perm_onto (v: seq int)
    requires { is_perm v }
    ensures { forall x. 0 <= x < length v -> exists j. 0 <= j < length v /\ v[j] = x }
  = let ghost n = length v in let x = ref 0 in
    while !x < n do
      invariant { 0 <= !x <= n /\ forall y. 0 <= y < !x -> exists j. 0 <= j < n /\ v[j] = y }
      variant { n - !x }
      let w = close v !x n in
      if pure { not (exists j. 0 <= j < n /\ v[j] = !x) } then begin assert { inj w (n - 1) }; pigeon w (n - 1) end;
      x := !x + 1
    done
  let ghost preimage (v: seq int) (x: int) : int
    requires { is_perm v /\ 0 <= x < length v }
    ensures { 0 <= result < length v /\ v[result] = x }
  = let n = length v in let i = ref 0 in
    while !i < n && v[!i] <> x do
      invariant { 0 <= !i <= n /\ forall k. 0 <= k < !i -> v[k] <> x } variant { n - !i }
      i := !i + 1
    done;
    if !i = n then begin let w = close v x n in assert { inj w (n - 1) }; pigeon w (n - 1); absurd end;
    !i
end

module USet
  (* std::unordered_set and std::set: a sequence of distinct elements whose order is unspecified after each change *)
  use int.Int
  use seq.Seq
  predicate smem (x: int) (s: seq int) = exists i. 0 <= i < length s /\ s[i] = x
  predicate sdistinct (s: seq int) = forall i j. 0 <= i < length s -> 0 <= j < length s -> i <> j -> s[i] <> s[j]
  val set_insert (s: seq int) (x: int) : seq int
    requires { sdistinct s }
    ensures { sdistinct result /\ forall y. smem y result <-> (smem y s \/ y = x) }
    ensures { length result = length s + (if smem x s then 0 else 1) }
  val set_erase (s: seq int) (x: int) : seq int
    requires { sdistinct s }
    ensures { sdistinct result /\ forall y. smem y result <-> (smem y s /\ y <> x) }
    ensures { length result = length s - (if smem x s then 1 else 0) }
  val set_has (s: seq int) (x: int) : bool
    ensures { result <-> smem x s }
end
