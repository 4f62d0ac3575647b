# Walsh transforms
use bits.Bits bits.BitsValue cpp.Pow2 cpp.Sum reals.RSum reals.Linear fn.Fn transform.Transform transform.Fast
import iterator
opaque Function fn
record WalshTerm
record WalshExpansion
extern Function::evaluate { fn_evaluate {o} {0} }
extern Function::get_bv_size { fn_size {o} }
define {
  function ints (b: seq bool) : seq int = create (length b) (fun i -> if b[i] then 1 else 0)
  (* contribution of a term to the value of the expansion at x *)
  function term_at (x: seq int) (t: seq walshTerm) (i: int) : real = sgn (par x (ints t[i].walshTerm_feature) (length x)) t[i].walshTerm_coefficient
  (* the terms of the features whose values are below k, in order, without those of null coefficient *)
  predicate terms_upto (f: rfun) (n k: int) (t: seq walshTerm) =
    (forall i. 0 <= i < length t -> length t[i].walshTerm_feature = n /\ t[i].walshTerm_coefficient <> 0.0 /\
       t[i].walshTerm_coefficient = walsh f (ints t[i].walshTerm_feature) /\ value (ints t[i].walshTerm_feature) 0 n < k) /\
    (forall i j. 0 <= i < j < length t -> value (ints t[i].walshTerm_feature) 0 n < value (ints t[j].walshTerm_feature) 0 n) /\
    (forall u. is_bv u -> length u = n -> value u 0 n < k -> walsh f u <> 0.0 -> exists i. 0 <= i < length t /\ ints t[i].walshTerm_feature = u) /\
    (forall x. is_bv x -> length x = n -> rsum (term_at x t) 0 (length t) = rsum (ordered (expand f x) x n) 0 k)
  (* the transform: exactly the non-null Walsh coefficients, and the expansion gives the function back *)
  predicate is_transform (f: rfun) (n: int) (t: seq walshTerm) =
    (forall i. 0 <= i < length t -> length t[i].walshTerm_feature = n /\ t[i].walshTerm_coefficient <> 0.0 /\
       t[i].walshTerm_coefficient = walsh f (ints t[i].walshTerm_feature)) /\
    (forall i j. 0 <= i < j < length t -> ints t[i].walshTerm_feature <> ints t[j].walshTerm_feature) /\
    (forall u. is_bv u -> length u = n -> walsh f u <> 0.0 -> exists i. 0 <= i < length t /\ ints t[i].walshTerm_feature = u) /\
    (forall x. is_bv x -> length x = n -> rsum (term_at x t) 0 (length t) = from_int (pow2 n) *. f x)
  let lemma ints_bv (b: seq bool) ensures { is_bv (ints b) /\ length (ints b) = length b } = ()
  let rec ghost par_ints (x: seq int) (b: seq bool) (k: int)
    requires { 0 <= k <= length b } ensures { par x (ints b) k = mod (bcommon x b 0 k) 2 } variant { k }
  = if k > 0 then begin par_ints x b (k-1); assert { bcommon x b 0 (k-1) >= 0 } end
  let ghost ints_of (b: seq bool) (x: seq int) requires { length b = length x /\ is_bv x /\ forall i. 0 <= i < length x -> (b[i] <-> x[i] <> 0) } ensures { ints b = x }
  = assert { ints b == x }
  let ghost terms_none (f: rfun) (n: int) requires { 0 <= n } ensures { terms_upto f n 0 empty_seq }
  = let lemma no (u: seq int) requires { is_bv u /\ length u = n } ensures { value u 0 n >= 0 } = value_bounds u 0 n in ()
  let ghost terms_skip (f: rfun) (n k: int) (t: seq walshTerm) (u: seq int)
    requires { terms_upto f n k t /\ 0 <= k < pow2 n /\ is_bv u /\ length u = n /\ value u 0 n = k /\ walsh f u = 0.0 } ensures { terms_upto f n (k+1) t }
  = let lemma other (v: seq int) requires { is_bv v /\ length v = n /\ value v 0 n < k + 1 /\ walsh f v <> 0.0 } ensures { value v 0 n < k }
    = if value v 0 n = k then value_eq u v in
    let lemma sums (x: seq int) requires { is_bv x /\ length x = n } ensures { rsum (ordered (expand f x) x n) 0 (k+1) = rsum (ordered (expand f x) x n) 0 k }
    = low_value u x; assert { ordered (expand f x) x n k = expand f x u }; assert { expand f x u = 0.0 } in ()
  let ghost terms_push (f: rfun) (n k: int) (t: seq walshTerm) (u: seq int) (e: walshTerm)
    requires { terms_upto f n k t /\ 0 <= k < pow2 n /\ is_bv u /\ length u = n /\ value u 0 n = k /\ walsh f u <> 0.0 }
    requires { ints e.walshTerm_feature = u /\ e.walshTerm_coefficient = walsh f u }
    ensures { terms_upto f n (k+1) (snoc t e) }
  = let ghost s = snoc t e in
    let lemma other (v: seq int) requires { is_bv v /\ length v = n /\ value v 0 n < k + 1 /\ walsh f v <> 0.0 } ensures { exists i. 0 <= i < length s /\ ints s[i].walshTerm_feature = v }
    = if value v 0 n = k then begin value_eq u v; assert { ints s[length t].walshTerm_feature = v } end
      else begin let ghost i = any int ensures { 0 <= result < length t /\ ints t[result].walshTerm_feature = v } in assert { s[i] = t[i] } end in
    let lemma sums (x: seq int) requires { is_bv x /\ length x = n } ensures { rsum (term_at x s) 0 (length s) = rsum (ordered (expand f x) x n) 0 (k+1) }
    = low_value u x; assert { ordered (expand f x) x n k = expand f x u };
      rsum_ext (term_at x t) (term_at x s) 0 (length t);
      assert { s[length t] = e };
      assert { term_at x s (length t) = expand f x u };
      assert { rsum (term_at x s) 0 (length s) = rsum (term_at x s) 0 (length t) +. term_at x s (length t) } in
    assert { forall i. 0 <= i < length t -> s[i] = t[i] };
    assert { s[length t] = e /\ length s = length t + 1 };
    let lemma each (i: int) requires { 0 <= i < length s } ensures { length s[i].walshTerm_feature = n /\ s[i].walshTerm_coefficient <> 0.0 /\
       s[i].walshTerm_coefficient = walsh f (ints s[i].walshTerm_feature) /\ value (ints s[i].walshTerm_feature) 0 n < k + 1 }
    = if i < length t then assert { s[i] = t[i] } else assert { s[i] = e /\ length e.walshTerm_feature = length (ints e.walshTerm_feature) } in
    let lemma order (i j: int) requires { 0 <= i < j < length s } ensures { value (ints s[i].walshTerm_feature) 0 n < value (ints s[j].walshTerm_feature) 0 n }
    = assert { s[i] = t[i] }; if j < length t then assert { s[j] = t[j] } else begin assert { s[j] = e }; assert { value (ints t[i].walshTerm_feature) 0 n < k } end in ()
  let ghost terms_all (f: rfun) (n: int) (t: seq walshTerm)
    requires { 0 <= n /\ terms_upto f n (pow2 n) t } ensures { is_transform f n t }
  = let lemma every (u: seq int) requires { is_bv u /\ length u = n } ensures { value u 0 n < pow2 n } = value_bounds u 0 n in
    let lemma sums (x: seq int) requires { is_bv x /\ length x = n } ensures { rsum (term_at x t) 0 (length t) = from_int (pow2 n) *. f x }
    = hs_rsum (expand f x) x n; inversion f x in ()
}
file lib/hnco/functions/function.cc
function hnco::function::compute_walsh_transform
  params fn terms
  hide terms_upto is_transform
  requires { 0 < size_of fn <= 30 }
  ensures { is_transform (value_of fn) (size_of fn) terms }
  loop 0
    variant { pow2 n - (if bv_it.hypercubeIterator_initial_state then -1 else bval bv_it.hypercubeIterator_current 0 n) }
    invariant { n = size_of fn /\ length coefficients = pow2 n }
    invariant { is_bv bv_it.hypercubeIterator_current /\ length bv_it.hypercubeIterator_current = n }
    invariant { is_bv features_it.hypercubeIterator_current /\ length features_it.hypercubeIterator_current = n }
    invariant { naive (value_of fn) n (if bv_it.hypercubeIterator_initial_state then 0 else bval bv_it.hypercubeIterator_current 0 n + 1) coefficients }
  loop 1
    variant { pow2 n - (if features_it.hypercubeIterator_initial_state then -1 else bval features_it.hypercubeIterator_current 0 n) }
    invariant { length coefficients = pow2 n }
    invariant { is_bv features_it.hypercubeIterator_current /\ length features_it.hypercubeIterator_current = n }
    invariant { naive2 (value_of fn) n (bval bv_it.hypercubeIterator_current 0 n) (if features_it.hypercubeIterator_initial_state then 0 else bval features_it.hypercubeIterator_current 0 n + 1) coefficients }
  ghost end 1 { part_step (value_of fn) n features_it.hypercubeIterator_current bv_it.hypercubeIterator_current;
    let lemma other (w: seq int) requires { is_bv w /\ length w = n /\ bval w 0 n = bval features_it.hypercubeIterator_current 0 n } ensures { w = features_it.hypercubeIterator_current } = value_eq w features_it.hypercubeIterator_current in
    let lemma inb (w: seq int) requires { is_bv w /\ length w = n } ensures { 0 <= bval w 0 n < pow2 n } = value_bounds w 0 n in () }
  ghost after 1 { let lemma inb (w: seq int) requires { is_bv w /\ length w = n } ensures { 0 <= bval w 0 n < pow2 n } = value_bounds w 0 n in () }
  ghost after 0 { value_bounds bv_it.hypercubeIterator_current 0 n; assert { not bv_it.hypercubeIterator_initial_state /\ bval bv_it.hypercubeIterator_current 0 n + 1 = pow2 n }; assert { naive (value_of fn) n (pow2 n) coefficients }; naive_all (value_of fn) n coefficients }
  loop 2
    invariant { n = size_of fn /\ length coefficients = pow2 n /\ length feature = n /\ length bv = n }
    invariant { forall u. is_bv u -> length u = n -> coefficients[bval u 0 n] = walsh (value_of fn) u }
    invariant { terms_upto (value_of fn) n $k terms }
  ghost before 2 { terms_none (value_of fn) n }
  ghost begin 2 { let ghost t0 = terms in let ghost u0 = low bv n i in low_bv bv n i; pow2_mono n 64; assert { coefficients[bval u0 0 n] = walsh (value_of fn) u0 }; assert { coefficients[i] = walsh (value_of fn) u0 }; }
  ghost end 2 { if not (rne coefficients[i] 0.0) then terms_skip (value_of fn) n i t0 u0
    else begin ints_of feature bv; let ghost e = terms[length terms - 1] in assert { terms = snoc t0 e }; terms_push (value_of fn) n i t0 bv e end }
  ghost exit { terms_all (value_of fn) (size_of fn) terms; }

function hnco::function::compute_fast_walsh_transform
  params fn terms
  hide terms_upto is_transform half staged
  requires { 0 < size_of fn <= 30 }
  ensures { is_transform (value_of fn) (size_of fn) terms }
  loop 0
    invariant { n = size_of fn /\ length coefficients = pow2 n /\ length x = n /\ is_bv x }
    invariant { staged (value_of fn) n $k coefficients }
  ghost begin 0 { half_start (value_of fn) n k coefficients; pow2_mono n 64 }
  loop 1
    variant { pow2 k - (if prefixes.extendedHypercubeIterator_initial_state then -1 else bval prefixes.extendedHypercubeIterator_current 0 k) }
    invariant { length coefficients = pow2 n /\ length x = n /\ is_bv x }
    invariant { is_bv prefixes.extendedHypercubeIterator_current /\ length prefixes.extendedHypercubeIterator_current = k }
    invariant { half (value_of fn) n k (if prefixes.extendedHypercubeIterator_initial_state then 0 else bval prefixes.extendedHypercubeIterator_current 0 k + 1) 0 coefficients }
  ghost after 1 { half_end (value_of fn) n k coefficients }
  loop 2
    variant { pow2 (n - k - 1) - (if suffixes.extendedHypercubeIterator_initial_state then -1 else bval suffixes.extendedHypercubeIterator_current 0 (n - k - 1)) }
    invariant { length coefficients = pow2 n /\ length x = n /\ is_bv x /\ forall i. 0 <= i < k -> x[i] = prefixes.extendedHypercubeIterator_current[i] }
    invariant { is_bv suffixes.extendedHypercubeIterator_current /\ length suffixes.extendedHypercubeIterator_current = n - k - 1 }
    invariant { half (value_of fn) n k (bval prefixes.extendedHypercubeIterator_current 0 k) (if suffixes.extendedHypercubeIterator_initial_state then 0 else bval suffixes.extendedHypercubeIterator_current 0 (n - k - 1) + 1) coefficients }
  ghost begin 2 { let ghost c0 = coefficients in }
  ghost end 2 { assert { x[k] = 1 }; value_shift x prefixes.extendedHypercubeIterator_current 0 0 k; value_shift x suffixes.extendedHypercubeIterator_current (k+1) 0 (n-k-1);
    value_bounds x[k <- 0] 0 n; value_bounds x[k <- 1] 0 n;
    if k > 0 then half_read (value_of fn) n k (bval prefixes.extendedHypercubeIterator_current 0 k) (bval suffixes.extendedHypercubeIterator_current 0 (n - k - 1)) c0 x;
    half_step (value_of fn) n k (bval prefixes.extendedHypercubeIterator_current 0 k) (bval suffixes.extendedHypercubeIterator_current 0 (n - k - 1)) c0 coefficients x (stage (value_of fn) x[k <- 0] k) (stage (value_of fn) x[k <- 1] k) }
  ghost after 2 { half_next (value_of fn) n k (bval prefixes.extendedHypercubeIterator_current 0 k) coefficients }
  ghost after 0 { staged_all (value_of fn) n coefficients }
  loop 3
    invariant { n = size_of fn /\ length coefficients = pow2 n /\ length feature = n /\ length bv = n }
    invariant { forall u. is_bv u -> length u = n -> coefficients[bval u 0 n] = walsh (value_of fn) u }
    invariant { terms_upto (value_of fn) n $k terms }
  ghost before 3 { terms_none (value_of fn) n }
  ghost begin 3 { let ghost t0 = terms in let ghost u0 = low bv n i in low_bv bv n i; pow2_mono n 64; assert { coefficients[bval u0 0 n] = walsh (value_of fn) u0 }; assert { coefficients[i] = walsh (value_of fn) u0 }; }
  ghost end 3 { if not (rne coefficients[i] 0.0) then terms_skip (value_of fn) n i t0 u0
    else begin ints_of feature bv; let ghost e = terms[length terms - 1] in assert { terms = snoc t0 e }; terms_push (value_of fn) n i t0 bv e end }
  ghost exit { terms_all (value_of fn) (size_of fn) terms; }

file lib/hnco/functions/collection/walsh/walsh-expansion.cc
function hnco::function::WalshExpansion::evaluate
  params x
  requires { is_bv x /\ forall i. 0 <= i < length _terms -> length _terms[i].walshTerm_feature = length x }
  ensures { result = rsum (term_at x _terms) 0 (length _terms) /\ _terms = old _terms }
  loop 0
    invariant { result_ = rsum (term_at x _terms) 0 $k }
  ghost begin 0 { par_ints x _terms[$k].walshTerm_feature (length x); }

file @specs/tu/walsh.cc
function hnco::client::expand_naive
  requires { 0 < size_of fn <= 30 /\ is_bv x /\ length x = size_of fn }
  ensures { result = from_int (pow2 (size_of fn)) *. value_of fn x }
function hnco::client::expand_fast
  requires { 0 < size_of fn <= 30 /\ is_bv x /\ length x = size_of fn }
  ensures { result = from_int (pow2 (size_of fn)) *. value_of fn x }
