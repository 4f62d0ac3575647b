(* The Walsh transform on the hypercube {0,1}^n. *)
module Transform
  use int.Int
  use int.ComputerDivision
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use cpp.Cpp
  use cpp.Pow2
  use bits.Bits
  use bits.BitsValue
  use reals.RSum
  use reals.Linear

  type rfun = seq int -> real
  function comb (f: rfun) (s: real) (g: rfun) : rfun = fun z -> f z +. s *. g z
  function setf (f: rfun) (p c: int) : rfun = fun z -> f z[p <- c]
  constant zerof : rfun = fun _ -> 0.0

  (* parity of the number of common ones among the first k components *)
  let rec ghost function par (x u: seq int) (k: int) : int
    ensures { result = 0 \/ result = 1 }
    variant { k }
  = if k <= 0 then 0 else if x[k-1] <> 0 && u[k-1] <> 0 then 1 - par x u (k-1) else par x u (k-1)

  let rec ghost par_common (x u: seq int) (k: int)
    requires { 0 <= k } ensures { par x u k = mod (common x u 0 k) 2 } variant { k }
  = if k > 0 then begin par_common x u (k-1); assert { common x u 0 (k-1) >= 0 } end

  let rec ghost par_ext (x y u v: seq int) (k: int)
    requires { forall i. 0 <= i < k -> (x[i] <> 0 <-> y[i] <> 0) /\ (u[i] <> 0 <-> v[i] <> 0) } ensures { par x u k = par y v k } variant { k }
  = if k > 0 then par_ext x y u v (k-1)

  let rec ghost par_sym (x u: seq int) (k: int) ensures { par x u k = par u x k } variant { k }
  = if k > 0 then par_sym x u (k-1)

  (* sum of g over all the vectors that agree with y from component k on *)
  let rec ghost function hs (g: rfun) (y: seq int) (k: int) : real
    requires { 0 <= k <= length y } variant { k }
  = if k <= 0 then g y else hs g y[k-1 <- 0] (k-1) +. hs g y[k-1 <- 1] (k-1)

  (* the coefficient of u: sum over x of (-1)^(x.u) f(x) *)
  function wterm (f: rfun) (u: seq int) (k: int) : rfun = fun x -> sgn (par x u k) (f x)
  function walsh (f: rfun) (u: seq int) : real = hs (wterm f u (length u)) u (length u)

  predicate same_from (y z: seq int) (k: int) = length y = length z /\ forall i. k <= i < length y -> y[i] = z[i]

  let rec ghost hs_ext (g h: rfun) (y: seq int) (k: int)
    requires { 0 <= k <= length y /\ forall z. same_from z y k -> (forall i. 0 <= i < k -> is_bit z[i]) -> g z = h z }
    ensures { hs g y k = hs h y k } variant { k }
  = if k > 0 then begin hs_ext g h y[k-1 <- 0] (k-1); hs_ext g h y[k-1 <- 1] (k-1) end

  let rec ghost hs_arg (g: rfun) (y z: seq int) (k: int)
    requires { 0 <= k <= length y /\ same_from y z k } ensures { hs g y k = hs g z k } variant { k }
  = if k > 0 then begin hs_arg g y[k-1 <- 0] z[k-1 <- 0] (k-1); hs_arg g y[k-1 <- 1] z[k-1 <- 1] (k-1) end
    else assert { y == z }

  let rec ghost hs_add (f g h: rfun) (y: seq int) (k: int) (s: real)
    requires { 0 <= k <= length y /\ forall z. h z = f z +. s *. g z }
    ensures { hs h y k = hs f y k +. s *. hs g y k } variant { k }
  = if k > 0 then begin hs_add f g h y[k-1 <- 0] (k-1) s; hs_add f g h y[k-1 <- 1] (k-1) s;
      assert { s *. (hs g y[k-1 <- 0] (k-1) +. hs g y[k-1 <- 1] (k-1)) = s *. hs g y[k-1 <- 0] (k-1) +. s *. hs g y[k-1 <- 1] (k-1) } end

  (* setting a component the sum does not run over *)
  let rec ghost hs_set (g h: rfun) (y: seq int) (k p b: int)
    requires { 0 <= k <= p < length y /\ forall z. length z = length y -> h z = g z[p <- b] } ensures { hs h y k = hs g y[p <- b] k } variant { k }
  = if k > 0 then begin hs_set g h y[k-1 <- 0] (k-1) p b; hs_set g h y[k-1 <- 1] (k-1) p b;
      assert { hs h y k = hs h y[k-1 <- 0] (k-1) +. hs h y[k-1 <- 1] (k-1) };
      assert { y[k-1 <- 0][p <- b] == y[p <- b][k-1 <- 0] }; assert { y[k-1 <- 1][p <- b] == y[p <- b][k-1 <- 1] } end

  (* the butterfly scheme: after k stages *)
  let rec ghost function stage (f: rfun) (y: seq int) (k: int) : real
    requires { 0 <= k <= length y } variant { k }
  = if k <= 0 then f y
    else if y[k-1] = 0 then stage f y (k-1) +. stage f y[k-1 <- 1] (k-1)
    else stage f y[k-1 <- 0] (k-1) -. stage f y (k-1)

  (* k stages sum over the first k components, with the sign given by the first k components of y *)
  let rec ghost stage_is (f: rfun) (y: seq int) (k: int)
    requires { 0 <= k <= length y /\ is_bv y } ensures { stage f y k = hs (wterm f y k) y k } variant { k }
  = if k <= 0 then ()
    else begin
      let ghost y0 = y[k-1 <- 0] in
      let ghost y1 = y[k-1 <- 1] in
      stage_is f y0 (k-1); stage_is f y1 (k-1);
      let lemma a0 (z: seq int) requires { same_from z y0 (k-1) } ensures { wterm f y k z = wterm f y0 (k-1) z }
      = par_ext z z y y0 (k-1) in
      let lemma a1 (z: seq int) requires { same_from z y1 (k-1) } ensures { wterm f y k z = sgn y[k-1] (wterm f y1 (k-1) z) }
      = par_ext z z y y1 (k-1) in
      hs_ext (wterm f y k) (wterm f y0 (k-1)) y0 (k-1);
      if y[k-1] = 0 then begin
        assert { y0 == y };
        hs_ext (wterm f y k) (wterm f y1 (k-1)) y1 (k-1)
      end else begin
        assert { y1 == y };
        let ghost neg = comb zerof (-. 1.0) (wterm f y1 (k-1)) in
        hs_ext (wterm f y k) neg y1 (k-1);
        let ghost zero = zerof in
        hs_zero zero y1 (k-1);
        hs_add zero (wterm f y1 (k-1)) neg y1 (k-1) (-. 1.0)
      end
    end
  with ghost hs_zero (g: rfun) (y: seq int) (k: int)
    requires { 0 <= k <= length y /\ forall z. g z = 0.0 } ensures { hs g y k = 0.0 } variant { k }
  = if k > 0 then begin hs_zero g y[k-1 <- 0] (k-1); hs_zero g y[k-1 <- 1] (k-1) end

  let ghost stage_all (f: rfun) (y: seq int)
    requires { is_bv y } ensures { stage f y (length y) = walsh f y }
  = stage_is f y (length y)

  (* a vector of length n, the first k components of which are those of x and the others those of y *)
  function mix (x y: seq int) (k: int) : seq int = create (length y) (fun i -> if i < k then x[i] else y[i])

  let ghost mix_step (x y: seq int) (k: int)
    requires { 0 < k <= length y = length x /\ is_bv x } ensures { mix x y[k-1 <- x[k-1]] (k-1) = mix x y k }
  = assert { mix x y[k-1 <- x[k-1]] (k-1) == mix x y k }
  let ghost mul_congr (a b c: real) requires { a = b } ensures { a *. c = b *. c } = ()
  let ghost scale (a b p v: real) (neg: bool)
    ensures { a = p *. v -> (a +. b) +. 1.0 *. (a -. b) = (2.0 *. p) *. v }
    ensures { b = p *. v -> (a +. b) +. (-. 1.0) *. (a -. b) = (2.0 *. p) *. v } = ()

  function back (f: rfun) (x: seq int) (k: int) : rfun = fun u -> sgn (par x u k) (stage f u k)

  (* inversion *)
  let rec ghost invert (f: rfun) (x y: seq int) (k: int)
    requires { 0 <= k <= length y = length x /\ is_bv x /\ is_bv y }
    ensures { hs (back f x k) y k = from_int (pow2 k) *. f (mix x y k) } variant { k }
  = if k <= 0 then assert { mix x y 0 == y }
    else begin
      let ghost y0 = y[k-1 <- 0] in
      let ghost y1 = y[k-1 <- 1] in
      let ghost b = back f x (k-1) in
      invert f x y0 (k-1); invert f x y1 (k-1);
      (* b with component k-1 set *)
      let ghost b0 = setf b (k-1) 0 in
      let ghost b1 = setf b (k-1) 1 in
      hs_set b b1 y0 (k-1) (k-1) 1;
      hs_set b b0 y1 (k-1) (k-1) 0;
      assert { y0[k-1 <- 1] == y1 }; assert { y1[k-1 <- 0] == y0 };
      let lemma p (u: seq int) (c: int) requires { length u = length x } ensures { par x u[k-1 <- c] (k-1) = par x u (k-1) } = par_ext x x u[k-1 <- c] u (k-1) in
      let ghost g0 = comb b 1.0 b1 in
      hs_add b b1 g0 y0 (k-1) 1.0;
      let lemma e0 (z: seq int) requires { same_from z y0 (k-1) } ensures { back f x k z = g0 z }
      = assert { z[k-1] = 0 }; p z 1; assert { b z = sgn (par x z (k-1)) (stage f z (k-1)) }; assert { b1 z = sgn (par x z (k-1)) (stage f z[k-1 <- 1] (k-1)) } in
      hs_ext (back f x k) g0 y0 (k-1);
      assert { hs (back f x k) y0 (k-1) = hs b y0 (k-1) +. hs b y1 (k-1) };
      let ghost s = if x[k-1] = 0 then 1.0 else -. 1.0 in
      let ghost d1 = comb b0 (-. 1.0) b in
      hs_add b0 b d1 y1 (k-1) (-. 1.0);
      let ghost zero = zerof in
      let ghost g1 = comb zerof s d1 in
      hs_zero zero y1 (k-1);
      hs_add zero d1 g1 y1 (k-1) s;
      let lemma e1 (z: seq int) requires { same_from z y1 (k-1) } ensures { back f x k z = g1 z }
      = assert { z[k-1] = 1 }; p z 0; assert { b z = sgn (par x z (k-1)) (stage f z (k-1)) }; assert { b0 z = sgn (par x z (k-1)) (stage f z[k-1 <- 0] (k-1)) } in
      hs_ext (back f x k) g1 y1 (k-1);
      assert { hs (back f x k) y1 (k-1) = s *. (hs b y0 (k-1) -. hs b y1 (k-1)) };
      mix_step x y k;
      assert { if x[k-1] = 0 then mix x y0 (k-1) = mix x y k else mix x y1 (k-1) = mix x y k };
      assert { from_int (pow2 k) = 2.0 *. from_int (pow2 (k-1)) };
      assert { hs (back f x k) y k = hs (back f x k) y0 (k-1) +. hs (back f x k) y1 (k-1) };
      scale (hs b y0 (k-1)) (hs b y1 (k-1)) (from_int (pow2 (k-1))) (f (mix x y k)) true;
      assert { x[k-1] = 0 -> hs (back f x k) y k = (2.0 *. from_int (pow2 (k-1))) *. f (mix x y k) };
      assert { x[k-1] <> 0 -> hs (back f x k) y k = (2.0 *. from_int (pow2 (k-1))) *. f (mix x y k) };
      mul_congr (from_int (pow2 k)) (2.0 *. from_int (pow2 (k-1))) (f (mix x y k))
    end

  (* the expansion with the coefficients of the transform is the function, times 2^n *)
  function expand (f: rfun) (x: seq int) : rfun = fun u -> sgn (par x u (length x)) (walsh f u)
  let ghost mix_id (x: seq int) ensures { mix x x (length x) = x } = assert { mix x x (length x) == x }
  let ghost inversion (f: rfun) (x: seq int)
    requires { is_bv x } ensures { hs (expand f x) x (length x) = from_int (pow2 (length x)) *. f x }
  = invert f x x (length x);
    mix_id x;
    let lemma e (z: seq int) requires { length z = length x /\ is_bv z } ensures { back f x (length x) z = expand f x z } = stage_all f z in
    hs_ext (back f x (length x)) (expand f x) x (length x)

  (* the vector of length n of value v *)
  let rec ghost function low (y: seq int) (k v: int) : seq int
    requires { 0 <= k <= length y } variant { k }
    ensures { length result = length y }
  = if k <= 0 then y else if v >= pow2 (k-1) then low y[k-1 <- 1] (k-1) (v - pow2 (k-1)) else low y[k-1 <- 0] (k-1) v

  let rec lemma low_spec (y: seq int) (k v: int)
    requires { 0 <= k <= length y /\ 0 <= v < pow2 k }
    ensures { same_from (low y k v) y k /\ (forall i. 0 <= i < k -> is_bit (low y k v)[i]) /\ value (low y k v) 0 k = v } variant { k }
  = if k > 0 then begin if v >= pow2 (k-1) then low_spec y[k-1 <- 1] (k-1) (v - pow2 (k-1)) else low_spec y[k-1 <- 0] (k-1) v end

  let rec ghost value_inj (x y: seq int) (hi: int)
    requires { is_bv x /\ is_bv y /\ 0 <= hi <= length x /\ length x = length y /\ value x 0 hi = value y 0 hi }
    ensures { forall i. 0 <= i < hi -> x[i] = y[i] } variant { hi }
  = if hi > 0 then begin value_bounds x 0 (hi - 1); value_bounds y 0 (hi - 1); value_inj x y (hi - 1) end

  let ghost low_value (x y: seq int)
    requires { is_bv x /\ length y = length x } ensures { low y (length x) (value x 0 (length x)) = x }
  = value_bounds x 0 (length x); low_spec y (length x) (value x 0 (length x));
    value_inj x (low y (length x) (value x 0 (length x))) (length x);
    assert { low y (length x) (value x 0 (length x)) == x }

  (* enumeration in the order of the values *)
  function ordered (g: rfun) (y: seq int) (k v: int) : real = g (low y k v)
  let rec ghost hs_rsum (g: rfun) (y: seq int) (k: int)
    requires { 0 <= k <= length y } ensures { hs g y k = rsum (ordered g y k) 0 (pow2 k) } variant { k }
  = if k > 0 then begin
      let ghost m = pow2 (k-1) in
      let ghost y0 = y[k-1 <- 0] in let ghost y1 = y[k-1 <- 1] in
      hs_rsum g y0 (k-1); hs_rsum g y1 (k-1);
      rsum_split (ordered g y k) 0 m (2 * m);
      rsum_ext (ordered g y0 (k-1)) (ordered g y k) 0 m;
      rsum_shift (ordered g y1 (k-1)) (ordered g y k) 0 m m
    end
end

module Fast
  use int.Int
  use int.ComputerDivision
  use real.RealInfix
  use real.FromInt
  use seq.Seq
  use cpp.Cpp
  use cpp.Pow2
  use bits.Bits
  use bits.BitsValue
  use reals.RSum
  use reals.Linear
  use Transform

  function bval (x: seq int) (lo hi: int) : int = value x lo hi
  let ghost value_eq (x y: seq int) requires { is_bv x /\ is_bv y /\ length x = length y /\ value x 0 (length x) = value y 0 (length x) } ensures { x = y }
  = value_inj x y (length x); assert { x == y }
  let ghost low_bv (y: seq int) (n v: int) requires { length y = n /\ 0 <= v < pow2 n } ensures { is_bv (low y n v) /\ length (low y n v) = n /\ value (low y n v) 0 n = v }
  = low_spec y n v
  (* partial sums of the naive transform *)
  function part (f: rfun) (n: int) (u: seq int) (v: int) : real = rsum (ordered (wterm f u n) u n) 0 v
  predicate naive (f: rfun) (n v: int) (c: seq real) = forall u. is_bv u -> length u = n -> c[value u 0 n] = part f n u v
  predicate naive2 (f: rfun) (n v w: int) (c: seq real) = forall u. is_bv u -> length u = n -> c[value u 0 n] = part f n u (if value u 0 n < w then v + 1 else v)
  let ghost part_step (f: rfun) (n: int) (u x: seq int)
    requires { is_bv u /\ length u = n /\ is_bv x /\ length x = n }
    ensures { part f n u (value x 0 n + 1) = part f n u (value x 0 n) +. sgn (dot x u) (f x) }
  = low_value x u; par_common x u n; value_bounds x 0 n; assert { ordered (wterm f u n) u n (value x 0 n) = sgn (dot x u) (f x) }
  let ghost naive_all (f: rfun) (n: int) (c: seq real)
    requires { 0 <= n /\ naive f n (pow2 n) c } ensures { forall u. is_bv u -> length u = n -> c[value u 0 n] = walsh f u }
  = let lemma one (u: seq int) requires { is_bv u /\ length u = n } ensures { part f n u (pow2 n) = walsh f u } = hs_rsum (wterm f u n) u n in ()
  (* the fast transform in the middle of stage k: done for the prefixes below p, and for prefix p with the suffixes below s *)
  predicate is_done (y: seq int) (n k p s: int) = value y 0 k < p \/ (value y 0 k = p /\ value y (k+1) n < s)
  predicate half (f: rfun) (n k p s: int) (c: seq real) = forall y. is_bv y -> length y = n ->
    (is_done y n k p s -> c[value y 0 n] = stage f y (k+1)) /\ (not is_done y n k p s -> k > 0 -> c[value y 0 n] = stage f y k)
  predicate staged (f: rfun) (n k: int) (c: seq real) = k > 0 -> forall y. is_bv y -> length y = n -> c[value y 0 n] = stage f y k
  let rec ghost value_shift (x y: seq int) (lo d k: int)
    requires { 0 <= k /\ forall i. 0 <= i < k -> x[lo + i] = y[d + i] } ensures { value x lo (lo + k) = value y d (d + k) } variant { k }
  = if k > 0 then value_shift x y lo d (k - 1)
  let rec ghost value_inj2 (x y: seq int) (lo hi: int)
    requires { is_bv x /\ is_bv y /\ 0 <= lo <= hi <= length x /\ length x = length y /\ value x lo hi = value y lo hi }
    ensures { forall i. lo <= i < hi -> x[i] = y[i] } variant { hi - lo }
  = if hi > lo then begin value_bounds x lo (hi - 1); value_bounds y lo (hi - 1); value_inj2 x y lo (hi - 1) end
  let ghost half_step (f: rfun) (n k p s: int) (c d: seq real) (x: seq int) (f0 f1: real)
    requires { 0 <= k < n /\ length c = pow2 n /\ half f n k p s c /\ is_bv x /\ length x = n /\ value x 0 k = p /\ value x (k+1) n = s }
    requires { f0 = stage f x[k <- 0] k /\ f1 = stage f x[k <- 1] k }
    requires { d = c[value x[k <- 0] 0 n <- f0 +. f1][value x[k <- 1] 0 n <- f0 -. f1] }
    ensures { half f n k p (s+1) d }
  = let ghost x0 = x[k <- 0] in let ghost x1 = x[k <- 1] in
    value_bounds x0 0 n; value_bounds x1 0 n;
    let lemma one (y: seq int) requires { is_bv y /\ length y = n }
      ensures { (is_done y n k p (s+1) -> d[value y 0 n] = stage f y (k+1)) /\ (not is_done y n k p (s+1) -> k > 0 -> d[value y 0 n] = stage f y k) }
    = value_bounds y 0 n; value_shift x0 x 0 0 k; value_shift x1 x 0 0 k; value_shift x0 x (k+1) (k+1) (n-k-1); value_shift x1 x (k+1) (k+1) (n-k-1);
      if value y 0 k = p && value y (k+1) n = s then begin
        value_inj2 x y 0 k; value_inj2 x y (k+1) n;
        if y[k] = 0 then begin assert { y == x0 }; assert { y[k <- 1] == x1 }; if value x0 0 n = value x1 0 n then value_eq x0 x1; assert { x0[k] = 0 /\ x1[k] = 1 };
          assert { stage f y (k+1) = f0 +. f1 } end
        else begin assert { y == x1 }; assert { y[k <- 0] == x0 }; assert { stage f y (k+1) = f0 -. f1 } end
      end else begin
        if value y 0 n = value x0 0 n then value_eq y x0;
        if value y 0 n = value x1 0 n then value_eq y x1;
        assert { d[value y 0 n] = c[value y 0 n] }
      end in ()
  let lemma set_set (x: seq int) (k a b: int) requires { 0 <= k < length x } ensures { x[k <- a][k <- b] = x[k <- b] } = assert { x[k <- a][k <- b] == x[k <- b] }
  let ghost half_read (f: rfun) (n k p s: int) (c: seq real) (x: seq int)
    requires { 0 < k < n /\ half f n k p s c /\ is_bv x /\ length x = n /\ value x 0 k = p /\ value x (k+1) n = s }
    ensures { c[value x[k <- 0] 0 n] = stage f x[k <- 0] k /\ c[value x[k <- 1] 0 n] = stage f x[k <- 1] k }
  = let ghost x0 = x[k <- 0] in let ghost x1 = x[k <- 1] in
    value_shift x0 x 0 0 k; value_shift x1 x 0 0 k; value_shift x0 x (k+1) (k+1) (n-k-1); value_shift x1 x (k+1) (k+1) (n-k-1);
    assert { not is_done x0 n k p s /\ not is_done x1 n k p s }
  let ghost half_start (f: rfun) (n k: int) (c: seq real)
    requires { 0 <= k < n /\ staged f n k c } ensures { half f n k 0 0 c }
  = let lemma one (y: seq int) requires { length y = n } ensures { not is_done y n k 0 0 } = value_bounds y 0 k; value_bounds y (k+1) n in ()
  let ghost half_next (f: rfun) (n k p: int) (c: seq real)
    requires { 0 <= k < n /\ half f n k p (pow2 (n-k-1)) c } ensures { half f n k (p+1) 0 c }
  = let lemma one (y: seq int) requires { length y = n } ensures { is_done y n k p (pow2 (n-k-1)) <-> is_done y n k (p+1) 0 } = value_bounds y 0 k; value_bounds y (k+1) n in ()
  let ghost half_end (f: rfun) (n k: int) (c: seq real)
    requires { 0 <= k < n /\ half f n k (pow2 k) 0 c } ensures { staged f n (k+1) c }
  = let lemma one (y: seq int) requires { length y = n } ensures { is_done y n k (pow2 k) 0 } = value_bounds y 0 k in ()
  let ghost staged_all (f: rfun) (n: int) (c: seq real)
    requires { 0 < n /\ staged f n n c } ensures { forall u. is_bv u -> length u = n -> c[value u 0 n] = walsh f u }
  = let lemma one (u: seq int) requires { is_bv u /\ length u = n } ensures { stage f u n = walsh f u } = stage_all f u in ()
end
