(* Linear algebra over GF(2). *)
module Gf2
  use int.Int
  use int.ComputerDivision
  use seq.Seq
  use cpp.Cpp
  use bits.Bits

  (* parity of the number of common ones *)
  let rec function par (x y: seq int) (lo hi: int) : int
    variant { hi - lo }
  = if hi <= lo then 0 else
    let p = par x y lo (hi - 1) in
    if x[hi-1] <> 0 && y[hi-1] <> 0 then 1 - p else p

  let rec lemma par_bit (x y: seq int) (lo hi: int)
    ensures { par x y lo hi = 0 \/ par x y lo hi = 1 } variant { hi - lo }
  = if lo < hi then par_bit x y lo (hi - 1)

  let rec ghost par_common (x y: seq int) (lo hi: int)
    ensures { par x y lo hi = mod (common x y lo hi) 2 }
    variant { hi - lo }
  = if lo < hi then begin par_common x y lo (hi - 1); common_bounds x y lo (hi - 1) end

  let ghost dot_par (x y: seq int)
    ensures { dot x y = par x y 0 (length x) }
  = par_common x y 0 (length x)

  let rec ghost par_ext (x y z t: seq int) (lo hi: int)
    requires { forall i. lo <= i < hi -> (x[i] <> 0 /\ y[i] <> 0 <-> z[i] <> 0 /\ t[i] <> 0) }
    ensures { par x y lo hi = par z t lo hi } variant { hi - lo }
  = if lo < hi then par_ext x y z t lo (hi - 1)

  let rec ghost par_split (x y: seq int) (lo mid hi: int)
    requires { lo <= mid <= hi }
    ensures { par x y lo hi = b2x (par x y lo mid) (par x y mid hi) } variant { hi - mid }
  = if mid < hi then par_split x y lo mid (hi - 1)

  let rec ghost par_zero (x y: seq int) (lo hi: int)
    requires { forall i. lo <= i < hi -> x[i] = 0 \/ y[i] = 0 }
    ensures { par x y lo hi = 0 } variant { hi - lo }
  = if lo < hi then par_zero x y lo (hi - 1)

  (* c = a + b *)
  predicate is_sum (c a b: seq int) =
    length c = length a /\ length c = length b /\
    forall i. 0 <= i < length c -> c[i] = b2x a[i] b[i]

  let rec ghost par_sum (c a b x: seq int) (hi: int)
    requires { is_sum c a b /\ is_bv a /\ is_bv b /\ 0 <= hi <= length c }
    ensures { par c x 0 hi = b2x (par a x 0 hi) (par b x 0 hi) } variant { hi }
  = if 0 < hi then par_sum c a b x (hi - 1)

  let ghost dot_sum (c a b x: seq int)
    requires { is_sum c a b /\ is_bv a /\ is_bv b }
    ensures { dot c x = b2x (dot a x) (dot b x) }
  = par_sum c a b x (length c); dot_par a x; dot_par b x; dot_par c x

  let ghost dot_bit (x y: seq int)
    ensures { is_bit (dot x y) } = common_bounds x y 0 (length x)

  let lemma dot_is_bit (x y: seq int)
    ensures { dot x y = 0 \/ dot x y = 1 }
  = dot_bit x y

  (* ---- matrices *)
  type mat = seq (seq int)
  predicate shape (a: mat) (r c: int) =
    length a = r /\ forall i. 0 <= i < r -> length a[i] = c
  predicate bits (a: mat) = forall i. 0 <= i < length a -> is_bv a[i]
  predicate vmat (a: mat) (r c: int) = r > 0 /\ c > 0 /\ shape a r c /\ bits a
  predicate valid_mat (a: mat) = length a > 0 /\ length a[0] > 0 /\ vmat a (length a) (length a[0])
  predicate ident (a: mat) =
    forall i j. 0 <= i < length a -> 0 <= j < length a -> a[i][j] = (if i = j then 1 else 0)
  predicate upper (a: mat) =
    forall i j. 0 <= i < length a -> 0 <= j < i -> j < length a[0] -> a[i][j] = 0
  predicate sys (a: mat) (b x: seq int) = forall i. 0 <= i < length a -> dot a[i] x = b[i]
  predicate ker (a: mat) (x: seq int) = forall i. 0 <= i < length a -> dot a[i] x = 0
  predicate vec (x: seq int) (n: int) = length x = n /\ is_bv x

  let ghost function mul (a: mat) (x: seq int) : seq int
    ensures { length result = length a }
    ensures { forall i. 0 <= i < length a -> result[i] = dot a[i] x }
  = create (length a) (pure { fun i -> dot a[i] x })

  (* a and b have the same solutions as a' and b' *)
  predicate same_sys (a: mat) (b: seq int) (a': mat) (b': seq int) (n: int) =
    forall x. vec x n -> (sys a b x <-> sys a' b' x)
  predicate same_ker (a a': mat) (n: int) = forall x. vec x n -> (ker a x <-> ker a' x)

  let ghost dot_unit (r x: seq int) (i: int)
    requires { 0 <= i < length r /\ length x = length r /\ is_bv x }
    requires { forall j. 0 <= j < length r -> r[j] = (if i = j then 1 else 0) }
    ensures { dot r x = x[i] }
  = dot_par r x; par_split r x 0 i (length r);
    par_zero r x 0 i;
    par_split r x i (i + 1) (length r);
    par_zero r x (i + 1) (length r);
    assert { par r x i i = 0 };
    assert { par r x i (i + 1) = x[i] }

  (* every row of an identity matrix picks a component *)
  let ghost ident_mul (a: mat) (n: int)
    requires { shape a n n /\ ident a }
    ensures { forall x i. vec x n -> 0 <= i < n -> dot a[i] x = x[i] }
  = let lemma one (x: seq int) (i: int)
      requires { vec x n /\ 0 <= i < n } ensures { dot a[i] x = x[i] }
    = dot_unit a[i] x i in
    ()

  (* a row replaced by its sum with another row: same kernel / solutions *)
  predicate row_added (a' a: mat) (d s: int) =
    0 <= d < length a /\ 0 <= s < length a /\ d <> s /\ length a' = length a /\
    is_sum a'[d] a[d] a[s] /\ forall i. 0 <= i < length a -> i <> d -> a'[i] = a[i]
  predicate rows_swapped (a' a: mat) (p q: int) =
    0 <= p < length a /\ 0 <= q < length a /\ length a' = length a /\
    a'[p] = a[q] /\ a'[q] = a[p] /\ forall i. 0 <= i < length a -> i <> p -> i <> q -> a'[i] = a[i]

  let ghost added_ker (a' a: mat) (d s n: int)
    requires { row_added a' a d s /\ shape a (length a) n /\ bits a }
    ensures { same_ker a' a n }
  = let lemma one (x: seq int)
      requires { vec x n } ensures { ker a' x <-> ker a x }
    = dot_sum a'[d] a[d] a[s] x;
      assert { ker a x -> ker a' x };
      assert { ker a' x -> dot a'[s] x = 0 /\ dot a'[d] x = 0 };
      assert { ker a' x -> dot a[d] x = 0 };
      assert { ker a' x -> forall i. 0 <= i < length a -> i <> d -> dot a'[i] x = 0 };
      assert { ker a' x -> ker a x } in
    ()

  let ghost swapped_ker (a' a: mat) (p q n: int)
    requires { rows_swapped a' a p q }
    ensures { same_ker a' a n }
  = let lemma one (x: seq int)
      requires { vec x n } ensures { ker a' x <-> ker a x }
    = assert { ker a x -> ker a' x };
      assert { ker a' x -> dot a'[p] x = 0 /\ dot a'[q] x = 0 };
      assert { ker a' x -> forall i. 0 <= i < length a -> i <> p -> i <> q -> dot a'[i] x = 0 };
      assert { ker a' x -> ker a x } in
    ()

  let ghost added_sys (a' a: mat) (b' b: seq int) (d s n: int)
    requires { row_added a' a d s /\ shape a (length a) n /\ bits a }
    requires { length b = length a /\ is_bv b /\ b' == b[d <- b2x b[s] b[d]] }
    ensures { same_sys a' b' a b n }
  = let lemma one (x: seq int)
      requires { vec x n } ensures { sys a' b' x <-> sys a b x }
    = dot_sum a'[d] a[d] a[s] x;
      assert { sys a b x -> sys a' b' x };
      assert { sys a' b' x -> dot a'[s] x = b'[s] /\ dot a'[d] x = b'[d] };
      assert { sys a' b' x -> dot a[d] x = b[d] };
      assert { sys a' b' x -> forall i. 0 <= i < length a -> i <> d -> dot a'[i] x = b'[i] };
      assert { sys a' b' x -> sys a b x } in
    ()

  let ghost swapped_sys (a' a: mat) (b' b: seq int) (p q n: int)
    requires { rows_swapped a' a p q }
    requires { length b = length a /\ length b' = length b /\ b'[p] = b[q] /\ b'[q] = b[p] /\
               forall i. 0 <= i < length b -> i <> p -> i <> q -> b'[i] = b[i] }
    ensures { same_sys a' b' a b n }
  = let lemma one (x: seq int)
      requires { vec x n } ensures { sys a' b' x <-> sys a b x }
    = assert { sys a b x -> sys a' b' x };
      assert { sys a' b' x -> dot a'[p] x = b'[p] /\ dot a'[q] x = b'[q] };
      assert { sys a' b' x -> forall i. 0 <= i < length a -> i <> p -> i <> q -> dot a'[i] x = b'[i] };
      assert { sys a' b' x -> sys a b x } in
    ()

  (* m = n * m0: every row of m is the combination of rows of m0 given by n *)
  predicate product (m n m0: mat) (c: int) =
    forall x i. vec x c -> 0 <= i < length m -> dot m[i] x = dot n[i] (mul m0 x)

  let ghost ident_product (n m: mat) (c: int)
    requires { shape n c c /\ ident n /\ shape m c c }
    ensures { product m n m c }
  = ident_mul n c;
    let lemma one (x: seq int) (i: int)
      requires { vec x c /\ 0 <= i < length m } ensures { dot m[i] x = dot n[i] (mul m x) }
    = assert { vec (mul m x) c } in ()

  let ghost added_product (m' n' m n m0: mat) (d s c: int)
    requires { product m n m0 c /\ length n = length m }
    requires { row_added m' m d s /\ row_added n' n d s /\ bits m /\ bits n }
    ensures { product m' n' m0 c }
  = let lemma one (x: seq int) (i: int)
      requires { vec x c /\ 0 <= i < length m' } ensures { dot m'[i] x = dot n'[i] (mul m0 x) }
    = if i = d then begin
        dot_sum m'[d] m[d] m[s] x;
        dot_sum n'[d] n[d] n[s] (mul m0 x)
      end else ()
    in ()

  let ghost swapped_product (m' n' m n m0: mat) (p q c: int)
    requires { product m n m0 c /\ length n = length m }
    requires { rows_swapped m' m p q /\ rows_swapped n' n p q }
    ensures { product m' n' m0 c }
  = let lemma one (x: seq int) (i: int)
      requires { vec x c /\ 0 <= i < length m' } ensures { dot m'[i] x = dot n'[i] (mul m0 x) }
    = () in ()

  (* a non trivial kernel vector of a matrix whose first k columns are in unit
     upper triangular form and whose column k has no entry from row k on *)
  let rec ghost ker_build (a: mat) (n k j: int) (z: seq int) : (r: seq int)
    requires { 0 <= j <= k < n /\ shape a n n /\ bits a /\ vec z n }
    requires { forall i. 0 <= i < k -> a[i][i] = 1 }
    requires { forall i c. 0 <= c < k -> c < i < n -> a[i][c] = 0 }
    requires { forall i. k <= i < n -> a[i][k] = 0 }
    requires { z[k] = 1 /\ forall i. k < i < n -> z[i] = 0 }
    requires { forall i. 0 <= i < j -> z[i] = 0 }
    requires { forall i. j <= i < k -> dot a[i] z = 0 }
    ensures { vec r n /\ r[k] = 1 /\ (forall i. k < i < n -> r[i] = 0) }
    ensures { forall i. 0 <= i < k -> dot a[i] r = 0 }
    variant { j }
  = if j = 0 then z
    else begin
      let d = dot a[j-1] z in dot_bit a[j-1] z;
      let y = z[j-1 <- d] in
      (* row j-1: a[j-1][j-1] = 1 and z[j-1] = 0 *)
      let row = a[j-1] in
      par_split row z 0 (j-1) n; par_split row z (j-1) j n;
      par_split row y 0 (j-1) n; par_split row y (j-1) j n;
      par_ext row y row z 0 (j-1); par_ext row y row z j n;
      assert { par row z (j-1) (j-1) = 0 /\ par row y (j-1) (j-1) = 0 };
      assert { par row z (j-1) j = 0 };
      assert { par row y (j-1) j = d };
      dot_par row y; dot_par row z;
      assert { dot row y = 0 };
      let lemma others (i: int)
        requires { j <= i < k } ensures { dot a[i] y = 0 }
      = dot_par a[i] y; dot_par a[i] z; par_ext a[i] y a[i] z 0 n in
      ker_build a n k (j-1) y
    end

  let ghost ker_exists (a: mat) (n k: int) : (r: seq int)
    requires { 0 <= k < n /\ shape a n n /\ bits a }
    requires { forall i. 0 <= i < k -> a[i][i] = 1 }
    requires { forall i c. 0 <= c < k -> c < i < n -> a[i][c] = 0 }
    requires { forall i. k <= i < n -> a[i][k] = 0 }
    ensures { vec r n /\ r[k] = 1 /\ ker a r }
  = let z = create n (fun i -> if i = k then 1 else 0) in
    let r = ker_build a n k k z in
    let lemma low (i: int)
      requires { k <= i < n } ensures { dot a[i] r = 0 }
    = dot_par a[i] r; par_zero a[i] r 0 n in
    r

  predicate singular (a: mat) (n: int) = exists x. vec x n /\ not (is_zero x) /\ ker a x

  let ghost ker_singular (a: mat) (n k: int)
    requires { 0 <= k < n /\ shape a n n /\ bits a }
    requires { forall i. 0 <= i < k -> a[i][i] = 1 }
    requires { forall i c. 0 <= c < k -> c < i < n -> a[i][c] = 0 }
    requires { forall i. k <= i < n -> a[i][k] = 0 }
    ensures { singular a n }
  = let r = ker_exists a n k in
    assert { not (is_zero r) }

  (* an upper triangular matrix with a zero on the diagonal is singular *)
  let rec ghost upper_singular (a: mat) (n i: int)
    requires { 0 <= i < n /\ shape a n n /\ bits a /\ a[i][i] = 0 }
    requires { forall i j. 0 <= i < n -> 0 <= j < i -> a[i][j] = 0 }
    ensures { singular a n } variant { i }
  = let ref k = 0 in
    while k < i && a[k][k] = 1 do
      invariant { 0 <= k <= i /\ forall j. 0 <= j < k -> a[j][j] = 1 }
      variant { i - k }
      k <- k + 1
    done;
    if k < i then upper_singular a n k else ker_singular a n i

  let ghost same_singular (a a': mat) (n: int)
    requires { same_ker a a' n /\ singular a n }
    ensures { singular a' n }
  = ()

  (* the solution of an identity system *)
  let ghost ident_sys (a: mat) (b: seq int) (n: int)
    requires { shape a n n /\ ident a /\ length b = n }
    ensures { forall x. vec x n -> (sys a b x <-> x == b) }
  = ident_mul a n;
    let lemma one (x: seq int)
      requires { vec x n } ensures { sys a b x <-> x == b }
    = assert { sys a b x -> forall i. 0 <= i < n -> x[i] = b[i] };
      assert { (forall i. 0 <= i < n -> x[i] = b[i]) -> sys a b x } in
    ()
end

module Echelon
  use int.Int
  use seq.Seq
  use cpp.Cpp
  use bits.Bits
  use Gf2

  (* row echelon form: from row r on everything is zero, pivots move right *)
  predicate lead (row: seq int) (p: int) = 0 <= p < length row /\ row[p] <> 0 /\ forall c. 0 <= c < p -> row[c] = 0
  let rec ghost incr_ge (piv: seq int) (i: int)
    requires { 0 <= i < length piv /\ (forall k. 0 <= k < length piv -> 0 <= piv[k]) }
    requires { forall i j. 0 <= i < j < length piv -> piv[i] < piv[j] }
    ensures { i <= piv[i] } variant { i }
  = if i > 0 then incr_ge piv (i - 1)

  predicate pivots (a: mat) (piv: seq int) =
    length piv <= length a /\
    (forall i. length piv <= i < length a -> is_zero a[i]) /\
    (forall i. 0 <= i < length piv -> lead a[i] piv[i]) /\
    (forall i j. 0 <= i < j < length piv -> piv[i] < piv[j])

  let ghost rank_is (a: mat) (k c: int)
    requires { exists p. pivots a p }
    requires { shape a (length a) c /\ 0 <= k <= length a /\ c >= 0 }
    requires { forall i. 0 <= i < k -> not (is_zero a[i]) }
    requires { k < length a -> is_zero a[k] }
    ensures { forall p. pivots a p -> length p = k }
    ensures { k <= c }
    ensures { forall i. k <= i < length a -> is_zero a[i] }
  = let lemma any_piv (p: seq int)
      requires { pivots a p } ensures { length p = k /\ k <= c /\ forall i. k <= i < length a -> is_zero a[i] }
    = if length p < k then begin assert { is_zero a[length p] }; absurd end;
      if k < length p then begin assert { lead a[k] p[k] }; assert { not (is_zero a[k]) }; absurd end;
      if k > 0 then begin incr_ge p (k - 1); assert { lead a[k-1] p[k-1] } end
    in ()
end
