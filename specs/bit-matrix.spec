use bits.Bits gf2.Gf2
file lib/hnco/bit-matrix.cc

function hnco::bm_is_valid
  requires { length vM > 0 -> true }
  ensures { result <-> valid_mat vM }

function hnco::bm_rectangular
  requires { nrows > 0 /\ ncols > 0 }
  ensures { vmat result nrows ncols /\ forall i j. 0 <= i < nrows -> 0 <= j < ncols -> result[i][j] = 0 }

function hnco::bm_clear
  ensures { length vM = length (old vM) }
  ensures { forall i. 0 <= i < length vM -> length vM[i] = length (old vM)[i] /\ is_zero vM[i] }
  loop 0
    invariant { length vM = length (old vM) }
    invariant { forall i. 0 <= i < length vM -> length vM[i] = length (old vM)[i] }
    invariant { forall i. 0 <= i < $k -> is_zero vM[i] }

function hnco::bm_identity(vector<vector<bit>>&)
  requires { valid_mat vM /\ length vM = length vM[0] }
  ensures { vmat vM (length (old vM)) (length (old vM)) /\ ident vM }
  loop 0
    invariant { length vM = length (old vM) /\ forall i. 0 <= i < length vM -> length vM[i] = length (old vM) /\ is_bv vM[i] }
    invariant { forall i j. 0 <= i < length vM -> 0 <= j < length vM -> vM[i][j] = (if i = j /\ i < $k then 1 else 0) }

function hnco::bm_identity(int)
  requires { n > 0 }
  ensures { vmat result n n /\ ident result }

function hnco::bm_transpose(vector<vector<bit>>&, vector<vector<bit>> const&)
  requires { valid_mat vM /\ shape vN (length vM[0]) (length vM) }
  ensures { vmat vN (length vM[0]) (length vM) }
  ensures { forall i j. 0 <= i < length vN -> 0 <= j < length vM -> vN[i][j] = vM[j][i] }
  loop 0
    invariant { shape vN (length vM[0]) (length vM) }
    invariant { forall i j. 0 <= i < $k -> 0 <= j < length vM -> vN[i][j] = vM[j][i] }
  loop 1
    invariant { shape vN (length vM[0]) (length vM) }
    invariant { forall k j. 0 <= k < i -> 0 <= j < length vM -> vN[k][j] = vM[j][k] }
    invariant { forall j. 0 <= j < $k -> vN[i][j] = vM[j][i] }

function hnco::bm_transpose(vector<vector<bit>> const&)
  requires { valid_mat vM }
  ensures { vmat result (length vM[0]) (length vM) }
  ensures { forall i j. 0 <= i < length result -> 0 <= j < length vM -> result[i][j] = vM[j][i] }

function hnco::bm_is_identity
  ensures { result <-> (valid_mat vM /\ length vM = length vM[0] /\ ident vM) }
  loop 0
    invariant { forall i j. 0 <= i < $k -> 0 <= j < length vM -> vM[i][j] = (if i = j then 1 else 0) }
  loop 1
    invariant { forall j. 0 <= j < $k -> vM[i][j] = (if i = j then 1 else 0) }

function hnco::bm_is_upper_triangular
  requires { length vM > 0 /\ shape vM (length vM) (length vM[0]) }
  ensures { result <-> upper vM }
  loop 0
    invariant { forall i j. 0 <= i < $k -> 0 <= j < i -> j < length vM[0] -> vM[i][j] = 0 }
  loop 1
    invariant { forall j. 0 <= j < $k -> vM[i][j] = 0 }

function hnco::bm_resize(vector<vector<bit>>&, int, int)
  requires { nrows > 0 /\ ncols > 0 }
  ensures { shape vM nrows ncols }
  ensures { forall i j. 0 <= i < nrows -> 0 <= j < ncols -> vM[i][j] =
     (if i < length (old vM) /\ j < length (old vM)[i] then (old vM)[i][j] else 0) }
  loop 0
    invariant { length vM = nrows }
    invariant { forall i. 0 <= i < $k -> length vM[i] = ncols }
    invariant { forall i j. 0 <= i < $k -> 0 <= j < ncols -> vM[i][j] =
       (if i < length (old vM) /\ j < length (old vM)[i] then (old vM)[i][j] else 0) }
    invariant { forall i. $k <= i < nrows -> vM[i] = (vM at $L)[i] }

function hnco::bm_random
  ensures { length vM = length (old vM) }
  ensures { forall i. 0 <= i < length vM -> length vM[i] = length (old vM)[i] /\ is_bv vM[i] }
  loop 0
    invariant { length vM = length (old vM) }
    invariant { forall i. 0 <= i < $k -> is_bv vM[i] }
    invariant { forall i. 0 <= i < length vM -> length vM[i] = length (old vM)[i] }

function hnco::bm_swap_rows
  requires { 0 <= i < length vM /\ 0 <= j < length vM /\ shape vM (length vM) (length vM[0]) }
  ensures { rows_swapped vM (old vM) i j }
  ensures { forall k. 0 <= k < length vM -> length vM[k] = length vM[0] }
  ensures { length vM[0] = length (old vM)[0] }
  ensures { bits (old vM) -> bits vM }
  loop 0
    invariant { length vM = length (old vM) /\ forall k. 0 <= k < length vM -> length vM[k] = length (old vM)[k] }
    invariant { forall k. 0 <= k < length vM -> k <> i -> k <> j -> vM[k] = (old vM)[k] }
    invariant { forall c. 0 <= c < $k -> vM[i][c] = (old vM)[j][c] /\ vM[j][c] = (old vM)[i][c] }
    invariant { forall c. $k <= c < length vM[0] -> vM[i][c] = (old vM)[i][c] /\ vM[j][c] = (old vM)[j][c] }
  ghost after 0 { assert { vM[i] == (old vM)[j] /\ vM[j] == (old vM)[i] }; assert { bits (old vM) -> forall k. 0 <= k < length vM -> is_bv vM[k] } }

function hnco::bm_add_rows
  requires { 0 <= dest < length vM /\ 0 <= src < length vM /\ src <> dest }
  requires { shape vM (length vM) (length vM[0]) /\ bits vM }
  ensures { row_added vM (old vM) dest src }
  ensures { shape vM (length (old vM)) (length (old vM)[0]) /\ bits vM }

function hnco::bm_add_columns
  requires { length vM > 0 /\ 0 <= dest < length vM[0] /\ 0 <= src < length vM[0] /\ src <> dest }
  requires { shape vM (length vM) (length vM[0]) /\ bits vM }
  ensures { shape vM (length (old vM)) (length (old vM)[0]) /\ bits vM }
  ensures { forall i. 0 <= i < length vM -> vM[i] == (old vM)[i][dest <- b2x (old vM)[i][dest] (old vM)[i][src]] }
  loop 0
    invariant { length vM = length (old vM) /\ forall k. 0 <= k < length vM -> length vM[k] = length (old vM)[0] /\ is_bv vM[k] }
    invariant { forall i. $k <= i < length vM -> vM[i] = (old vM)[i] }
    invariant { forall i. 0 <= i < $k -> vM[i] == (old vM)[i][dest <- b2x (old vM)[i][dest] (old vM)[i][src]] }

function hnco::bm_set_column
  requires { length vM > 0 /\ 0 <= j < length vM[0] /\ shape vM (length vM) (length vM[0]) /\ length bv = length vM }
  ensures { shape vM (length (old vM)) (length (old vM)[0]) }
  ensures { forall i. 0 <= i < length vM -> vM[i] == (old vM)[i][j <- bv[i]] }
  loop 0
    invariant { shape vM (length (old vM)) (length (old vM)[0]) }
    invariant { forall i. $k <= i < length vM -> vM[i] = (old vM)[i] }
    invariant { forall i. 0 <= i < $k -> vM[i] == (old vM)[i][j <- bv[i]] }

function hnco::bm_multiply
  requires { valid_mat vM /\ length x = length vM[0] /\ length y = length vM }
  ensures { y == mul vM x /\ is_bv y }
  loop 0
    invariant { forall i. 0 <= i < $k -> y[i] = dot vM[i] x }

function hnco::bm_rank
  use gf2.Echelon
  params a
  requires { length a > 0 /\ shape a (length a) (length a[0]) /\ exists p. pivots a p }
  ensures { 0 <= result <= length a /\ (forall i. 0 <= i < result -> not (is_zero a[i])) /\ forall i. result <= i < length a -> is_zero a[i] }
  ensures { forall p. pivots a p -> length p = result }
  locals nrows rank i
  loop 0
    invariant { 0 <= rank = $k /\ forall i. 0 <= i < $k -> not (is_zero a[i]) }
  ghost after 0 { rank_is a rank (length a[0]) }

function hnco::bm_row_echelon_form
  use gf2.Echelon
  requires { valid_mat vA }
  ensures { vmat vA (length (old vA)) (length (old vA)[0]) }
  ensures { same_ker vA (old vA) (length vA[0]) }
  ensures { exists p. pivots vA p }
  ghost entry { let ghost ref pv = (empty : seq int) in let ghost ref nc = length vA[0] in }
  locals nrows ncols r j found pivot i i
  loop 0
    invariant { vmat vA (length (old vA)) nc /\ same_ker vA (old vA) nc }
    invariant { length pv = r /\ 0 <= r < length vA }
    invariant { forall i. 0 <= i < r -> lead vA[i] pv[i] /\ pv[i] < $k }
    invariant { forall i j. 0 <= i < j < r -> pv[i] < pv[j] }
    invariant { forall i c. r <= i < length vA -> 0 <= c < $k -> vA[i][c] = 0 }
  loop 1
    invariant { not found /\ forall i. r <= i < $k -> vA[i][j] = 0 }
  loop 2
    invariant { vmat vA (length (old vA)) nc /\ same_ker vA (old vA) nc }
    invariant { vA[r] = (vA at $L)[r] }
    invariant { forall i. 0 <= i < r -> vA[i] = (vA at $L)[i] }
    invariant { forall i c. r <= i < length vA -> 0 <= c < j -> vA[i][c] = 0 }
    invariant { forall i. r < i < $k -> vA[i][j] = 0 }
  ghost before 2 { if pivot <> r then swapped_ker vA (pure { vA at B0 }) pivot r nc }
  ghost end 2 { if pure { (vA at $B)[i][j] } <> 0 then added_ker vA (pure { vA at $B }) i r nc }
  ghost after 2 { pv <- snoc pv j }
  ghost after 0 { assert { pivots vA pv } }

function hnco::bm_solve_upper_triangular
  params a b
  requires { length a > 0 /\ shape a (length a) (length a) /\ bits a /\ length b = length a /\ is_bv b /\ upper a }
  ensures { shape a (length (old a)) (length (old a)) /\ bits a /\ length b = length (old b) /\ is_bv b }
  ensures { result -> ident a /\ forall x. vec x (length a) -> (sys (old a) (old b) x <-> x == b) }
  ensures { not result -> singular (old a) (length a) }
  ensures { result <-> forall i. 0 <= i < length (old a) -> (old a)[i][i] = 1 }
  locals nrows k i j
  loop 0
    invariant { shape a nrows nrows /\ bits a /\ length b = nrows /\ is_bv b /\ upper a }
    invariant { same_sys a b (old a) (old b) nrows }
    invariant { forall i j. 0 <= i < nrows -> nrows - $k <= j < nrows -> a[i][j] = (if i = j then 1 else 0) }
    invariant { forall i j. 0 <= i < nrows -> 0 <= j < nrows - $k -> a[i][j] = (old a)[i][j] }
    invariant { forall j. nrows - $k <= j < nrows -> (old a)[j][j] = 1 }
  loop 1
    invariant { shape a nrows nrows /\ bits a /\ length b = nrows /\ is_bv b /\ upper a }
    invariant { same_sys a b (old a) (old b) nrows }
    invariant { forall i j. 0 <= i < nrows -> nrows - k <= j < nrows -> a[i][j] = (if i = j then 1 else 0) }
    invariant { forall i j. 0 <= i < nrows -> 0 <= j < nrows - 1 - k -> a[i][j] = (old a)[i][j] }
    invariant { a[i] = (a at $L)[i] /\ b[i] = (b at $L)[i] }
    invariant { forall c. 0 <= c < $k -> a[c][i] = 0 }
    invariant { forall c. $k <= c < nrows -> a[c][i] = (old a)[c][i] }
  ghost end 1 { if pure { (a at $B)[j][i] } <> 0 then added_sys a (pure { a at $B }) b (pure { b at $B }) j i nrows }
  ghost begin 0 { if a[nrows - 1 - $k][nrows - 1 - $k] = 0 then upper_singular (pure { old a }) nrows (nrows - 1 - $k) }
  ghost after 0 { ident_sys a b nrows }

function hnco::bm_solve
  params a b
  requires { length a > 0 /\ shape a (length a) (length a) /\ bits a /\ length b = length a /\ is_bv b }
  ensures { shape a (length (old a)) (length (old a)) /\ bits a /\ length b = length (old b) /\ is_bv b }
  ensures { result -> ident a /\ forall x. vec x (length a) -> (sys (old a) (old b) x <-> x == b) }
  ensures { not result -> singular (old a) (length a) }
  locals nrows i found pivot j j
  loop 0
    invariant { shape a nrows nrows /\ bits a /\ length b = nrows /\ is_bv b }
    invariant { same_sys a b (old a) (old b) nrows /\ same_ker a (old a) nrows }
    invariant { forall j. 0 <= j < $k -> a[j][j] = 1 }
    invariant { forall r c. 0 <= c < $k -> c < r < nrows -> a[r][c] = 0 }
  loop 1
    invariant { not found /\ forall r. i <= r < $k -> a[r][i] = 0 }
  ghost after 1 { if not found then begin ker_singular a nrows i; same_singular a (pure { old a }) nrows end }
  loop 2
    invariant { shape a nrows nrows /\ bits a /\ length b = nrows /\ is_bv b }
    invariant { same_sys a b (old a) (old b) nrows /\ same_ker a (old a) nrows }
    invariant { forall r. 0 <= r <= i -> a[r] = (a at $L)[r] }
    invariant { forall r c. 0 <= c < i -> c < r < nrows -> a[r][c] = 0 }
    invariant { forall r. i < r < $k -> a[r][i] = 0 }
  ghost before 2 { if pivot <> i then begin swapped_ker a (pure { a at B0 }) i pivot nrows; swapped_sys a (pure { a at B0 }) b (pure { b at B0 }) i pivot nrows end }
  ghost end 2 { if pure { (a at $B)[j][i] } <> 0 then begin added_ker a (pure { a at $B }) j i nrows; added_sys a (pure { a at $B }) b (pure { b at $B }) j i nrows end }

function hnco::bm_invert
  params m n
  requires { length m > 0 /\ shape m (length m) (length m) /\ bits m /\ vmat n (length m) (length m) }
  ensures { vmat m (length (old m)) (length (old m)) /\ vmat n (length (old m)) (length (old m)) }
  ensures { result -> ident m /\ forall x i. vec x (length m) -> 0 <= i < length m -> dot n[i] (mul (old m) x) = x[i] }
  ensures { not result -> singular (old m) (length m) }
  locals nrows i found pivot j j k i j
  loop 0
    invariant { vmat m nrows nrows /\ vmat n nrows nrows }
    invariant { product m n (old m) nrows /\ same_ker m (old m) nrows }
    invariant { forall j. 0 <= j < $k -> m[j][j] = 1 }
    invariant { forall r c. 0 <= c < $k -> c < r < nrows -> m[r][c] = 0 }
  ghost before 0 { ident_product n m nrows }
  loop 1
    invariant { not found /\ forall r. i <= r < $k -> m[r][i] = 0 }
  ghost after 1 { if not found then begin ker_singular m nrows i; same_singular m (pure { old m }) nrows end }
  loop 2
    invariant { vmat m nrows nrows /\ vmat n nrows nrows }
    invariant { product m n (old m) nrows /\ same_ker m (old m) nrows }
    invariant { forall r. 0 <= r <= i -> m[r] = (m at $L)[r] }
    invariant { forall r c. 0 <= c < i -> c < r < nrows -> m[r][c] = 0 }
    invariant { forall r. i < r < $k -> m[r][i] = 0 }
  ghost before 2 { if pivot <> i then begin swapped_ker m (pure { m at B0 }) i pivot nrows; swapped_product m n (pure { m at B0 }) (pure { n at B0 }) (pure { old m }) i pivot nrows end }
  ghost end 2 { if pure { (m at $B)[j][i] } <> 0 then begin added_ker m (pure { m at $B }) j i nrows; added_product m n (pure { m at $B }) (pure { n at $B }) (pure { old m }) j i nrows end }
  loop 3
    invariant { vmat m nrows nrows /\ vmat n nrows nrows /\ upper m }
    invariant { product m n (old m) nrows }
    invariant { forall i j. 0 <= i < nrows -> nrows - $k <= j < nrows -> m[i][j] = (if i = j then 1 else 0) }
    invariant { forall i. 0 <= i < nrows -> m[i][i] = 1 }
  loop 4
    invariant { vmat m nrows nrows /\ vmat n nrows nrows /\ upper m }
    invariant { product m n (old m) nrows }
    invariant { forall i j. 0 <= i < nrows -> nrows - k <= j < nrows -> m[i][j] = (if i = j then 1 else 0) }
    invariant { forall i. 0 <= i < nrows -> m[i][i] = 1 }
    invariant { forall c. 0 <= c < $k -> m[c][i] = 0 }
  ghost end 4 { if pure { (m at $B)[j][i] } <> 0 then added_product m n (pure { m at $B }) (pure { n at $B }) (pure { old m }) j i nrows }
  ghost after 3 { ident_mul m nrows }
