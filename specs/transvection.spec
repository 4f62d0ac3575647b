use bits.Bits gf2.Gf2 cpp.Shuffle
extern Generator::uniform { random_real () }
extern Generator::bernoulli { random_bool () }
record Transvection
define {
  predicate tv_ok (r c: int) = r >= 0 /\ c >= 0 /\ r <> c
  predicate tv_valid (r c n: int) = tv_ok r c /\ r < n /\ c < n
  predicate tvv (t: transvection) (n: int) = tv_valid t.transvection_row_index t.transvection_column_index n
  predicate tsv (s: seq transvection) (n: int) = forall i. 0 <= i < length s -> tvv s[i] n
  predicate commute (a b: transvection) = a.transvection_row_index <> b.transvection_column_index /\ b.transvection_row_index <> a.transvection_column_index
  predicate disjoint (a b: transvection) =
    a.transvection_row_index <> b.transvection_row_index /\ a.transvection_row_index <> b.transvection_column_index /\
    a.transvection_column_index <> b.transvection_row_index /\ a.transvection_column_index <> b.transvection_column_index
  (* the matrix I + B_rc applied to x *)
  function tv_apply (r c: int) (x: seq int) : seq int = x[r <- b2x x[r] x[c]]
  let ghost function tv_app (t: transvection) (x: seq int) : seq int = pure { tv_apply t.transvection_row_index t.transvection_column_index x }
  (* first t of the sequence, in order *)
  let rec ghost function ts_app (s: seq transvection) (t: int) (x: seq int) : seq int
    variant { t } = if t <= 0 then x else tv_app (pure { s[t-1] }) (ts_app s (t-1) x)
  let ghost added_mul (a' a: mat) (t: transvection) (n: int)
    requires { row_added a' a t.transvection_row_index t.transvection_column_index /\ shape a (length a) n /\ bits a }
    ensures { forall x. vec x n -> mul a' x == tv_app t (mul a x) }
  = let lemma one (x: seq int)
      requires { vec x n } ensures { mul a' x == tv_app t (mul a x) }
    = dot_sum (pure { a'[t.transvection_row_index] }) (pure { a[t.transvection_row_index] }) (pure { a[t.transvection_column_index] }) x in
    ()
  let ghost tv_twice (t: transvection) (x: seq int)
    requires { tvv t (length x) /\ is_bv x }
    ensures { tv_app t (tv_app t x) == x } = ()
  let rec ghost ts_app_bv (s: seq transvection) (k: int) (x: seq int)
    requires { 0 <= k <= length s /\ tsv s (length x) /\ is_bv x }
    ensures { length (ts_app s k x) = length x /\ is_bv (ts_app s k x) } variant { k }
  = if k > 0 then ts_app_bv s (k-1) x
  let rec ghost ts_rev (s r: seq transvection) (j: int) (x: seq int)
    requires { length r = length s /\ (forall i. 0 <= i < length s -> r[i] = s[length s - 1 - i]) }
    requires { 0 <= j <= length s /\ tsv s (length x) /\ is_bv x }
    ensures { ts_app r j (ts_app s (length s) x) == ts_app s (length s - j) x } variant { j }
  = if j > 0 then begin
      ts_rev s r (j-1) x; ts_app_bv s (length s - j) x;
      tv_twice (pure { s[length s - j] }) (pure { ts_app s (length s - j) x });
      assert { ts_app r j (ts_app s (length s) x) = tv_app r[j-1] (ts_app r (j-1) (ts_app s (length s) x)) };
      assert { ts_app s (length s - j + 1) x = tv_app s[length s - j] (ts_app s (length s - j) x) }
    end
  let ghost ts_rev_all (s r: seq transvection)
    requires { length r = length s /\ (forall i. 0 <= i < length s -> r[i] = s[length s - 1 - i]) }
    ensures { forall x. tsv s (length x) -> is_bv x -> ts_app r (length r) (ts_app s (length s) x) == x }
  = let lemma one (x: seq int)
      requires { tsv s (length x) /\ is_bv x }
      ensures { ts_app r (length r) (ts_app s (length s) x) == x }
    = ts_rev s r (length s) x in ()
  let ghost sq_le (r: int) (m: real)
    requires { 0 <= r /\ from_int r <=. m } ensures { from_int (r * r) <=. m *. m }
  = assert { from_int r *. from_int r <=. m *. m }
  let ghost room (n k t: int)
    requires { n > 1 /\ (n = 2 * k \/ n = 2 * k + 1) /\ t <= (if n = 2 * k then k * k else k * (k + 1)) }
    ensures { from_int (n * n) /. 4.0 -. from_int t >=. 0.0 }
    ensures { n = 2 * k + 1 -> forall m. m >=. 0.0 -> m *. m = from_int (n * n) /. 4.0 -. from_int t -> m >=. 0.5 }
  = assert { n = 2 * k -> n * n = 4 * (k * k) }; assert { n = 2 * k + 1 -> n * n = 4 * (k * (k + 1)) + 1 };
    assert { n * n >= 4 * t }; assert { from_int (n * n) >=. from_int (4 * t) }; assert { n = 2 * k + 1 -> from_int (n * n) >=. from_int (4 * t + 1) };
    assert { from_int (4 * t) = 4.0 *. from_int t };
    let lemma half (m: real)
      requires { n = 2 * k + 1 /\ m >=. 0.0 /\ m *. m = from_int (n * n) /. 4.0 -. from_int t } ensures { m >=. 0.5 }
    = assert { m *. m >=. 0.25 }; assert { m <. 0.5 -> m *. m <. 0.25 } in ()
  let ghost even_enough (n k t d: int) (m: real)
    requires { n = 2 * k /\ 0 <= d /\ from_int d <=. m /\ m *. m = from_int (n * n) /. 4.0 -. from_int t }
    ensures { (k + d) * (n - (k + d)) >= t /\ (k - d) * (n - (k - d)) >= t }
  = sq_le d m; assert { n * n = 4 * (k * k) };
    assert { from_int (4 * (d * d)) = 4.0 *. from_int (d * d) }; assert { from_int (n * n - 4 * t) = from_int (n * n) -. 4.0 *. from_int t };
    assert { from_int (4 * (d * d)) <=. from_int (n * n - 4 * t) }; assert { 4 * (d * d) <= n * n - 4 * t };
    assert { (k + d) * (k - d) = k * k - d * d }
  let ghost odd_enough (n k t d: int) (m: real)
    requires { n = 2 * k + 1 /\ 1 <= d /\ m >=. 0.0 /\ from_int d <=. m +. 0.5 /\ m *. m = from_int (n * n) /. 4.0 -. from_int t }
    ensures { (k + d) * (n - (k + d)) >= t /\ (k + 1 - d) * (n - (k + 1 - d)) >= t }
  = assert { 0.0 <=. from_int d -. 0.5 <=. m };
    assert { (from_int d -. 0.5) *. (from_int d -. 0.5) <=. m *. m };
    assert { n * n = 4 * (k * (k + 1)) + 1 };
    assert { from_int (d * d) = from_int d *. from_int d };
    assert { from_int (4 * (d * d) - 4 * d + 1) = 4.0 *. from_int (d * d) -. 4.0 *. from_int d +. 1.0 };
    assert { from_int (n * n - 4 * t) = from_int (n * n) -. 4.0 *. from_int t };
    assert { from_int (4 * (d * d) - 4 * d + 1) <=. from_int (n * n - 4 * t) };
    assert { (k + d) * (k + 1 - d) = k * (k + 1) - d * d + d }
}
file lib/hnco/maps/transvection.cc

function hnco::map::Transvection::is_valid() const
  logic tv_ok
  ensures { result <-> tv_ok row_index column_index }

function hnco::map::Transvection::is_valid(int) const
  logic tv_valid
  ensures { result <-> tv_valid row_index column_index n }

function hnco::map::Transvection::random(int)
  requires { n > 1 }
  ensures { tv_valid row_index column_index n }
  diverges
  loop 0
    invariant { not $first -> 0 <= i < n /\ 0 <= j < n }

function hnco::map::Transvection::random_non_commuting
  requires { n > 1 /\ tvv a n }
  ensures { tv_valid row_index column_index n }
  ensures { row_index = a.transvection_column_index \/ column_index = a.transvection_row_index }
  diverges
  loop 0
    invariant { not $first -> 0 <= i < n }
  loop 1
    invariant { not $first -> 0 <= i < n }

function hnco::map::Transvection::multiply(vector<bit>&) const
  requires { tv_valid row_index column_index (length bv) /\ is_bv bv }
  ensures { bv == tv_apply row_index column_index (old bv) /\ is_bv bv }

function hnco::map::Transvection::multiply(vector<vector<bit>>&) const
  requires { valid_mat bm /\ tv_valid row_index column_index (length bm) }
  ensures { row_added bm (old bm) row_index column_index }
  ensures { vmat bm (length (old bm)) (length (old bm)[0]) }

function hnco::map::transvections_commute
  ensures { result <-> commute a b }

function hnco::map::transvections_are_disjoint
  ensures { result <-> disjoint a b }

function hnco::map::ts_is_valid(vector<hnco::map::Transvection> const&)
  ensures { result <-> forall i. 0 <= i < length ts -> tv_ok ts[i].transvection_row_index ts[i].transvection_column_index }

function hnco::map::ts_is_valid(vector<hnco::map::Transvection> const&, int)
  ensures { result <-> tsv ts n }

function hnco::map::ts_random
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = t /\ tsv ts n }
  diverges
  loop 0
    invariant { length ts = t /\ forall i. 0 <= i < $k -> tvv ts[i] n }

function hnco::map::ts_random_non_commuting
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = t /\ tsv ts n }
  ensures { forall i. 0 < i < t -> not (commute ts[i-1] ts[i]) }
  diverges
  loop 0
    invariant { length ts = t /\ forall i. 0 <= i < $k -> tvv ts[i] n }
    invariant { forall i. 0 < i < $k -> not (commute ts[i-1] ts[i]) }

function hnco::map::ts_random_disjoint
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = min t (div n 2) /\ tsv ts n }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> i <> j -> disjoint ts[i] ts[j] }
  loop 0
    invariant { forall j. 0 <= j < $k -> variables[j] = j }
  loop 1
    invariant { length ts = min (old t) (div n 2) }
    invariant { forall j. 0 <= j < $k -> ts[j].transvection_row_index = variables[2*j] /\ ts[j].transvection_column_index = variables[2*j+1] }

function hnco::map::ts_random_unique_source
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = min t (n-1) /\ tsv ts n }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> i <> j -> ts[i].transvection_row_index <> ts[j].transvection_row_index }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> commute ts[i] ts[j] }
  loop 0
    invariant { forall j. 0 <= j < $k -> variables[j] = j }
  loop 1
    invariant { length ts = $k }
    invariant { forall j. 0 <= j < $k -> ts[j].transvection_row_index = variables[j] }
    invariant { forall j. 0 <= j < $k -> exists c. t <= c < n /\ ts[j].transvection_column_index = variables[c] }

function hnco::map::ts_random_unique_destination
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = min t (n-1) /\ tsv ts n }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> i <> j -> ts[i].transvection_column_index <> ts[j].transvection_column_index }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> commute ts[i] ts[j] }
  loop 0
    invariant { forall j. 0 <= j < $k -> variables[j] = j }
  loop 1
    invariant { length ts = $k }
    invariant { forall j. 0 <= j < $k -> ts[j].transvection_column_index = variables[j] }
    invariant { forall j. 0 <= j < $k -> exists c. t <= c < n /\ ts[j].transvection_row_index = variables[c] }

function hnco::map::ts_multiply(vector<bit>&, vector<hnco::map::Transvection> const&)
  requires { tsv ts (length bv) /\ is_bv bv }
  ensures { bv == ts_app ts (length ts) (old bv) /\ is_bv bv }
  loop 0
    invariant { length bv = length (old bv) /\ is_bv bv /\ bv = ts_app ts $k (old bv) }

function hnco::map::ts_multiply(vector<vector<bit>>&, vector<hnco::map::Transvection> const&)
  requires { tsv ts (length bm) /\ valid_mat bm }
  ensures { vmat bm (length (old bm)) (length (old bm)[0]) }
  ensures { forall x. vec x (length bm[0]) -> mul bm x == ts_app ts (length ts) (mul (old bm) x) }
  loop 0
    invariant { vmat bm (length (old bm)) (length (old bm)[0]) }
    invariant { forall x. vec x (length (old bm)[0]) -> mul bm x = ts_app ts $k (mul (old bm) x) }
  ghost end 0 { added_mul bm (pure { bm at $B }) (pure { ts[$k] }) (pure { length (old bm)[0] }) }

function hnco::map::ts_invert
  requires { forall i. 0 <= i < length ts -> tv_ok ts[i].transvection_row_index ts[i].transvection_column_index }
  ensures { length ts = length (old ts) /\ forall i. 0 <= i < length ts -> ts[i] = (old ts)[length ts - 1 - i] }
  ensures { forall x. tsv (old ts) (length x) -> is_bv x -> ts_app ts (length ts) (ts_app (old ts) (length ts) x) == x }
  ghost exit { ts_rev_all (pure { old ts }) ts }

function hnco::map::ts_random_commuting
  use real.Truncate
  requires { n > 1 /\ t >= 0 }
  ensures { length ts = min t (if mod n 2 = 0 then div n 2 * div n 2 else div n 2 * (div n 2 + 1)) }
  ensures { tsv ts n }
  ensures { forall i j. 0 <= i < length ts -> 0 <= j < length ts -> commute ts[i] ts[j] }
  loop 0
    invariant { forall j. 0 <= j < $k -> variables[j] = j }
  loop 1
    invariant { 0 < split < n /\ length ts = $k * (n - split) }
    invariant { forall q. 0 <= q < length ts -> exists a b. 0 <= a < split <= b < n /\ ts[q].transvection_row_index = variables[a] /\ ts[q].transvection_column_index = variables[b] }
  loop 2
    invariant { length ts = i * (n - split) + ($k - split) }
    invariant { forall q. 0 <= q < length ts -> exists a b. 0 <= a < split <= b < n /\ ts[q].transvection_row_index = variables[a] /\ ts[q].transvection_column_index = variables[b] }
  ghost before 0 { room n k t }
  ghost before 1 {
    if mod n 2 = 0 then even_enough n k t (if split >= k then split - k else k - split) vM
    else odd_enough n k t (if split > k then split - k else k + 1 - split) vM;
    assert { 0 < split < n /\ split * (n - split) >= t } }
