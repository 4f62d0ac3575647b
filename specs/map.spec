# Maps from bit vectors to bit vectors
use bits.Bits gf2.Gf2 cpp.Shuffle cpp.Perm
file lib/hnco/maps/map.cc

function hnco::map::Translation::map
  requires { is_bv _bv /\ is_bv input /\ length input = length _bv /\ length output = length _bv }
  ensures { output == add input _bv /\ is_bv output }

function hnco::map::Translation::random
  requires { n > 0 }
  ensures { length _bv = n /\ is_bv _bv }

function hnco::map::Permutation::map
  requires { is_perm _permutation /\ is_bv input /\ length input = length _permutation /\ length output = length _permutation }
  ensures { length output = length (old output) /\ forall i. 0 <= i < length output -> output[i] = input[_permutation[i]] }
  loop 0
    invariant { forall j. 0 <= j < $k -> output[j] = input[_permutation[j]] }

function hnco::map::Permutation::random
  requires { n > 0 }
  ensures { length _permutation = n /\ is_perm _permutation }

function hnco::map::LinearMap::is_surjective
  use gf2.Echelon
  requires { valid_mat _bm }
  ensures { exists e p. vmat e (length _bm) (length _bm[0]) /\ same_ker e _bm (length _bm[0]) /\ pivots e p /\ (result <-> length p = length _bm) }

function hnco::map::LinearMap::map
  requires { valid_mat _bm /\ length input = length _bm[0] /\ length output = length _bm }
  ensures { output == mul _bm input /\ is_bv output }

function hnco::map::LinearMap::random
  use gf2.Echelon
  requires { rows > 0 /\ cols > 0 }
  requires { forall i. 0 <= i < length _bm -> is_bv _bm[i] }
  raises { Throw -> surjective /\ rows > cols }
  ensures { vmat _bm rows cols }
  ensures { surjective -> exists e p. vmat e rows cols /\ same_ker e _bm cols /\ pivots e p /\ length p = rows }
  diverges
  loop 0
    invariant { vmat _bm rows cols }

function hnco::map::AffineMap::is_surjective
  use gf2.Echelon
  requires { valid_mat _bm }
  ensures { exists e p. vmat e (length _bm) (length _bm[0]) /\ same_ker e _bm (length _bm[0]) /\ pivots e p /\ (result <-> length p = length _bm) }

function hnco::map::AffineMap::map
  requires { valid_mat _bm /\ length input = length _bm[0] /\ length output = length _bm /\ length _bv = length _bm /\ is_bv _bv }
  ensures { output == add (mul _bm input) _bv /\ is_bv output }

function hnco::map::AffineMap::random
  use gf2.Echelon
  requires { rows > 0 /\ cols > 0 }
  requires { forall i. 0 <= i < length _bm -> is_bv _bm[i] }
  raises { Throw -> surjective /\ rows > cols }
  ensures { vmat _bm rows cols /\ length _bv = rows /\ is_bv _bv }
  ensures { surjective -> exists e p. vmat e rows cols /\ same_ker e _bm cols /\ pivots e p /\ length p = rows }
  diverges
  loop 0
    invariant { vmat _bm rows cols }

function hnco::map::Injection::map
  requires { length input = length _bit_positions /\ length output = _output_size }
  requires { forall i. 0 <= i < length _bit_positions -> 0 <= _bit_positions[i] < _output_size }
  requires { forall i j. 0 <= i < j < length _bit_positions -> _bit_positions[i] <> _bit_positions[j] }
  ensures { length output = length (old output) /\ forall i. 0 <= i < length input -> output[_bit_positions[i]] = input[i] }
  ensures { forall p. 0 <= p < length output -> (forall i. 0 <= i < length input -> _bit_positions[i] <> p) -> output[p] = (old output)[p] }
  loop 0
    invariant { length output = length (old output) /\ forall i. 0 <= i < $k -> output[_bit_positions[i]] = input[i] }
    invariant { forall p. 0 <= p < length output -> (forall i. 0 <= i < $k -> _bit_positions[i] <> p) -> output[p] = (old output)[p] }

function hnco::map::Projection::map
  requires { length input = _input_size /\ length output = length _bit_positions }
  requires { forall i. 0 <= i < length _bit_positions -> 0 <= _bit_positions[i] < _input_size }
  ensures { length output = length (old output) /\ forall i. 0 <= i < length output -> output[i] = input[_bit_positions[i]] }
  loop 0
    invariant { length output = length (old output) /\ forall i. 0 <= i < $k -> output[i] = input[_bit_positions[i]] }

function hnco::map::TsAffineMap::map
  import transvection
  requires { is_bv _bv /\ is_bv input /\ tsv _ts (length _bv) /\ length input = length _bv /\ length output = length _bv }
  ensures { output == add (ts_app _ts (length _ts) input) _bv /\ is_bv output }
  ensures { _ts = old _ts /\ _bv = old _bv /\ length output = length _bv }
  ghost entry { ts_app_bv _ts (length _ts) input; }

function hnco::map::TsAffineMap::random
  requires { n > 1 /\ t >= 0 /\ 0 <= mode <= 5 }
  ensures { length _bv = n /\ is_bv _bv /\ tsv _ts n }
  diverges

function hnco::map::TsAffineMap::invert
  import transvection
  define {
  let ghost tv_sum (t: transvection) (x y: seq int)
    requires { tvv t (length x) /\ length x = length y /\ is_bv x /\ is_bv y }
    ensures { tv_app t (add x y) == add (tv_app t x) (tv_app t y) }
  = let ghost r = t.transvection_row_index in let ghost c = t.transvection_column_index in
    assert { tv_app t (add x y) = (add x y)[r <- b2x (b2x x[r] y[r]) (b2x x[c] y[c])] };
    assert { b2x (b2x x[r] y[r]) (b2x x[c] y[c]) = b2x (b2x x[r] x[c]) (b2x y[r] y[c]) }
  let rec ghost ts_app_sum (s: seq transvection) (k: int) (x y: seq int)
    requires { 0 <= k <= length s /\ tsv s (length x) /\ length x = length y /\ is_bv x /\ is_bv y }
    ensures { ts_app s k (add x y) == add (ts_app s k x) (ts_app s k y) } variant { k }
  = if k > 0 then begin ts_app_sum s (k-1) x y; ts_app_bv s (k-1) x; ts_app_bv s (k-1) y;
      tv_sum (pure { s[k-1] }) (ts_app s (k-1) x) (ts_app s (k-1) y) end
  let ghost rev_valid (s r: seq transvection) (n: int)
    requires { length r = length s /\ (forall i. 0 <= i < length s -> r[i] = s[length s - 1 - i]) /\ tsv s n }
    ensures { tsv r n } = ()
  let ghost add_twice (x y z: seq int)
    requires { length x = length y /\ is_bv x /\ is_bv y /\ z == add x y } ensures { add z y == x } = ()
  let ghost inv (ts0 ts1: seq transvection) (bv0 bv1: seq int) (n: int)
    requires { length ts1 = length ts0 /\ (forall i. 0 <= i < length ts0 -> ts1[i] = ts0[length ts0 - 1 - i]) /\ tsv ts0 n }
    requires { vec bv0 n /\ bv1 == ts_app ts1 (length ts1) bv0 }
    ensures { tsv ts1 n /\ vec bv1 n }
    ensures { forall x. vec x n -> add (ts_app ts1 (length ts1) (add (ts_app ts0 (length ts1) x) bv0)) bv1 == x }
  = rev_valid ts0 ts1 n; ts_app_bv ts1 (length ts1) bv0;
    let lemma one (x: seq int) requires { vec x n } ensures { add (ts_app ts1 (length ts1) (add (ts_app ts0 (length ts1) x) bv0)) bv1 == x }
    = ts_app_bv ts0 (length ts1) x;
      ts_app_sum ts1 (length ts1) (ts_app ts0 (length ts1) x) bv0;
      ts_rev ts0 ts1 (length ts1) x;
      add_twice x bv1 (ts_app ts1 (length ts1) (pure { add (ts_app ts0 (length ts1) x) bv0 })) in
    ()
  }
  requires { is_bv _bv /\ tsv _ts (length _bv) }
  ensures { length _bv = length (old _bv) /\ is_bv _bv /\ tsv _ts (length _bv) /\ length _ts = length (old _ts) }
  ensures { forall x. vec x (length _bv) ->
     add (ts_app _ts (length _ts) (add (ts_app (old _ts) (length _ts) x) (old _bv))) _bv == x }
  ghost entry { let ghost ts0 = _ts in let ghost bv0 = _bv in }
  ghost exit { inv ts0 _ts bv0 _bv (length bv0); }

function hnco::map::Translation::get_input_size
  ensures { result = length _bv }
function hnco::map::Translation::get_output_size
  ensures { result = length _bv }
function hnco::map::Permutation::get_input_size
  ensures { result = length _permutation }
function hnco::map::Permutation::get_output_size
  ensures { result = length _permutation }
function hnco::map::LinearMap::get_input_size
  requires { valid_mat _bm }
  ensures { result = length _bm[0] }
function hnco::map::LinearMap::get_output_size
  ensures { result = length _bm }
function hnco::map::AffineMap::get_input_size
  requires { valid_mat _bm }
  ensures { result = length _bm[0] }
function hnco::map::AffineMap::get_output_size
  ensures { result = length _bm }
function hnco::map::Injection::get_input_size
  ensures { result = length _bit_positions }
function hnco::map::Injection::get_output_size
  ensures { result = _output_size }
function hnco::map::Injection::is_surjective
  requires { length _bit_positions <= _output_size }
  ensures { result <-> length _bit_positions = _output_size }
function hnco::map::Projection::get_input_size
  ensures { result = _input_size }
function hnco::map::Projection::get_output_size
  ensures { result = length _bit_positions }
function hnco::map::TsAffineMap::get_input_size
  ensures { result = length _bv }
function hnco::map::TsAffineMap::get_output_size
  ensures { result = length _bv }
