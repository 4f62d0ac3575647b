# Benchmark functions: evaluate returns the published value at every point
use cpp.Pow2 bits.Bits reals.RSum reals.Flip reals.Linear reals.Hiff reals.PairSgn
define {
  (* k is the length of the longest prefix of x made of b *)
  predicate head_is (x: seq int) (b k: int) = 0 <= k <= length x /\ (forall i. 0 <= i < k -> x[i] = b) /\ (k < length x -> x[k] <> b)
  predicate tail_is (x: seq int) (b k: int) = 0 <= k <= length x /\ (forall i. length x - k <= i < length x -> x[i] = b) /\ (k < length x -> x[length x - 1 - k] <> b)
  predicate all_are (x: seq int) (b: int) = forall i. 0 <= i < length x -> x[i] = b
  lemma head_unique: forall x b k l. head_is x b k -> head_is x b l -> k = l
  lemma tail_unique: forall x b k l. tail_is x b k -> tail_is x b l -> k = l
  function mag (a: real) : real = if a <. 0.0 then -. a else a
  let rec ghost function nk_index (s nh: seq int) (k: int) : int variant { k } = if k <= 0 then 0 else nk_index s nh (k-1) + (if s[nh[k-1]] <> 0 then pow2 (k-1) else 0)
  function spin (b: int) : int = if b = 1 then 1 else -1
  function rsq (a: real) : real = a *. a
  let rec ghost function lag (x: seq int) (k m: int) : real variant { m } = if m <= 0 then 0.0 else lag x k (m-1) +. from_int (spin x[m-1] * spin x[m-1+k])
  (* sum over the lags 1 .. m-1 of the squared aperiodic autocorrelation *)
  let rec ghost function energy (x: seq int) (m: int) : real variant { m } = if m <= 1 then 0.0 else energy x (m-1) +. rsq (lag x (m-1) (length x - (m-1)))
  (* nearest neighbor Ising model in dimension one *)
  function chain (c: seq real) (s: seq int) (i: int) : real = pair_sgn s[i] s[i+1] c[i]
  function closing (c: seq real) (per: bool) (s: seq int) : real = if per then pair_sgn s[length s - 1] s[0] c[length s - 1] else 0.0
  function ising1 (c h: seq real) (per: bool) (s: seq int) : real = rsum (chain c s) 0 (length s - 1) +. closing c per s +. spins h s
  function i2r_ (s: seq int) (q: seq (seq real)) (c i j: int) : real = pair_sgn s[i*c+j] s[i*c+j+1] q[i][j]
  function i2b_ (s: seq int) (q: seq (seq real)) (c i j: int) : real = pair_sgn s[i*c+j] s[i*c+j+c] q[i][j]
  function i2f_ (s: seq int) (q: seq (seq real)) (c i j: int) : real = sgn s[i*c+j] q[i][j]
  function i2R (s: seq int) (q: seq (seq real)) (c i: int) : real = rsum (i2r_ s q c i) 0 (c-1)
  function i2B (s: seq int) (q: seq (seq real)) (c i: int) : real = rsum (i2b_ s q c i) 0 c
  function i2F (s: seq int) (q: seq (seq real)) (c i: int) : real = rsum (i2f_ s q c i) 0 c
  function i2PR (s: seq int) (q: seq (seq real)) (c i: int) : real = pair_sgn s[i*c+(c-1)] s[i*c] q[i][c-1]
  function i2PB (s: seq int) (q: seq (seq real)) (c r j: int) : real = pair_sgn s[(r-1)*c+j] s[j] q[r-1][j]
  function trap (x: seq int) (t: int) (i: int) : real = from_int (if sum x (i*t) ((i+1)*t) = t then t else t - sum x (i*t) ((i+1)*t) - 1)
  predicate ridge (x: seq int) (k: int) = 0 <= k <= length x /\ (forall i. 0 <= i < k -> x[i] = 1) /\ forall i. k <= i < length x -> x[i] = 0
  let ghost trap_in (i m t: int) requires { 0 <= i < m /\ 0 <= t } ensures { 0 <= i * t /\ (i+1) * t <= m * t /\ (i+1) * t = i * t + t } = assert { (m - i - 1) * t >= 0 }
  let ghost w_ridge (x: seq int) (k: int) requires { ridge x k } ensures { weight x = k }
  = let rec ghost go (j: int) requires { 0 <= j <= length x } ensures { sum x 0 j = if j <= k then j else k } variant { j } = if j > 0 then go (j-1) in go (length x)
  let ghost if_ridge (x: seq int) (k: int) ensures { ridge x k -> weight x = k } = if any bool ensures { result <-> ridge x k } then w_ridge x k
  function qterm (x: seq int) (q: seq (seq real)) (i j: int) : real = if x[j] <> 0 then q[i][j] else 0.0
  function qline (x: seq int) (q: seq (seq real)) (i: int) : real = if x[i] = 0 then 0.0 else q[i][i] +. rsum (qterm x q i) (i+1) (length q)
  predicate true_lit (x: seq int) (l: int) = (l > 0 /\ x[l-1] = 1) \/ (l < 0 /\ x[-l-1] = 0)
  predicate good_lits (e: seq (seq int)) (n: int) = forall i j. 0 <= i < length e -> 0 <= j < length e[i] -> -n <= e[i][j] <= n /\ e[i][j] <> 0
  function ntrue (x c: seq int) (k: int) : int
  axiom ntrue_0: forall x c. ntrue x c 0 = 0
  axiom ntrue_s: forall x c k. k >= 0 -> ntrue x c (k+1) = ntrue x c k + (if true_lit x c[k] then 1 else 0)
  function w2line (s: seq int) (q: seq (seq real)) (i: int) : real = rsum (fun j -> pair_sgn s[j] s[i] q[i][j]) 0 i
}
file lib/hnco/functions/collection/theory.cc

function hnco::function::OneMax::evaluate
  ensures { result = from_int (weight x) }

function hnco::function::LeadingOnes::evaluate
  requires { is_bv x }
  ensures { forall k. head_is x 1 k -> result = from_int k }
  ensures { exists k. head_is x 1 k /\ result = from_int k }
  loop 0
    invariant { 0 <= i <= length x /\ forall j. 0 <= j < i -> x[j] = 1 }

function hnco::function::Needle::evaluate
  requires { is_bv x }
  ensures { result = if all_are x 1 then 1.0 else 0.0 }
  loop 0
    invariant { forall j. 0 <= j < $k -> x[j] = 1 }

function hnco::function::Hiff::evaluate
  requires { is_bv x /\ length x = _bv_size /\ _depth >= 0 /\ _bv_size = pow2 _depth }
  ensures { result = rsum (hlevel x _depth) 0 (_depth + 1) }
  loop 0
    invariant { 0 <= i <= _depth + 1 /\ block_size = pow2 i /\ num_blocks = (if i <= _depth then pow2 (_depth-i) else 0) }
    invariant { result_ = rsum (hlevel x _depth) 0 i }
    variant { _depth + 1 - i }
  ghost begin 0 { pow2_split _depth i }
  loop 1
    invariant { 0 <= j <= num_blocks /\ offset = j * block_size }
    invariant { result_ = rsum (hlevel x _depth) 0 i +. rsum (hblk x i) 0 j }
    invariant { last_ -> forall k. 0 <= k < j -> not unib x i k }
    variant { num_blocks - j }
  ghost begin 1 { block_in j num_blocks block_size (length x); assert { unib x i j <-> uniform x offset block_size }; assert { hblk x i j = if uniform x offset block_size then from_int block_size else 0.0 } }
  ghost after 1 { (if last_ then (assert { mixed x _depth i }; rsum_zero (hblk x i) 0 num_blocks; assert { result_ = rsum (hlevel x _depth) 0 i }; mixed_sum x _depth i (_depth+1); rsum_split (hlevel x _depth) 0 i (_depth + 1))) }

function hnco::function::Ridge::evaluate
  requires { is_bv x /\ _bv_size = length x }
  ensures { forall k. head_is x 1 k -> result = from_int (if forall i. k <= i < length x -> x[i] = 0 then length x + k else length x - weight x) }
  ghost decl it { if_ridge x it }

function hnco::function::Plateau::evaluate
  requires { is_bv x /\ _bv_size = length x }
  ensures { forall k. head_is x 1 k -> result = from_int (if k = length x then length x + 2 else if forall i. k <= i < length x -> x[i] = 0 then length x + 1 else length x - weight x) }
  ghost decl it { if_ridge x it }

file lib/hnco/functions/collection/four-peaks.cc

function head
  requires { is_bv x }
  ensures { head_is x b result }
  loop 0
    invariant { 0 <= count <= length x /\ iter = count /\ forall i. 0 <= i < count -> x[i] = b }
    variant { length x - count }

function tail
  requires { is_bv x }
  ensures { tail_is x b result }
  loop 0
    invariant { 0 <= count <= length x /\ iter = count /\ forall i. length x - count <= i < length x -> x[i] = b }
    variant { length x - count }

function hnco::function::FourPeaks::evaluate
  requires { is_bv x }
  ensures { forall h t. head_is x 1 h -> tail_is x 0 t -> result = from_int (max h t + (if h > _threshold /\ t > _threshold then length x else 0)) }

function hnco::function::SixPeaks::evaluate
  requires { is_bv x }
  ensures { forall g h t u. head_is x 0 g -> head_is x 1 h -> tail_is x 0 t -> tail_is x 1 u ->
    result = from_int (max (max g h) (max t u) + (if (g > _threshold /\ u > _threshold) \/ (h > _threshold /\ t > _threshold) then length x else 0)) }

file lib/hnco/functions/collection/jump.cc

function hnco::function::Jump::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result = from_int (if length x - _gap < weight x < length x then 0 else weight x) }

function hnco::function::DeceptiveJump::evaluate
  requires { is_bv x /\ length x = _bv_size }
  ensures { result = from_int (if length x - _gap < weight x < length x then length x - weight x else _gap + weight x) }

file lib/hnco/functions/collection/trap.cc
function hnco::function::Trap::evaluate
  requires { is_bv x /\ _trap_size >= 0 /\ _num_traps >= 0 /\ length x = _num_traps * _trap_size }
  ensures { result = rsum (trap x _trap_size) 0 _num_traps }
  loop 0
    invariant { result_ = rsum (trap x _trap_size) 0 $k /\ first = $k * _trap_size /\ last_ = first + _trap_size }
  ghost begin 0 { trap_in $k _num_traps _trap_size; weight_bounds x first (first + _trap_size) }
  ghost after 1 { assert { trap x _trap_size i = from_int (if weight_ = _trap_size then _trap_size else _trap_size - weight_ - 1) } }
  loop 1
    invariant { weight_ = sum x first j }

file lib/hnco/functions/collection/linear-function.cc

function hnco::function::LinearFunction::evaluate
  requires { is_bv x /\ length x = length _weights }
  ensures { result = lin _weights x }
  loop 0
    invariant { result_ = rsum (linterm _weights x) 0 $k }

file lib/hnco/functions/collection/qubo.cc
function hnco::function::Qubo::evaluate
  requires { is_bv x /\ length x = length _q /\ forall i. 0 <= i < length _q -> length _q[i] = length _q }
  ensures { result = rsum (qline x _q) 0 (length _q) }
  loop 0
    invariant { result_ = rsum (qline x _q) 0 $k }
  loop 1
    invariant { result_ = rsum (qline x _q) 0 i +. line[i] +. rsum (qterm x _q i) (i+1) $k }
  ghost begin 0 { assert { rsum (qline x _q) 0 (i+1) = rsum (qline x _q) 0 i +. qline x _q i } }
  ghost begin 1 { assert { rsum (qterm x _q i) (i+1) (j+1) = rsum (qterm x _q i) (i+1) j +. qterm x _q i j } }
  ghost after 1 { assert { qline x _q i = line[i] +. rsum (qterm x _q i) (i+1) (length _q) } }

file lib/hnco/functions/collection/max-sat.cc
function hnco::function::MaxSat::evaluate
  requires { is_bv x /\ good_lits _expression (length x) }
  ensures { result = rsum (fun i -> if exists j. 0 <= j < length _expression[i] /\ true_lit x _expression[i][j] then 1.0 else 0.0) 0 (length _expression) }
  loop 0
    invariant { result_ = rsum (fun i -> if exists j. 0 <= j < length _expression[i] /\ true_lit x _expression[i][j] then 1.0 else 0.0) 0 $k }
  loop 1
    invariant { result_ = rsum (fun i -> if exists j. 0 <= j < length _expression[i] /\ true_lit x _expression[i][j] then 1.0 else 0.0) 0 i }
    invariant { forall l. 0 <= l < $k -> not true_lit x _expression[i][l] }

function hnco::function::MaxNae3Sat::evaluate
  requires { is_bv x /\ good_lits _expression (length x) }
  ensures { result = rsum (fun i -> if ntrue x _expression[i] (length _expression[i]) <> 0 /\ ntrue x _expression[i] (length _expression[i]) <> 3 then 1.0 else 0.0) 0 (length _expression) }
  loop 0
    invariant { result_ = rsum (fun i -> if ntrue x _expression[i] (length _expression[i]) <> 0 /\ ntrue x _expression[i] (length _expression[i]) <> 3 then 1.0 else 0.0) 0 $k }
  loop 1
    invariant { num_true_literals = ntrue x _expression[$k0] $k }

file lib/hnco/functions/collection/equal-products.cc
function hnco::function::EqualProducts::evaluate
  requires { is_bv s /\ length s = length _numbers }
  ensures { result = -. mag (rprod (fun i -> if s[i] = 1 then _numbers[i] else 1.0) 0 (length s) -. rprod (fun i -> if s[i] = 0 then _numbers[i] else 1.0) 0 (length s)) }
  loop 0
    invariant { p1 = rprod (fun i -> if s[i] = 1 then _numbers[i] else 1.0) 0 $k /\ p0 = rprod (fun i -> if s[i] = 0 then _numbers[i] else 1.0) 0 $k }

file lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-1.cc
function hnco::function::NearestNeighborIsingModel1::evaluate
  requires { is_bv s /\ length s > 0 /\ length s = length _coupling /\ length s = length _field }
  ensures { result = ising1 _coupling _field _periodic_boundary_conditions s }
  loop 0
    invariant { result_ = rsum (chain _coupling s) 0 $k }
  loop 1
    invariant { result_ = rsum (chain _coupling s) 0 (length s - 1) +. closing _coupling _periodic_boundary_conditions s +. rsum (spinterm _field s) 0 $k }

file lib/hnco/functions/collection/walsh/walsh-expansion-1.cc
function hnco::function::WalshExpansion1::evaluate
  requires { is_bv s /\ length s = length _linear }
  ensures { result = spins _linear s }
  loop 0
    invariant { result_ = rsum (spinterm _linear s) 0 $k }

file lib/hnco/functions/collection/walsh/walsh-expansion-2.cc
function hnco::function::WalshExpansion2::evaluate
  requires { is_bv s /\ length s = length _linear /\ length s = length _quadratic /\ forall i. 0 <= i < length s -> length _quadratic[i] = i }
  ensures { result = spins _linear s +. rsum (w2line s _quadratic) 0 (length s) }
  loop 0
    invariant { result_ = rsum (spinterm _linear s) 0 $k }
  loop 1
    invariant { result_ = spins _linear s +. rsum (w2line s _quadratic) 0 $k }
  loop 2
    invariant { result_ = spins _linear s +. rsum (w2line s _quadratic) 0 i +. rsum (fun j -> pair_sgn s[j] s[i] _quadratic[i][j]) 0 $k }

file lib/hnco/functions/collection/tsp.cc
function hnco::function::Tsp::evaluate
  requires { length _distances > 0 /\ length permutation = length _distances /\ (forall i. 0 <= i < length permutation -> 0 <= permutation[i] < length permutation) /\ forall i. 0 <= i < length _distances -> length _distances[i] = length _distances }
  ensures { result = -. (rsum (fun i -> _distances[permutation[i]][permutation[i+1]]) 0 (length permutation - 1) +. _distances[permutation[length permutation - 1]][permutation[0]]) }
  loop 0
    invariant { result_ = rsum (fun i -> _distances[permutation[i]][permutation[i+1]]) 0 $k }

file lib/hnco/functions/collection/nk-landscape.cc
function hnco::function::NkLandscape::evaluate
  requires { is_bv s /\ length _neighbors = length s /\ length _partial_functions = length s /\ length s > 0 }
  requires { forall i. 0 <= i < length s -> length _neighbors[i] < 31 /\ length _partial_functions[i] = pow2 (length _neighbors[i]) /\ forall j. 0 <= j < length _neighbors[i] -> 0 <= _neighbors[i][j] < length s }
  ensures { result = rsum (fun i -> _partial_functions[i][nk_index s _neighbors[i] (length _neighbors[i])]) 0 (length s) /. from_int (length s) }
  loop 0
    invariant { result_ = rsum (fun i -> _partial_functions[i][nk_index s _neighbors[i] (length _neighbors[i])]) 0 $k }
  loop 1
    invariant { base = pow2 $k /\ index = nk_index s _neighbors[$k0] $k /\ 0 <= index < base }
  ghost begin 1 { shl1 $k; pow2_smono $k 64 }

file lib/hnco/functions/collection/partition.cc
function hnco::function::Partition::evaluate
  requires { is_bv s /\ length s = length _numbers }
  ensures { result = -. mag (rsum (fun i -> if s[i] = 1 then from_int _numbers[i] else 0.0) 0 (length s) -. rsum (fun i -> if s[i] = 0 then from_int _numbers[i] else 0.0) 0 (length s)) }
  loop 0
    invariant { from_int sum1 = rsum (fun i -> if s[i] = 1 then from_int _numbers[i] else 0.0) 0 $k /\ from_int sum0 = rsum (fun i -> if s[i] = 0 then from_int _numbers[i] else 0.0) 0 $k }

file lib/hnco/functions/collection/labs.cc
function hnco::function::Labs::compute_autocorrelation
  requires { is_bv x /\ length x = length _sequence }
  ensures { length _sequence = length (old _sequence) /\ _merit_factor_flag = old _merit_factor_flag }
  ensures { result = energy x (length x) }
  loop 0
    invariant { length _sequence = length x /\ forall j. 0 <= j < $k -> _sequence[j] = spin x[j] }
  loop 1
    invariant { vE = energy x $k /\ $k <= max 1 (length x) }
  loop 2
    invariant { vC = lag x $k1 $k }

function hnco::function::Labs::evaluate
  requires { is_bv x /\ length x = length _sequence }
  requires { [@expl:the autocorrelation is not zero] _merit_factor_flag -> energy x (length x) >. 0.0 }
  ensures { result = if _merit_factor_flag then from_int (length x * length x) /. (2.0 *. energy x (length x)) else -. energy x (length x) }

file lib/hnco/functions/collection/ising/nearest-neighbor-ising-model-2.cc
function hnco::function::NearestNeighborIsingModel2::evaluate
  requires { is_bv s /\ length _field > 0 /\ length _field[0] > 0 /\ length s = length _field * length _field[0] }
  requires { length _coupling_right = length _field /\ length _coupling_below = length _field /\ forall i. 0 <= i < length _field -> length _field[i] = length _field[0] /\ length _coupling_right[i] = length _field[0] /\ length _coupling_below[i] = length _field[0] }
  ensures { let r = length _field in let c = length _field[0] in result =
     rsum (i2R s _coupling_right c) 0 r +. rsum (i2B s _coupling_below c) 0 (r-1)
     +. (if _periodic_boundary_conditions then rsum (i2PR s _coupling_right c) 0 r +. rsum (i2PB s _coupling_below c r) 0 c else 0.0)
     +. rsum (i2F s _field c) 0 r }
  loop 0
    invariant { start = $k * num_columns /\ result_ = rsum (i2R s _coupling_right num_columns) 0 $k }
  ghost begin 0 { block_in $k num_rows num_columns (length s) }
  loop 1
    invariant { result_ = rsum (i2R s _coupling_right num_columns) 0 $k0 +. rsum (i2r_ s _coupling_right num_columns $k0) 0 $k }
  ghost begin 1 { assert { i2r_ s _coupling_right num_columns $k0 $k = pair_sgn s[start + $k] s[start+$k+1] _coupling_right[$k0][$k] } }
  loop 2
    invariant { start = $k * num_columns /\ result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 $k }
  ghost begin 2 { block_in $k num_rows num_columns (length s); block_in ($k+1) num_rows num_columns (length s) }
  loop 3
    invariant { result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 $k2 +. rsum (i2b_ s _coupling_below num_columns $k2) 0 $k }
  ghost begin 3 { assert { i2b_ s _coupling_below num_columns $k2 $k = pair_sgn s[start + $k] s[start+$k+num_columns] _coupling_below[$k2][$k] } }
  loop 4
    invariant { start = $k * num_columns /\ result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 (num_rows-1) +. rsum (i2PR s _coupling_right num_columns) 0 $k }
  ghost begin 4 { block_in $k num_rows num_columns (length s); assert { i2PR s _coupling_right num_columns $k = pair_sgn s[start+(num_columns-1)] s[start] _coupling_right[$k][num_columns-1] } }
  ghost after 4 { block_in (num_rows-1) num_rows num_columns (length s) }
  loop 5
    invariant { start = (num_rows-1) * num_columns /\ result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 (num_rows-1) +. rsum (i2PR s _coupling_right num_columns) 0 num_rows +. rsum (i2PB s _coupling_below num_columns num_rows) 0 $k }
  ghost begin 5 { assert { i2PB s _coupling_below num_columns num_rows $k = pair_sgn s[start + $k] s[$k] _coupling_below[num_rows-1][$k] } }
  loop 6
    invariant { start = $k * num_columns /\ result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 (num_rows-1) +. (if _periodic_boundary_conditions then rsum (i2PR s _coupling_right num_columns) 0 num_rows +. rsum (i2PB s _coupling_below num_columns num_rows) 0 num_columns else 0.0) +. rsum (i2F s _field num_columns) 0 $k }
  ghost begin 6 { block_in $k num_rows num_columns (length s) }
  loop 7
    invariant { result_ = rsum (i2R s _coupling_right num_columns) 0 num_rows +. rsum (i2B s _coupling_below num_columns) 0 (num_rows-1) +. (if _periodic_boundary_conditions then rsum (i2PR s _coupling_right num_columns) 0 num_rows +. rsum (i2PB s _coupling_below num_columns num_rows) 0 num_columns else 0.0) +. rsum (i2F s _field num_columns) 0 $k6 +. rsum (i2f_ s _field num_columns $k6) 0 $k }
  ghost begin 7 { assert { i2f_ s _field num_columns $k6 $k = sgn s[start + $k] _field[$k6][$k] } }

file lib/hnco/functions/collection/walsh/walsh-expansion.cc
function hnco::function::WalshExpansion::evaluate
  requires { is_bv x /\ forall i. 0 <= i < length _terms -> length _terms[i].walshTerm_feature = length x }
  ensures { result = rsum (fun i -> sgn (mod (bcommon x _terms[i].walshTerm_feature 0 (length x)) 2) _terms[i].walshTerm_coefficient) 0 (length _terms) }
  loop 0
    invariant { result_ = rsum (fun i -> sgn (mod (bcommon x _terms[i].walshTerm_feature 0 (length x)) 2) _terms[i].walshTerm_coefficient) 0 $k }
