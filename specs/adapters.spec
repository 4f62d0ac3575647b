# Function modifiers and adapters
use cpp.Pow2 bits.Bits gf2.Gf2 cpp.Shuffle cpp.Perm bits.BitsValue repr.Repr fn.Fn reals.RSum
import representation
record ComplexRepresentation<DyadicFloatRepresentation<double>>
record PermutationRepresentation
opaque Function fn
opaque UniversalFunction universal_fn
opaque Map fmapping
opaque Neighborhood nbh
opaque FunctionParser expression
opaque FunctionParserBase expression
opaque RealFunction real_fn
opaque IntegerFunction int_fn
opaque ComplexFunction complex_fn
opaque PermutationFunction perm_fn
extern Function::get_bv_size { fn_size {o} }
extern Function::get_maximum { fn_max {o} }
extern Function::has_known_maximum { fn_has_max {o} }
extern Function::evaluate { fn_evaluate {o} {0} }
extern Map::get_input_size { fm_inputs {o} }
extern Map::map { {1} := fm_image {o} {0} }
extern Neighborhood::map { {1} := nbh_draw {o} {0} }
extern FunctionParser::Eval { expr_eval {o} {0} }
extern FunctionParserBase::Eval { expr_eval {o} {0} }
extern RealFunction::evaluate { real_fn_evaluate {o} {0} }
extern IntegerFunction::evaluate { int_fn_evaluate {o} {0} }
extern ComplexFunction::evaluate { complex_fn_evaluate {o} {0} }
extern PermutationFunction::evaluate { perm_fn_evaluate {o} {0} }
extern UniversalFunction::evaluate { universal_fn_evaluate {o} {0} {1} {2} {3} {4} {5} }
define {
  type fmapping
  type nbh
  type expression
  type real_fn
  type int_fn
  type complex_fn
  type perm_fn
  type universal_fn
  function image_of fmapping (seq int) : seq int
  function inputs_of fmapping : int
  val fm_image (m: fmapping) (x: seq int) : seq int ensures { result = image_of m x }
  val fm_inputs (m: fmapping) : int ensures { result = inputs_of m }
  (* the points that a neighborhood may propose (C06) *)
  predicate around (n: nbh) (x y: seq int)
  val nbh_draw (n: nbh) (x: seq int) : seq int ensures { around n x result }
  function expr_of expression real : real
  val expr_eval (e: expression) (v: seq real) : real requires { 0 < length v } ensures { result = expr_of e v[0] }
  function real_fn_of real_fn (seq real) : real
  val real_fn_evaluate (f: real_fn) (x: seq real) : real ensures { result = real_fn_of f x }
  function int_fn_of int_fn (seq int) : int
  val int_fn_evaluate (f: int_fn) (x: seq int) : int ensures { result = int_fn_of f x }
  function complex_fn_of complex_fn (seq (pair real real)) : pair real real
  val complex_fn_evaluate (f: complex_fn) (x: seq (pair real real)) : pair real real ensures { result = complex_fn_of f x }
  function perm_fn_of perm_fn (seq int) : real
  val perm_fn_evaluate (f: perm_fn) (x: seq int) : real requires { is_perm x } ensures { result = perm_fn_of f x }
}
define {
  function isize (r: dyadicIntegerRepresentation_int_) : int = r.dyadicIntegerRepresentation_int__size
  predicate int_ok (r: dyadicIntegerRepresentation_int_) = bitlen (r.dyadicIntegerRepresentation_int__upper_bound - r.dyadicIntegerRepresentation_int__lower_bound) r.dyadicIntegerRepresentation_int__exact_size /\
    r.dyadicIntegerRepresentation_int__exact_size <= 31 /\ 1 <= r.dyadicIntegerRepresentation_int__size <= r.dyadicIntegerRepresentation_int__exact_size
  function idecode (r: dyadicIntegerRepresentation_int_) (bv: seq int) (start: int) : int =
    int_decode r.dyadicIntegerRepresentation_int__lower_bound r.dyadicIntegerRepresentation_int__upper_bound (value bv start (start + r.dyadicIntegerRepresentation_int__size) * pow2 (r.dyadicIntegerRepresentation_int__exact_size - r.dyadicIntegerRepresentation_int__size))
  let rec ghost function foffs (r: seq dyadicFloatRepresentation_double_) (k: int) : int variant { k } ensures { 0 <= result }
  = if k <= 0 then 0 else foffs r (k - 1) + length r[k-1].dyadicFloatRepresentation_double__lengths
  let rec lemma foffs_mono (r: seq dyadicFloatRepresentation_double_) (i k: int) requires { i <= k } ensures { foffs r i <= foffs r k } variant { k - i }
  = if i < k then foffs_mono r i (k - 1)
}
define {
  let rec ghost function ioffs (r: seq dyadicIntegerRepresentation_int_) (k: int) : int variant { k }
  = if k <= 0 then 0 else ioffs r (k - 1) + isize r[k-1]
  let rec ghost ioffs_mono (r: seq dyadicIntegerRepresentation_int_) (i k: int) requires { 0 <= i <= k <= length r } requires { forall j. 0 <= j < length r -> 0 <= isize r[j] } ensures { 0 <= ioffs r i <= ioffs r k } variant { k }
  = if 0 < k then begin if i < k then ioffs_mono r i (k - 1) else ioffs_mono r (k - 1) (k - 1) end
  function csize (r: complexRepresentation_DyadicFloatRepresentation_double__) : int = fsize r.complexRepresentation_DyadicFloatRepresentation_double___real_part + fsize r.complexRepresentation_DyadicFloatRepresentation_double___imaginary_part
  predicate complex_ok (r: complexRepresentation_DyadicFloatRepresentation_double__) = float_ok r.complexRepresentation_DyadicFloatRepresentation_double___real_part /\ float_ok r.complexRepresentation_DyadicFloatRepresentation_double___imaginary_part
  predicate cdecoded (r: complexRepresentation_DyadicFloatRepresentation_double__) (bv: seq int) (start: int) (z: pair real real) = z.pfst = fdecode r.complexRepresentation_DyadicFloatRepresentation_double___real_part bv start /\ z.psnd = fdecode r.complexRepresentation_DyadicFloatRepresentation_double___imaginary_part bv (start + fsize r.complexRepresentation_DyadicFloatRepresentation_double___real_part)
  let rec ghost function coffs (r: seq complexRepresentation_DyadicFloatRepresentation_double__) (k: int) : int variant { k }
  = if k <= 0 then 0 else coffs r (k - 1) + csize r[k-1]
  let rec ghost coffs_mono (r: seq complexRepresentation_DyadicFloatRepresentation_double__) (i k: int) requires { 0 <= i <= k <= length r } requires { forall j. 0 <= j < length r -> 0 <= csize r[j] } ensures { 0 <= coffs r i <= coffs r k } variant { k }
  = if 0 < k then begin if i < k then coffs_mono r i (k - 1) else coffs_mono r (k - 1) (k - 1) end
  function catsize (r: linearCategoricalRepresentation) : int = r.linearCategoricalRepresentation_ncols
  predicate cat_ok (r: linearCategoricalRepresentation) = 0 < r.linearCategoricalRepresentation_num_categories /\ 0 < r.linearCategoricalRepresentation_ncols /\ 0 < r.linearCategoricalRepresentation_nrows <= 31 /\ length r.linearCategoricalRepresentation_x = r.linearCategoricalRepresentation_ncols /\ length r.linearCategoricalRepresentation_y = r.linearCategoricalRepresentation_nrows /\ valid_mat r.linearCategoricalRepresentation_A /\ length r.linearCategoricalRepresentation_A = r.linearCategoricalRepresentation_nrows /\ length r.linearCategoricalRepresentation_A[0] = r.linearCategoricalRepresentation_ncols
  predicate cat_same (r s: linearCategoricalRepresentation) = r.linearCategoricalRepresentation_num_categories = s.linearCategoricalRepresentation_num_categories /\ r.linearCategoricalRepresentation_ncols = s.linearCategoricalRepresentation_ncols /\ r.linearCategoricalRepresentation_nrows = s.linearCategoricalRepresentation_nrows /\ r.linearCategoricalRepresentation_A = s.linearCategoricalRepresentation_A /\ length r.linearCategoricalRepresentation_x = length s.linearCategoricalRepresentation_x /\ length r.linearCategoricalRepresentation_y = length s.linearCategoricalRepresentation_y
  predicate cat_decoded (r: linearCategoricalRepresentation) (bv: seq int) (start c: int) = exists x. length x = r.linearCategoricalRepresentation_ncols /\ (forall i. 0 <= i < length x -> x[i] = bv[start + i]) /\ c = mod (value (mul r.linearCategoricalRepresentation_A x) 0 r.linearCategoricalRepresentation_nrows) r.linearCategoricalRepresentation_num_categories
  let ghost cat_intro (r s: linearCategoricalRepresentation) (bv: seq int) (start c: int)
    requires { cat_same r s /\ length s.linearCategoricalRepresentation_x = s.linearCategoricalRepresentation_ncols /\ (forall i. 0 <= i < s.linearCategoricalRepresentation_ncols -> s.linearCategoricalRepresentation_x[i] = bv[start + i]) /\ c = mod (value (mul s.linearCategoricalRepresentation_A s.linearCategoricalRepresentation_x) 0 s.linearCategoricalRepresentation_nrows) s.linearCategoricalRepresentation_num_categories }
    ensures { cat_decoded r bv start c }
  = ()
  let rec ghost function catoffs (r: seq linearCategoricalRepresentation) (k: int) : int variant { k }
  = if k <= 0 then 0 else catoffs r (k - 1) + catsize r[k-1]
  let rec ghost catoffs_mono (r: seq linearCategoricalRepresentation) (i k: int) requires { 0 <= i <= k <= length r } requires { forall j. 0 <= j < length r -> 0 <= catsize r[j] } ensures { 0 <= catoffs r i <= catoffs r k } variant { k }
  = if 0 < k then begin if i < k then catoffs_mono r i (k - 1) else catoffs_mono r (k - 1) (k - 1) end
  function psize (r: permutationRepresentation) : int = r.permutationRepresentation_size
  predicate perm_ok (r: permutationRepresentation) = 0 < length r.permutationRepresentation_values /\ 1 <= r.permutationRepresentation_element_size <= 31 /\ r.permutationRepresentation_size = length r.permutationRepresentation_values * r.permutationRepresentation_element_size
  predicate perm_same (r s: permutationRepresentation) = length r.permutationRepresentation_values = length s.permutationRepresentation_values /\ r.permutationRepresentation_element_size = s.permutationRepresentation_element_size /\ r.permutationRepresentation_size = s.permutationRepresentation_size
  function pcode (r: permutationRepresentation) (bv: seq int) (start i: int) : int = code bv start r.permutationRepresentation_element_size i
  (* p ranks the elements by their codes *)
  predicate perm_decoded (r: permutationRepresentation) (bv: seq int) (start: int) (p: seq int) = is_perm p /\ length p = length r.permutationRepresentation_values /\ forall i j. 0 <= i < j < length p -> pcode r bv start p[i] <= pcode r bv start p[j]
  let ghost perm_intro (r s: permutationRepresentation) (bv: seq int) (start: int) (p: seq int)
    requires { perm_same r s /\ is_perm p /\ length p = length s.permutationRepresentation_values }
    requires { forall i. 0 <= i < length s.permutationRepresentation_values -> s.permutationRepresentation_values[i] = code bv start s.permutationRepresentation_element_size i }
    requires { forall i j. 0 <= i < j < length p -> s.permutationRepresentation_values[p[i]] <= s.permutationRepresentation_values[p[j]] }
    ensures { perm_decoded r bv start p }
  = ()
  let rec ghost function poffs (r: seq permutationRepresentation) (k: int) : int variant { k }
  = if k <= 0 then 0 else poffs r (k - 1) + psize r[k-1]
  let rec ghost poffs_mono (r: seq permutationRepresentation) (i k: int) requires { 0 <= i <= k <= length r } requires { forall j. 0 <= j < length r -> 0 <= psize r[j] } ensures { 0 <= poffs r i <= poffs r k } variant { k }
  = if 0 < k then begin if i < k then poffs_mono r i (k - 1) else poffs_mono r (k - 1) (k - 1) end
  predicate integers (r: seq dyadicIntegerRepresentation_int_) (bv: seq int) (b k: int) (v: seq int) = forall i. 0 <= i < k -> v[i] = idecode r[i] bv (b + ioffs r i)
  let ghost integers_step (r: seq dyadicIntegerRepresentation_int_) (bv: seq int) (b k: int) (u v: seq int)
    requires { 0 <= k /\ integers r bv b k u /\ (forall i. 0 <= i < k -> v[i] = u[i]) /\ (let i = k in v[i] = idecode r[i] bv (b + ioffs r i)) }
    ensures { integers r bv b (k + 1) v }
  = ()
  predicate floats (r: seq dyadicFloatRepresentation_double_) (bv: seq int) (b k: int) (v: seq real) = forall i. 0 <= i < k -> v[i] = fdecode r[i] bv (b + foffs r i)
  let ghost floats_step (r: seq dyadicFloatRepresentation_double_) (bv: seq int) (b k: int) (u v: seq real)
    requires { 0 <= k /\ floats r bv b k u /\ (forall i. 0 <= i < k -> v[i] = u[i]) /\ (let i = k in v[i] = fdecode r[i] bv (b + foffs r i)) }
    ensures { floats r bv b (k + 1) v }
  = ()
  predicate complexs (r: seq complexRepresentation_DyadicFloatRepresentation_double__) (bv: seq int) (b k: int) (v: seq (pair real real)) = forall i. 0 <= i < k -> cdecoded r[i] bv (b + coffs r i) v[i]
  let ghost complexs_step (r: seq complexRepresentation_DyadicFloatRepresentation_double__) (bv: seq int) (b k: int) (u v: seq (pair real real))
    requires { 0 <= k /\ complexs r bv b k u /\ (forall i. 0 <= i < k -> v[i] = u[i]) /\ (let i = k in cdecoded r[i] bv (b + coffs r i) v[i]) }
    ensures { complexs r bv b (k + 1) v }
  = ()
  predicate categoricals (r: seq linearCategoricalRepresentation) (bv: seq int) (b k: int) (v: seq int) = forall i. 0 <= i < k -> cat_decoded r[i] bv (b + catoffs r i) v[i]
  let ghost categoricals_step (r: seq linearCategoricalRepresentation) (bv: seq int) (b k: int) (u v: seq int)
    requires { 0 <= k /\ categoricals r bv b k u /\ (forall i. 0 <= i < k -> v[i] = u[i]) /\ (let i = k in cat_decoded r[i] bv (b + catoffs r i) v[i]) }
    ensures { categoricals r bv b (k + 1) v }
  = ()
  predicate permutations (r: seq permutationRepresentation) (bv: seq int) (b k: int) (v: seq (seq int)) = forall i. 0 <= i < k -> perm_decoded r[i] bv (b + poffs r i) v[i]
  let ghost permutations_step (r: seq permutationRepresentation) (bv: seq int) (b k: int) (u v: seq (seq int))
    requires { 0 <= k /\ permutations r bv b k u /\ (forall i. 0 <= i < k -> v[i] = u[i]) /\ (let i = k in perm_decoded r[i] bv (b + poffs r i) v[i]) }
    ensures { permutations r bv b (k + 1) v }
  = ()
  function universal_of universal_fn (seq int) (seq int) (seq real) (seq (pair real real)) (seq int) (seq (seq int)) : real
  val universal_fn_evaluate (f: universal_fn) (b i: seq int) (r: seq real) (z: seq (pair real real)) (c: seq int) (p: seq (seq int)) : real ensures { result = universal_of f b i r z c p }
}
file @specs/tu/adapters.cc
function hnco::function::modifier::OppositeFunction::evaluate
  ensures { result = -. value_of _function bv /\ _function = old _function }
function hnco::function::modifier::OppositeFunction::get_bv_size
  ensures { result = size_of _function }
function hnco::function::modifier::FunctionMapComposition::evaluate
  ensures { result = value_of _function (image_of _map bv) /\ _function = old _function /\ _map = old _map }
function hnco::function::modifier::FunctionMapComposition::get_bv_size
  ensures { result = inputs_of _map }
function hnco::function::modifier::PriorNoise::evaluate
  ensures { exists y. around _neighborhood x y /\ result = value_of _function y }
  ensures { _function = old _function /\ _neighborhood = old _neighborhood }
function hnco::function::modifier::PriorNoise::get_bv_size
  ensures { result = size_of _function }
function hnco::function::modifier::PriorNoise::get_maximum
  ensures { result = max_of _function }
function hnco::function::modifier::PriorNoise::has_known_maximum
  ensures { result = has_max _function }
function hnco::function::modifier::ParsedModifier::evaluate
  requires { length _values = 1 }
  ensures { result = expr_of _fparser (value_of _function x) /\ _function = old _function /\ _fparser = old _fparser }
function hnco::function::modifier::ParsedModifier::get_bv_size
  ensures { result = size_of _function }
function hnco::function::modifier::AdditiveGaussianNoise::evaluate
  ensures { (exists z. gauss _dist z /\ result = value_of _function bv +. z) /\ _dist = old _dist /\ _function = old _function }

function hnco::function::ScalarToDouble<double>::operator()(double)
  ensures { result = x }
function hnco::function::ScalarToDouble<int>::operator()(int)
  ensures { result = from_int x }
function hnco::function::AbsoluteValue<double>::operator()(double)
  ensures { result = if x <. 0.0 then -. x else x }
function hnco::function::OppositeAbsoluteValue<double>::operator()(double)
  ensures { result = if x <. 0.0 then x else -. x }
function hnco::function::SquaredMagnitude<double>::operator()(std::complex<double>)
  ensures { result = z.pfst *. z.pfst +. z.psnd *. z.psnd }
function hnco::function::OppositeSquaredMagnitude<double>::operator()(std::complex<double>)
  ensures { result = -. (z.pfst *. z.pfst +. z.psnd *. z.psnd) }

function hnco::function::MultivariateFunctionAdapter<hnco::client::RealFunction, hnco::representation::DyadicFloatRepresentation<double>, hnco::function::ScalarToDouble<double>>::unpack
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> float_ok _representations[i]) /\ foffs _representations (length _representations) <= length bv }
  ensures { _representations = old _representations /\ _function = old _function /\ length _variables = length (old _variables) }
  ghost entry { let ghost r0 = _representations in }
  ghost end 0 { assert { _representations == r0 }; assert { _variables[$k] = fdecode r0[$k] bv (foffs r0 $k) } }
  ghost begin 0 { foffs_mono r0 ($k + 1) (length r0) }
  ensures { forall i. 0 <= i < length _variables -> _variables[i] = fdecode _representations[i] bv (foffs _representations i) }
  loop 0
    invariant { start = foffs r0 $k /\ length _variables = length (old _variables) /\ _representations = r0 }
    invariant { forall i. 0 <= i < $k -> _variables[i] = fdecode r0[i] bv (foffs r0 i) }
    variant { length _variables - $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::RealFunction, hnco::representation::DyadicFloatRepresentation<double>, hnco::function::ScalarToDouble<double>>::get_bv_size
  ensures { result = foffs _representations (length _representations) }
  loop 0
    invariant { result_ = foffs _representations $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::RealFunction, hnco::representation::DyadicFloatRepresentation<double>, hnco::function::ScalarToDouble<double>>::evaluate
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> float_ok _representations[i]) /\ foffs _representations (length _representations) = length bv }
  ensures { _representations = old _representations /\ _function = old _function }
  ensures { exists v. length v = length _representations /\ (forall i. 0 <= i < length v -> v[i] = fdecode _representations[i] bv (foffs _representations i)) /\ result = real_fn_of _function v }

function hnco::function::MultivariateFunctionAdapter<hnco::client::IntegerFunction, hnco::representation::DyadicIntegerRepresentation<int>, hnco::function::ScalarToDouble<int>>::unpack
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> int_ok _representations[i]) /\ ioffs _representations (length _representations) <= length bv }
  ensures { _representations = old _representations /\ _function = old _function /\ length _variables = length (old _variables) }
  ensures { forall i. 0 <= i < length _variables -> _variables[i] = idecode _representations[i] bv (ioffs _representations i) }
  ghost entry { let ghost r0 = _representations in }
  ghost begin 0 { ioffs_mono r0 ($k + 1) (length r0); ioffs_mono r0 $k (length r0) }
  ghost end 0 { assert { _representations == r0 }; assert { _variables[$k] = idecode r0[$k] bv (ioffs r0 $k) } }
  loop 0
    invariant { start = ioffs r0 $k /\ length _variables = length (old _variables) /\ _representations = r0 }
    invariant { forall i. 0 <= i < $k -> _variables[i] = idecode r0[i] bv (ioffs r0 i) }
    variant { length _variables - $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::IntegerFunction, hnco::representation::DyadicIntegerRepresentation<int>, hnco::function::ScalarToDouble<int>>::get_bv_size
  ensures { result = ioffs _representations (length _representations) }
  loop 0
    invariant { result_ = ioffs _representations $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::IntegerFunction, hnco::representation::DyadicIntegerRepresentation<int>, hnco::function::ScalarToDouble<int>>::evaluate
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> int_ok _representations[i]) /\ ioffs _representations (length _representations) = length bv }
  ensures { _representations = old _representations /\ _function = old _function }
  ensures { exists v. length v = length _representations /\ (forall i. 0 <= i < length v -> v[i] = idecode _representations[i] bv (ioffs _representations i)) /\ result = from_int (int_fn_of _function v) }

function hnco::function::MultivariateFunctionAdapter<hnco::client::ComplexFunction, hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>, hnco::function::SquaredMagnitude<double>>::unpack
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> complex_ok _representations[i]) /\ coffs _representations (length _representations) <= length bv }
  ensures { _representations = old _representations /\ _function = old _function /\ length _variables = length (old _variables) }
  ensures { forall i. 0 <= i < length _variables -> cdecoded _representations[i] bv (coffs _representations i) _variables[i] }
  ghost entry { let ghost r0 = _representations in }
  ghost begin 0 { coffs_mono r0 ($k + 1) (length r0); coffs_mono r0 $k (length r0) }
  ghost end 0 { assert { _representations == r0 } }
  loop 0
    invariant { start = coffs r0 $k /\ length _variables = length (old _variables) /\ _representations = r0 }
    invariant { forall i. 0 <= i < $k -> cdecoded r0[i] bv (coffs r0 i) _variables[i] }
    variant { length _variables - $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::ComplexFunction, hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>, hnco::function::SquaredMagnitude<double>>::get_bv_size
  ensures { result = coffs _representations (length _representations) }
  loop 0
    invariant { result_ = coffs _representations $k }
function hnco::function::MultivariateFunctionAdapter<hnco::client::ComplexFunction, hnco::representation::ComplexRepresentation<hnco::representation::DyadicFloatRepresentation<double>>, hnco::function::SquaredMagnitude<double>>::evaluate
  requires { length _variables = length _representations /\ (forall i. 0 <= i < length _representations -> complex_ok _representations[i]) /\ coffs _representations (length _representations) = length bv }
  ensures { _representations = old _representations /\ _function = old _function }
  ensures { exists v. length v = length _representations /\ (forall i. 0 <= i < length v -> cdecoded _representations[i] bv (coffs _representations i) v[i]) /\ result = (let z = complex_fn_of _function v in z.pfst *. z.pfst +. z.psnd *. z.psnd) }

function hnco::function::PermutationFunctionAdapter<hnco::client::PermutationFunction>::evaluate
  requires { perm_ok _representation /\ length _permutation = length _representation.permutationRepresentation_values /\ length bv = psize _representation }
  ensures { perm_same _representation (old _representation) /\ _function = old _function }
  ensures { exists p. perm_decoded _representation bv 0 p /\ result = perm_fn_of _function p }
function hnco::function::PermutationFunctionAdapter<hnco::client::PermutationFunction>::get_bv_size
  ensures { result = psize _representation }

function hnco::function::UniversalFunctionAdapter::unpack
  hide integers floats complexs categoricals permutations int_decode value code cat_decoded perm_decoded
  requires { is_bv bv /\ length _integer_vars = length _integer_reps /\ (forall i. 0 <= i < length _integer_reps -> int_ok _integer_reps[i]) /\ length _float_vars = length _float_reps /\ (forall i. 0 <= i < length _float_reps -> float_ok _float_reps[i]) /\ length _complex_vars = length _complex_reps /\ (forall i. 0 <= i < length _complex_reps -> complex_ok _complex_reps[i]) /\ length _categorical_vars = length _categorical_reps /\ (forall i. 0 <= i < length _categorical_reps -> cat_ok _categorical_reps[i]) /\ length _permutation_vars = length _permutation_reps /\ (forall i. 0 <= i < length _permutation_reps -> perm_ok _permutation_reps[i]) }
  requires { forall i. 0 <= i < length _permutation_vars -> length _permutation_vars[i] = length _permutation_reps[i].permutationRepresentation_values }
  requires { _bv_size = length _boolean_vars + ioffs _integer_reps (length _integer_reps) + foffs _float_reps (length _float_reps) + coffs _complex_reps (length _complex_reps) + catoffs _categorical_reps (length _categorical_reps) + poffs _permutation_reps (length _permutation_reps) = length bv }
  ensures { _function = old _function /\ _bv_size = old _bv_size /\ length _boolean_vars = length (old _boolean_vars) /\ _integer_reps = old _integer_reps /\ length _integer_vars = length (old _integer_vars) /\ _float_reps = old _float_reps /\ length _float_vars = length (old _float_vars) /\ _complex_reps = old _complex_reps /\ length _complex_vars = length (old _complex_vars) /\ length _categorical_reps = length (old _categorical_reps) /\ (forall i. 0 <= i < length _categorical_reps -> cat_same _categorical_reps[i] (old _categorical_reps)[i]) /\ length _categorical_vars = length (old _categorical_vars) /\ length _permutation_reps = length (old _permutation_reps) /\ (forall i. 0 <= i < length _permutation_reps -> perm_same _permutation_reps[i] (old _permutation_reps)[i]) /\ length _permutation_vars = length (old _permutation_vars) }
  ensures { forall i. 0 <= i < length _boolean_vars -> _boolean_vars[i] = bv[i] }
  ensures { integers (old _integer_reps) bv (length _boolean_vars) (length _integer_vars) _integer_vars }
  ensures { floats (old _float_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps))) (length _float_vars) _float_vars }
  ensures { complexs (old _complex_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps))) (length _complex_vars) _complex_vars }
  ensures { categoricals (old _categorical_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps)) + coffs (old _complex_reps) (length (old _complex_reps))) (length _categorical_vars) _categorical_vars }
  ensures { permutations (old _permutation_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps)) + coffs (old _complex_reps) (length (old _complex_reps)) + catoffs (old _categorical_reps) (length (old _categorical_reps))) (length _permutation_vars) _permutation_vars }
  ghost entry { let ghost r_integer = _integer_reps in let ghost r_float = _float_reps in let ghost r_complex = _complex_reps in let ghost r_categorical = _categorical_reps in let ghost r_permutation = _permutation_reps in let ghost b_integer = length _boolean_vars in let ghost b_float = b_integer + ioffs r_integer (length r_integer) in let ghost b_complex = b_float + foffs r_float (length r_float) in let ghost b_categorical = b_complex + coffs r_complex (length r_complex) in let ghost b_permutation = b_categorical + catoffs r_categorical (length r_categorical) in ioffs_mono r_integer 0 (length r_integer); foffs_mono r_float 0 (length r_float); coffs_mono r_complex 0 (length r_complex); catoffs_mono r_categorical 0 (length r_categorical); poffs_mono r_permutation 0 (length r_permutation); }
  ghost begin 0 { let ghost v0_integer = _integer_vars in ioffs_mono r_integer $k (length r_integer); ioffs_mono r_integer ($k + 1) (length r_integer) }
  ghost end 0 { assert { _integer_reps == r_integer }; integers_step r_integer bv b_integer $k v0_integer _integer_vars }
  loop 0
    invariant { start = b_integer + ioffs r_integer $k /\ length _integer_vars = length r_integer /\ _integer_reps = r_integer }
    invariant { integers r_integer bv b_integer $k _integer_vars }
    variant { length r_integer - $k }
  ghost begin 1 { let ghost v0_float = _float_vars in foffs_mono r_float $k (length r_float); foffs_mono r_float ($k + 1) (length r_float) }
  ghost end 1 { assert { _float_reps == r_float }; floats_step r_float bv b_float $k v0_float _float_vars }
  loop 1
    invariant { start = b_float + foffs r_float $k /\ length _float_vars = length r_float /\ _float_reps = r_float }
    invariant { floats r_float bv b_float $k _float_vars }
    variant { length r_float - $k }
  ghost begin 2 { let ghost v0_complex = _complex_vars in coffs_mono r_complex $k (length r_complex); coffs_mono r_complex ($k + 1) (length r_complex) }
  ghost end 2 { assert { _complex_reps == r_complex }; complexs_step r_complex bv b_complex $k v0_complex _complex_vars }
  loop 2
    invariant { start = b_complex + coffs r_complex $k /\ length _complex_vars = length r_complex /\ _complex_reps = r_complex }
    invariant { complexs r_complex bv b_complex $k _complex_vars }
    variant { length r_complex - $k }
  ghost begin 3 { let ghost v0_categorical = _categorical_vars in catoffs_mono r_categorical $k (length r_categorical); catoffs_mono r_categorical ($k + 1) (length r_categorical) }
  ghost end 3 { cat_intro r_categorical[$k] _categorical_reps[$k] bv (b_categorical + catoffs r_categorical $k) _categorical_vars[$k]; categoricals_step r_categorical bv b_categorical $k v0_categorical _categorical_vars }
  loop 3
    invariant { start = b_categorical + catoffs r_categorical $k /\ length _categorical_vars = length r_categorical /\ length _categorical_reps = length r_categorical /\ (forall i. 0 <= i < length r_categorical -> cat_same _categorical_reps[i] r_categorical[i]) }
    invariant { categoricals r_categorical bv b_categorical $k _categorical_vars }
    variant { length r_categorical - $k }
  ghost begin 4 { let ghost v0_permutation = _permutation_vars in poffs_mono r_permutation $k (length r_permutation); poffs_mono r_permutation ($k + 1) (length r_permutation); assert { perm_ok r_permutation[$k] /\ perm_same _permutation_reps[$k] r_permutation[$k] }; assert { length _permutation_reps[$k].permutationRepresentation_values * _permutation_reps[$k].permutationRepresentation_element_size = psize r_permutation[$k] } }
  ghost end 4 { perm_intro r_permutation[$k] _permutation_reps[$k] bv (b_permutation + poffs r_permutation $k) _permutation_vars[$k]; permutations_step r_permutation bv b_permutation $k v0_permutation _permutation_vars }
  loop 4
    invariant { start = b_permutation + poffs r_permutation $k /\ length _permutation_vars = length r_permutation /\ length _permutation_reps = length r_permutation /\ (forall i. 0 <= i < length r_permutation -> perm_same _permutation_reps[i] r_permutation[i]) }
    invariant { permutations r_permutation bv b_permutation $k _permutation_vars }
    invariant { forall i. 0 <= i < length _permutation_vars -> length _permutation_vars[i] = length r_permutation[i].permutationRepresentation_values }
    variant { length r_permutation - $k }
function hnco::function::UniversalFunctionAdapter::get_bv_size
  ensures { result = _bv_size }
function hnco::function::UniversalFunctionAdapter::evaluate
  requires { is_bv bv /\ length _integer_vars = length _integer_reps /\ (forall i. 0 <= i < length _integer_reps -> int_ok _integer_reps[i]) /\ length _float_vars = length _float_reps /\ (forall i. 0 <= i < length _float_reps -> float_ok _float_reps[i]) /\ length _complex_vars = length _complex_reps /\ (forall i. 0 <= i < length _complex_reps -> complex_ok _complex_reps[i]) /\ length _categorical_vars = length _categorical_reps /\ (forall i. 0 <= i < length _categorical_reps -> cat_ok _categorical_reps[i]) /\ length _permutation_vars = length _permutation_reps /\ (forall i. 0 <= i < length _permutation_reps -> perm_ok _permutation_reps[i]) }
  requires { forall i. 0 <= i < length _permutation_vars -> length _permutation_vars[i] = length _permutation_reps[i].permutationRepresentation_values }
  requires { _bv_size = length _boolean_vars + ioffs _integer_reps (length _integer_reps) + foffs _float_reps (length _float_reps) + coffs _complex_reps (length _complex_reps) + catoffs _categorical_reps (length _categorical_reps) + poffs _permutation_reps (length _permutation_reps) = length bv }
  ensures { result = universal_of _function _boolean_vars _integer_vars _float_vars _complex_vars _categorical_vars _permutation_vars }
  ensures { forall i. 0 <= i < length _boolean_vars -> _boolean_vars[i] = bv[i] }
  ensures { integers (old _integer_reps) bv (length _boolean_vars) (length _integer_vars) _integer_vars }
  ensures { floats (old _float_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps))) (length _float_vars) _float_vars }
  ensures { complexs (old _complex_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps))) (length _complex_vars) _complex_vars }
  ensures { categoricals (old _categorical_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps)) + coffs (old _complex_reps) (length (old _complex_reps))) (length _categorical_vars) _categorical_vars }
  ensures { permutations (old _permutation_reps) bv (length _boolean_vars + ioffs (old _integer_reps) (length (old _integer_reps)) + foffs (old _float_reps) (length (old _float_reps)) + coffs (old _complex_reps) (length (old _complex_reps)) + catoffs (old _categorical_reps) (length (old _categorical_reps))) (length _permutation_vars) _permutation_vars }
