# Walsh moments, Gibbs sampling, herding
use bits.Bits cpp.Perm
record TriangularMoment
record FullMoment
extern Generator::uniform { random_real () }
define {
  function sg (x: seq int) (i: int) : real = if x[i] = 0 then 1.0 else -. 1.0
  predicate tri (f: seq real) (s: seq (seq real)) = length s = length f /\ forall i. 0 <= i < length s -> length s[i] = i
  predicate sqr (f: seq real) (s: seq (seq real)) = length s = length f /\ forall i. 0 <= i < length s -> length s[i] = length f
  (* first and second moments after the rows below k have been treated, by the relation r (old, new) *)
  predicate unit_range (f: seq real) (s: seq (seq real)) = (forall i. 0 <= i < length f -> -. 1.0 <=. f[i] <=. 1.0) /\ (forall i j. 0 <= j < i < length f -> -. 1.0 <=. s[i][j] <=. 1.0)
  predicate range (m: real) (f: seq real) (s: seq (seq real)) = (forall i. 0 <= i < length f -> -. m <=. f[i] <=. m) /\ (forall i j. 0 <= j < i < length f -> -. m <=. s[i][j] <=. m)
  predicate symmetric (n: int) (s: seq (seq real)) = forall i j. 0 <= j < i < n -> s[j][i] = s[i][j]
  function toward (a b r: real) : real = a +. r *. (b -. a)
  function mclip (m v: real) : real = if v >. 1.0 -. m then 1.0 -. m else if v <. m -. 1.0 then m -. 1.0 else v
}
file lib/hnco/algorithms/walsh-moment/walsh-moment.cc
function hnco::algorithm::walsh_moment::TriangularMoment::init
  requires { tri first_moment second_moment }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { (forall i. 0 <= i < length first_moment -> first_moment[i] = 0.0) /\ forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = 0.0 }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) /\ forall i. 0 <= i < length first_moment -> first_moment[i] = 0.0 }
    invariant { forall i j. 0 <= j < i < $k -> second_moment[i][j] = 0.0 }

function hnco::algorithm::walsh_moment::TriangularMoment::add
  requires { tri first_moment second_moment /\ length bv = length first_moment /\ is_bv bv }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = (old first_moment)[i] +. sg bv i }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = (old second_moment)[i][j] +. sg bv i *. sg bv j }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then (old first_moment)[i] +. sg bv i else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }
  loop 2
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::TriangularMoment::average
  requires { tri first_moment second_moment /\ count > 0 /\ range (from_int count) first_moment second_moment }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) /\ unit_range first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] *. from_int count = (old first_moment)[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] *. from_int count = (old second_moment)[i][j] }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> if i < $k then first_moment[i] = (old first_moment)[i] /. from_int count /\ -. 1.0 <=. first_moment[i] <=. 1.0 else first_moment[i] = (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> if i < $k then second_moment[i][j] = (old second_moment)[i][j] /. from_int count /\ -. 1.0 <=. second_moment[i][j] <=. 1.0 else second_moment[i][j] = (old second_moment)[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> if i < $k0 || (i = $k0 && j < $k) then second_moment[i][j] = (old second_moment)[i][j] /. from_int count /\ -. 1.0 <=. second_moment[i][j] <=. 1.0 else second_moment[i][j] = (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::TriangularMoment::update(hnco::algorithm::walsh_moment::TriangularMoment const&, double)
  requires { tri first_moment second_moment /\ tri tm.triangularMoment_first_moment tm.triangularMoment_second_moment /\ length tm.triangularMoment_first_moment = length first_moment }
  requires { 0.0 <=. rate <=. 1.0 /\ unit_range first_moment second_moment /\ unit_range tm.triangularMoment_first_moment tm.triangularMoment_second_moment }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) /\ unit_range first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = toward (old first_moment)[i] tm.triangularMoment_first_moment[i] rate }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = toward (old second_moment)[i][j] tm.triangularMoment_second_moment[i][j] rate }
  ghost entry { let ghost g = pure { tm.triangularMoment_first_moment } in let ghost h = pure { tm.triangularMoment_second_moment } in }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then toward (old first_moment)[i] g[i] rate else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then toward (old second_moment)[i][j] h[i][j] rate else (old second_moment)[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then toward (old second_moment)[i][j] h[i][j] rate else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::TriangularMoment::update(hnco::algorithm::walsh_moment::TriangularMoment const&, hnco::algorithm::walsh_moment::TriangularMoment const&, double)
  requires { tri first_moment second_moment /\ tri tm1.triangularMoment_first_moment tm1.triangularMoment_second_moment /\ length tm1.triangularMoment_first_moment = length first_moment /\ tri tm2.triangularMoment_first_moment tm2.triangularMoment_second_moment /\ length tm2.triangularMoment_first_moment = length first_moment }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = (old first_moment)[i] +. rate *. (tm1.triangularMoment_first_moment[i] -. tm2.triangularMoment_first_moment[i]) }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = (old second_moment)[i][j] +. rate *. (tm1.triangularMoment_second_moment[i][j] -. tm2.triangularMoment_second_moment[i][j]) }
  ghost entry { let ghost g1 = pure { tm1.triangularMoment_first_moment } in let ghost h1 = pure { tm1.triangularMoment_second_moment } in let ghost g2 = pure { tm2.triangularMoment_first_moment } in let ghost h2 = pure { tm2.triangularMoment_second_moment } in }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then (old first_moment)[i] +. rate *. (g1[i] -. g2[i]) else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then (old second_moment)[i][j] +. rate *. (h1[i][j] -. h2[i][j]) else (old second_moment)[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. rate *. (h1[i][j] -. h2[i][j]) else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::TriangularMoment::scaled_difference
  requires { tri first_moment second_moment /\ tri tm1.triangularMoment_first_moment tm1.triangularMoment_second_moment /\ length tm1.triangularMoment_first_moment = length first_moment /\ tri tm2.triangularMoment_first_moment tm2.triangularMoment_second_moment /\ length tm2.triangularMoment_first_moment = length first_moment }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = lambda *. tm1.triangularMoment_first_moment[i] -. tm2.triangularMoment_first_moment[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = lambda *. tm1.triangularMoment_second_moment[i][j] -. tm2.triangularMoment_second_moment[i][j] }
  ghost entry { let ghost g1 = pure { tm1.triangularMoment_first_moment } in let ghost h1 = pure { tm1.triangularMoment_second_moment } in let ghost g2 = pure { tm2.triangularMoment_first_moment } in let ghost h2 = pure { tm2.triangularMoment_second_moment } in }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < $k -> first_moment[i] = lambda *. g1[i] -. g2[i] }
    invariant { forall i j. 0 <= j < i < $k -> second_moment[i][j] = lambda *. h1[i][j] -. h2[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> i < $k0 || (i = $k0 && j < $k) -> second_moment[i][j] = lambda *. h1[i][j] -. h2[i][j] }

function hnco::algorithm::walsh_moment::TriangularMoment::bound
  requires { tri first_moment second_moment /\ 0.0 <=. margin <. 1.0 }
  ensures { tri first_moment second_moment /\ length first_moment = length (old first_moment) /\ range (1.0 -. margin) first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = mclip margin (old first_moment)[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = mclip margin (old second_moment)[i][j] }
  loop 0
    invariant { tri first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then mclip margin (old first_moment)[i] else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then mclip margin (old second_moment)[i][j] else (old second_moment)[i][j] }
  loop 1
    invariant { tri first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then mclip margin (old second_moment)[i][j] else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::init
  requires { sqr first_moment second_moment }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { (forall i. 0 <= i < length first_moment -> first_moment[i] = 0.0) /\ forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = 0.0 }
  loop 0
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) /\ forall i. 0 <= i < length first_moment -> first_moment[i] = 0.0 }
    invariant { forall i j. 0 <= j < i < $k -> second_moment[i][j] = 0.0 }

function hnco::algorithm::walsh_moment::FullMoment::add
  requires { sqr first_moment second_moment /\ length bv = length first_moment /\ is_bv bv }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = (old first_moment)[i] +. sg bv i }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = (old second_moment)[i][j] +. sg bv i *. sg bv j }
  loop 0
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then (old first_moment)[i] +. sg bv i else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }
  loop 1
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }
  loop 2
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. sg bv i *. sg bv j else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::average
  requires { sqr first_moment second_moment /\ count > 0 /\ range (from_int count) first_moment second_moment }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) /\ unit_range first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] *. from_int count = (old first_moment)[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] *. from_int count = (old second_moment)[i][j] }
  ensures { symmetric (length first_moment) second_moment }
  loop 0
    invariant { symmetric $k second_moment }
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> if i < $k then first_moment[i] = (old first_moment)[i] /. from_int count /\ -. 1.0 <=. first_moment[i] <=. 1.0 else first_moment[i] = (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> if i < $k then second_moment[i][j] = (old second_moment)[i][j] /. from_int count /\ -. 1.0 <=. second_moment[i][j] <=. 1.0 else second_moment[i][j] = (old second_moment)[i][j] }
  loop 1
    invariant { symmetric $k0 second_moment /\ forall j. 0 <= j < $k -> second_moment[j][$k0] = second_moment[$k0][j] }
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> if i < $k0 || (i = $k0 && j < $k) then second_moment[i][j] = (old second_moment)[i][j] /. from_int count /\ -. 1.0 <=. second_moment[i][j] <=. 1.0 else second_moment[i][j] = (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::update(hnco::algorithm::walsh_moment::FullMoment const&, double)
  requires { sqr first_moment second_moment /\ sqr fm.fullMoment_first_moment fm.fullMoment_second_moment /\ length fm.fullMoment_first_moment = length first_moment }
  requires { 0.0 <=. rate <=. 1.0 /\ unit_range first_moment second_moment /\ unit_range fm.fullMoment_first_moment fm.fullMoment_second_moment }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) /\ unit_range first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = toward (old first_moment)[i] fm.fullMoment_first_moment[i] rate }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = toward (old second_moment)[i][j] fm.fullMoment_second_moment[i][j] rate }
  ensures { symmetric (length first_moment) second_moment }
  ghost entry { let ghost g = pure { fm.fullMoment_first_moment } in let ghost h = pure { fm.fullMoment_second_moment } in }
  loop 0
    invariant { symmetric $k second_moment }
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then toward (old first_moment)[i] g[i] rate else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then toward (old second_moment)[i][j] h[i][j] rate else (old second_moment)[i][j] }
  loop 1
    invariant { symmetric $k0 second_moment /\ forall j. 0 <= j < $k -> second_moment[j][$k0] = second_moment[$k0][j] }
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then toward (old second_moment)[i][j] h[i][j] rate else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::update(hnco::algorithm::walsh_moment::FullMoment const&, hnco::algorithm::walsh_moment::FullMoment const&, double)
  requires { sqr first_moment second_moment /\ sqr fm1.fullMoment_first_moment fm1.fullMoment_second_moment /\ length fm1.fullMoment_first_moment = length first_moment /\ sqr fm2.fullMoment_first_moment fm2.fullMoment_second_moment /\ length fm2.fullMoment_first_moment = length first_moment }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = (old first_moment)[i] +. rate *. (fm1.fullMoment_first_moment[i] -. fm2.fullMoment_first_moment[i]) }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = (old second_moment)[i][j] +. rate *. (fm1.fullMoment_second_moment[i][j] -. fm2.fullMoment_second_moment[i][j]) }
  ensures { symmetric (length first_moment) second_moment }
  ghost entry { let ghost g1 = pure { fm1.fullMoment_first_moment } in let ghost h1 = pure { fm1.fullMoment_second_moment } in let ghost g2 = pure { fm2.fullMoment_first_moment } in let ghost h2 = pure { fm2.fullMoment_second_moment } in }
  loop 0
    invariant { symmetric $k second_moment }
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then (old first_moment)[i] +. rate *. (g1[i] -. g2[i]) else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then (old second_moment)[i][j] +. rate *. (h1[i][j] -. h2[i][j]) else (old second_moment)[i][j] }
  loop 1
    invariant { symmetric $k0 second_moment /\ forall j. 0 <= j < $k -> second_moment[j][$k0] = second_moment[$k0][j] }
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then (old second_moment)[i][j] +. rate *. (h1[i][j] -. h2[i][j]) else (old second_moment)[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::scaled_difference
  requires { sqr first_moment second_moment /\ sqr fm1.fullMoment_first_moment fm1.fullMoment_second_moment /\ length fm1.fullMoment_first_moment = length first_moment /\ sqr fm2.fullMoment_first_moment fm2.fullMoment_second_moment /\ length fm2.fullMoment_first_moment = length first_moment }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = lambda *. fm1.fullMoment_first_moment[i] -. fm2.fullMoment_first_moment[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = lambda *. fm1.fullMoment_second_moment[i][j] -. fm2.fullMoment_second_moment[i][j] }
  ensures { symmetric (length first_moment) second_moment }
  ghost entry { let ghost g1 = pure { fm1.fullMoment_first_moment } in let ghost h1 = pure { fm1.fullMoment_second_moment } in let ghost g2 = pure { fm2.fullMoment_first_moment } in let ghost h2 = pure { fm2.fullMoment_second_moment } in }
  loop 0
    invariant { symmetric $k second_moment }
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < $k -> first_moment[i] = lambda *. g1[i] -. g2[i] }
    invariant { forall i j. 0 <= j < i < $k -> second_moment[i][j] = lambda *. h1[i][j] -. h2[i][j] }
  loop 1
    invariant { symmetric $k0 second_moment /\ forall j. 0 <= j < $k -> second_moment[j][$k0] = second_moment[$k0][j] }
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> i < $k0 || (i = $k0 && j < $k) -> second_moment[i][j] = lambda *. h1[i][j] -. h2[i][j] }

function hnco::algorithm::walsh_moment::FullMoment::bound
  requires { sqr first_moment second_moment /\ 0.0 <=. margin <. 1.0 }
  ensures { sqr first_moment second_moment /\ length first_moment = length (old first_moment) /\ range (1.0 -. margin) first_moment second_moment }
  ensures { forall i. 0 <= i < length first_moment -> first_moment[i] = mclip margin (old first_moment)[i] }
  ensures { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = mclip margin (old second_moment)[i][j] }
  ensures { symmetric (length first_moment) second_moment }
  loop 0
    invariant { symmetric $k second_moment }
    invariant { sqr first_moment second_moment /\ length first_moment = length (old first_moment) }
    invariant { forall i. 0 <= i < length first_moment -> first_moment[i] = if i < $k then mclip margin (old first_moment)[i] else (old first_moment)[i] }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k then mclip margin (old second_moment)[i][j] else (old second_moment)[i][j] }
  loop 1
    invariant { symmetric $k0 second_moment /\ forall j. 0 <= j < $k -> second_moment[j][$k0] = second_moment[$k0][j] }
    invariant { sqr first_moment second_moment }
    invariant { forall i j. 0 <= j < i < length first_moment -> second_moment[i][j] = if i < $k0 || (i = $k0 && j < $k) then mclip margin (old second_moment)[i][j] else (old second_moment)[i][j] }

file lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
function hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler::init
  ensures { is_bv _state /\ length _state = length (old _state) /\ _model_parameters = old _model_parameters /\ _pv = old _pv }
function hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler::update
  requires { tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _state = length _model_parameters.triangularMoment_first_moment /\ is_bv _state /\ 0 <= i < length _state }
  ensures { is_bv _state /\ length _state = length (old _state) /\ forall j. 0 <= j < length _state -> j <> i -> _state[j] = (old _state)[j] }
  ensures { _model_parameters = old _model_parameters /\ _pv = old _pv }
function hnco::algorithm::walsh_moment::TriangularMomentGibbsSampler::update_sync
  requires { tri _model_parameters.triangularMoment_first_moment _model_parameters.triangularMoment_second_moment /\ length _state = length _model_parameters.triangularMoment_first_moment /\ is_bv _state /\ length _pv = length _state }
  ensures { is_bv _state /\ length _state = length (old _state) /\ length _pv = length _state }
  ensures { _model_parameters = old _model_parameters }
  loop 0
    invariant { length _pv = length _state }

function hnco::algorithm::walsh_moment::FullMomentGibbsSampler::init
  ensures { is_bv _state /\ length _state = length (old _state) /\ _model_parameters = old _model_parameters /\ _pv = old _pv }
function hnco::algorithm::walsh_moment::FullMomentGibbsSampler::update
  requires { sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _state = length _model_parameters.fullMoment_first_moment /\ is_bv _state /\ 0 <= i < length _state }
  ensures { is_bv _state /\ length _state = length (old _state) /\ forall j. 0 <= j < length _state -> j <> i -> _state[j] = (old _state)[j] }
  ensures { _model_parameters = old _model_parameters /\ _pv = old _pv }
function hnco::algorithm::walsh_moment::FullMomentGibbsSampler::update_sync
  requires { sqr _model_parameters.fullMoment_first_moment _model_parameters.fullMoment_second_moment /\ length _state = length _model_parameters.fullMoment_first_moment /\ is_bv _state /\ length _pv = length _state }
  ensures { is_bv _state /\ length _state = length (old _state) /\ length _pv = length _state }
  ensures { _model_parameters = old _model_parameters }
  loop 0
    invariant { length _pv = length _state }

file lib/hnco/algorithms/walsh-moment/herding.cc
function hnco::algorithm::walsh_moment::TriangularMomentHerding::sample
  params target bv
  requires { tri _delta.triangularMoment_first_moment _delta.triangularMoment_second_moment /\ tri _count.triangularMoment_first_moment _count.triangularMoment_second_moment /\ tri target.triangularMoment_first_moment target.triangularMoment_second_moment }
  requires { length bv = length _permutation = length _delta.triangularMoment_first_moment = length _count.triangularMoment_first_moment = length target.triangularMoment_first_moment }
  requires { is_perm _permutation /\ is_bv bv }
  ensures { is_bv bv /\ length bv = length (old bv) /\ is_perm _permutation /\ length _permutation = length bv /\ _time = old _time + 1 }
  ensures { tri _delta.triangularMoment_first_moment _delta.triangularMoment_second_moment /\ tri _count.triangularMoment_first_moment _count.triangularMoment_second_moment }
  ensures { length bv = length _delta.triangularMoment_first_moment = length _count.triangularMoment_first_moment }
  ensures { _error = old _error /\ _randomize_bit_order = old _randomize_bit_order }
  ensures { forall i. 0 <= i < length bv -> _count.triangularMoment_first_moment[i] = (old _count.triangularMoment_first_moment)[i] +. sg bv i }
  ensures { forall i j. 0 <= j < i < length bv -> _count.triangularMoment_second_moment[i][j] = (old _count.triangularMoment_second_moment)[i][j] +. sg bv i *. sg bv j }
  loop 0
    invariant { is_bv bv /\ length bv = length (old bv) }
  loop 1
    invariant { true }

function hnco::algorithm::walsh_moment::FullMomentHerding::sample
  params target bv
  requires { sqr _delta.fullMoment_first_moment _delta.fullMoment_second_moment /\ sqr _count.fullMoment_first_moment _count.fullMoment_second_moment /\ sqr target.fullMoment_first_moment target.fullMoment_second_moment }
  requires { length bv = length _permutation = length _delta.fullMoment_first_moment = length _count.fullMoment_first_moment = length target.fullMoment_first_moment }
  requires { is_perm _permutation /\ is_bv bv }
  ensures { is_bv bv /\ length bv = length (old bv) /\ is_perm _permutation /\ length _permutation = length bv /\ _time = old _time + 1 }
  ensures { sqr _delta.fullMoment_first_moment _delta.fullMoment_second_moment /\ sqr _count.fullMoment_first_moment _count.fullMoment_second_moment }
  ensures { length bv = length _delta.fullMoment_first_moment = length _count.fullMoment_first_moment }
  ensures { _error = old _error /\ _randomize_bit_order = old _randomize_bit_order }
  ensures { forall i. 0 <= i < length bv -> _count.fullMoment_first_moment[i] = (old _count.fullMoment_first_moment)[i] +. sg bv i }
  ensures { forall i j. 0 <= j < i < length bv -> _count.fullMoment_second_moment[i][j] = (old _count.fullMoment_second_moment)[i][j] +. sg bv i *. sg bv j }
  loop 0
    invariant { is_bv bv /\ length bv = length (old bv) }
  loop 1
    invariant { true }
