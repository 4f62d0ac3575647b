# Norms and distances of Walsh moments
use bits.Bits cpp.Perm reals.RSum
import walsh
record TriangularMoment
record FullMoment
define {
  function mag (x: real) : real = if x <. 0.0 then -. x else x
  function n1row (r: seq real) : int -> real = fun j -> mag r[j]
  function n1 (f: seq real) (s: seq (seq real)) : int -> real = fun i -> mag f[i] +. rsum (n1row s[i]) 0 i
  function n2row (r: seq real) : int -> real = fun j -> r[j] *. r[j]
  function n2 (f: seq real) (s: seq (seq real)) : int -> real = fun i -> f[i] *. f[i] +. rsum (n2row s[i]) 0 i
  function d2row (r q: seq real) : int -> real = fun j -> (r[j] -. q[j]) *. (r[j] -. q[j])
  function d2 (f: seq real) (s: seq (seq real)) (g: seq real) (t: seq (seq real)) : int -> real = fun i -> (f[i] -. g[i]) *. (f[i] -. g[i]) +. rsum (d2row s[i] t[i]) 0 i
  let rec ghost rsum_pos (f: int -> real) (n: int)
    requires { forall i. 0 <= i < n -> f i >=. 0.0 } ensures { rsum f 0 n >=. 0.0 } variant { n }
  = if n > 0 then rsum_pos f (n - 1)
  let ghost sq_pos (x: real) : unit ensures { x *. x >=. 0.0 } = ()
  let ghost d2_pos (f: seq real) (s: seq (seq real)) (g: seq real) (t: seq (seq real)) (n: int)
    ensures { rsum (d2 f s g t) 0 n >=. 0.0 }
  = let lemma cell (i j: int) ensures { d2row s[i] t[i] j >=. 0.0 } = sq_pos (s[i][j] -. t[i][j]) in
    let lemma row (i: int) ensures { rsum (d2row s[i] t[i]) 0 i >=. 0.0 } = rsum_pos (pure { d2row s[i] t[i] }) i in
    let lemma one (i: int) ensures { d2 f s g t i >=. 0.0 } = sq_pos (f[i] -. g[i]); row i in
    rsum_pos (pure { d2 f s g t }) n
}
file lib/hnco/algorithms/walsh-moment/walsh-moment.cc
function hnco::algorithm::walsh_moment::TriangularMoment::norm_1
  requires { tri first_moment second_moment }
  ensures { result = rsum (n1 first_moment second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (n1 first_moment second_moment) 0 $k }
  loop 1
    invariant { result_ = rsum (n1 first_moment second_moment) 0 $k0 +. mag first_moment[$k0] +. rsum (n1row second_moment[$k0]) 0 $k }
function hnco::algorithm::walsh_moment::TriangularMoment::norm_2
  requires { tri first_moment second_moment }
  ensures { result >=. 0.0 /\ result *. result = rsum (n2 first_moment second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (n2 first_moment second_moment) 0 $k /\ result_ >=. 0.0 }
  loop 1
    invariant { result_ = rsum (n2 first_moment second_moment) 0 $k0 +. first_moment[$k0] *. first_moment[$k0] +. rsum (n2row second_moment[$k0]) 0 $k /\ result_ >=. 0.0 }
function hnco::algorithm::walsh_moment::TriangularMoment::norm_infinite
  requires { tri first_moment second_moment }
  ensures { result >=. 0.0 /\ forall i. 0 <= i < length first_moment -> mag first_moment[i] <=. result /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result }
  ensures { result = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result = mag second_moment[i][j] }
  loop 0
    invariant { result_ >=. 0.0 /\ forall i. 0 <= i < $k -> mag first_moment[i] <=. result_ /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result_ }
    invariant { result_ = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result_ = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result_ = mag second_moment[i][j] }
  loop 1
    invariant { result_ >=. 0.0 /\ (forall i. 0 <= i < $k0 -> mag first_moment[i] <=. result_ /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result_) /\ mag first_moment[$k0] <=. result_ /\ forall j. 0 <= j < $k -> mag second_moment[$k0][j] <=. result_ }
    invariant { result_ = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result_ = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result_ = mag second_moment[i][j] }
function hnco::algorithm::walsh_moment::TriangularMoment::distance
  requires { tri first_moment second_moment /\ tri tm.triangularMoment_first_moment tm.triangularMoment_second_moment /\ length first_moment = length tm.triangularMoment_first_moment }
  ensures { result >=. 0.0 /\ result *. result = rsum (d2 first_moment second_moment tm.triangularMoment_first_moment tm.triangularMoment_second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (d2 first_moment second_moment tm.triangularMoment_first_moment tm.triangularMoment_second_moment) 0 $k }
  loop 1
    invariant { result_ = rsum (d2 first_moment second_moment tm.triangularMoment_first_moment tm.triangularMoment_second_moment) 0 $k0 +. (first_moment[$k0] -. tm.triangularMoment_first_moment[$k0]) *. (first_moment[$k0] -. tm.triangularMoment_first_moment[$k0]) +. rsum (d2row second_moment[$k0] tm.triangularMoment_second_moment[$k0]) 0 $k }
  ghost after 0 { d2_pos first_moment second_moment tm.triangularMoment_first_moment tm.triangularMoment_second_moment (length first_moment) }
function hnco::algorithm::walsh_moment::FullMoment::norm_1
  requires { sqr first_moment second_moment }
  ensures { result = rsum (n1 first_moment second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (n1 first_moment second_moment) 0 $k }
  loop 1
    invariant { result_ = rsum (n1 first_moment second_moment) 0 $k0 +. mag first_moment[$k0] +. rsum (n1row second_moment[$k0]) 0 $k }
function hnco::algorithm::walsh_moment::FullMoment::norm_2
  requires { sqr first_moment second_moment }
  ensures { result >=. 0.0 /\ result *. result = rsum (n2 first_moment second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (n2 first_moment second_moment) 0 $k /\ result_ >=. 0.0 }
  loop 1
    invariant { result_ = rsum (n2 first_moment second_moment) 0 $k0 +. first_moment[$k0] *. first_moment[$k0] +. rsum (n2row second_moment[$k0]) 0 $k /\ result_ >=. 0.0 }
function hnco::algorithm::walsh_moment::FullMoment::norm_infinite
  requires { sqr first_moment second_moment }
  ensures { result >=. 0.0 /\ forall i. 0 <= i < length first_moment -> mag first_moment[i] <=. result /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result }
  ensures { result = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result = mag second_moment[i][j] }
  loop 0
    invariant { result_ >=. 0.0 /\ forall i. 0 <= i < $k -> mag first_moment[i] <=. result_ /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result_ }
    invariant { result_ = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result_ = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result_ = mag second_moment[i][j] }
  loop 1
    invariant { result_ >=. 0.0 /\ (forall i. 0 <= i < $k0 -> mag first_moment[i] <=. result_ /\ forall j. 0 <= j < i -> mag second_moment[i][j] <=. result_) /\ mag first_moment[$k0] <=. result_ /\ forall j. 0 <= j < $k -> mag second_moment[$k0][j] <=. result_ }
    invariant { result_ = 0.0 \/ (exists i. 0 <= i < length first_moment /\ result_ = mag first_moment[i]) \/ exists i j. 0 <= j < i < length first_moment /\ result_ = mag second_moment[i][j] }
function hnco::algorithm::walsh_moment::FullMoment::distance
  requires { sqr first_moment second_moment /\ sqr fm.fullMoment_first_moment fm.fullMoment_second_moment /\ length first_moment = length fm.fullMoment_first_moment }
  ensures { result >=. 0.0 /\ result *. result = rsum (d2 first_moment second_moment fm.fullMoment_first_moment fm.fullMoment_second_moment) 0 (length first_moment) }
  loop 0
    invariant { result_ = rsum (d2 first_moment second_moment fm.fullMoment_first_moment fm.fullMoment_second_moment) 0 $k }
  loop 1
    invariant { result_ = rsum (d2 first_moment second_moment fm.fullMoment_first_moment fm.fullMoment_second_moment) 0 $k0 +. (first_moment[$k0] -. fm.fullMoment_first_moment[$k0]) *. (first_moment[$k0] -. fm.fullMoment_first_moment[$k0]) +. rsum (d2row second_moment[$k0] fm.fullMoment_second_moment[$k0]) 0 $k }
  ghost after 0 { d2_pos first_moment second_moment fm.fullMoment_first_moment fm.fullMoment_second_moment (length first_moment) }
