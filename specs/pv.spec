# Probability vectors
use bits.Bits
extern Generator::uniform { random_real () }
define {
  predicate within (p: seq real) (lo hi: real) = forall i. 0 <= i < length p -> lo <=. p[i] <=. hi
  function clip (lo hi v: real) : real = if v >. hi then (if hi <. lo then lo else hi) else if v <. lo then lo else v
}
file lib/hnco/algorithms/probability-vector/probability-vector.cc
function hnco::algorithm::pv_sample
  requires { length bv = length pv }
  ensures { length bv = length pv /\ is_bv bv }
  ensures { forall i. 0 <= i < length pv -> pv[i] <=. 0.0 -> bv[i] = 0 }
  ensures { forall i. 0 <= i < length pv -> pv[i] >=. 1.0 -> bv[i] = 1 }
  loop 0
    invariant { length bv = length pv /\ forall j. 0 <= j < $k -> is_bit bv[j] /\ (pv[j] <=. 0.0 -> bv[j] = 0) /\ (pv[j] >=. 1.0 -> bv[j] = 1) }

function hnco::algorithm::pv_add(vector<double>&, vector<bit> const&)
  requires { length bv = length pv /\ is_bv bv }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = (old pv)[i] +. from_int bv[i] }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then (old pv)[i] +. from_int bv[i] else (old pv)[i] }

function hnco::algorithm::pv_add(vector<double>&, vector<bit> const&, double)
  requires { length bv = length pv /\ is_bv bv }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = (old pv)[i] +. (if bv[i] = 1 then weight_ else 0.0) }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then (old pv)[i] +. (if bv[i] = 1 then weight_ else 0.0) else (old pv)[i] }

function hnco::algorithm::pv_average
  requires { count > 0 }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] *. from_int count = (old pv)[i] }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> if i < $k then pv[i] *. from_int count = (old pv)[i] else pv[i] = (old pv)[i] }

function hnco::algorithm::pv_update(vector<double>&, vector<double> const&, vector<double> const&, double)
  requires { length x = length pv = length y }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = (old pv)[i] +. rate *. (x[i] -. y[i]) }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then (old pv)[i] +. rate *. (x[i] -. y[i]) else (old pv)[i] }

function hnco::algorithm::pv_bound
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = clip lower_bound upper_bound (old pv)[i] }
  ensures { lower_bound <=. upper_bound -> within pv lower_bound upper_bound }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then clip lower_bound upper_bound (old pv)[i] else (old pv)[i] }

function hnco::algorithm::pv_uniform
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = 0.5 }
function hnco::algorithm::pv_init
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = 0.0 }

file lib/hnco/algorithms/probability-vector/pbil.cc
function void hnco::algorithm::pv_update<vector<double>>(vector<double>&, vector<double> const&, double)
  requires { length x = length pv }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = (old pv)[i] +. rate *. (x[i] -. (old pv)[i]) }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then (old pv)[i] +. rate *. (x[i] -. (old pv)[i]) else (old pv)[i] }

file lib/hnco/algorithms/probability-vector/mmas.cc
function void hnco::algorithm::pv_update<vector<bit>>(vector<double>&, vector<bit> const&, double)
  requires { length x = length pv /\ is_bv x }
  ensures { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = (old pv)[i] +. rate *. (from_int x[i] -. (old pv)[i]) }
  loop 0
    invariant { length pv = length (old pv) /\ forall i. 0 <= i < length pv -> pv[i] = if i < $k then (old pv)[i] +. rate *. (from_int x[i] -. (old pv)[i]) else (old pv)[i] }
