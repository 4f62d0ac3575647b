# Neighborhoods for random local search
use bits.Bits cpp.Sum cpp.Shuffle
extern Generator::uniform { random_real () }
extern Neighborhood::sample_bits { _flipped_bits <- sampled_bits (vlen _candidate) }
define {
  predicate ascending (s: seq int) (n: int) = (forall i j. 0 <= i < j < length s -> s[i] < s[j]) /\ forall i. 0 <= i < length s -> 0 <= s[i] < n
  predicate distinct (s: seq int) (n: int) = (forall i j. 0 <= i < j < length s -> s[i] <> s[j]) /\ forall i. 0 <= i < length s -> 0 <= s[i] < n
  predicate inside (s: seq int) (v: int) = exists i. 0 <= i < length s /\ s[i] = v
  (* x is o flipped exactly at the positions of s *)
  predicate flip_at (o x s: seq int) = length o = length x /\ forall i. 0 <= i < length x -> x[i] = if inside s i then 1 - o[i] else o[i]
  (* the contract of every sample_bits: proved below for each neighborhood *)
  let ghost ratio (k n: int) requires { 0 <= k <= n /\ n > 0 }
    ensures { k = n -> from_int k /. from_int n = 1.0 } ensures { k = 0 -> from_int k /. from_int n = 0.0 } ensures { from_int n <> 0.0 }
  = assert { from_int n >. 0.0 }
  val sampled_bits (n: int) : seq int ensures { ascending result n }
  let rec ghost count_mem (s: seq int) (n v hi: int)
    requires { distinct s n /\ 0 <= hi <= length s }
    ensures { count s v 0 hi = if (exists i. 0 <= i < hi /\ s[i] = v) then 1 else 0 } variant { hi }
  = if hi > 0 then count_mem s n v (hi-1)
  let ghost count_all (s: seq int) (n: int)
    requires { ascending s n } ensures { sbv_valid s n /\ forall v. mod (count s v 0 (length s)) 2 = if inside s v then 1 else 0 }
  = let lemma one (v: int) ensures { mod (count s v 0 (length s)) 2 = if inside s v then 1 else 0 } = count_mem s n v (length s) in ()
}
file lib/hnco/neighborhoods/neighborhood.cc

function hnco::neighborhood::MultiBitFlip::bernoulli_trials
  fields _candidate _flipped_bits
  requires { 0 <= k <= length _candidate }
  ensures { ascending _flipped_bits (length _candidate) /\ length _flipped_bits = k }
  loop 0
    invariant { n = length _candidate - $k /\ 0 <= k <= n }
    invariant { length _flipped_bits = k0 - k /\ ascending _flipped_bits $k }
    invariant { _candidate = old _candidate }
  ghost entry { let ghost k0 = k in }
  ghost begin 0 { ratio k n }

function hnco::neighborhood::MultiBitFlip::rejection_sampling
  fields _index_dist _flipped_bits
  requires { 0 <= k /\ _index_dist.d_lo = 0 <= _index_dist.d_hi }
  ensures { ascending _flipped_bits (_index_dist.d_hi + 1) /\ length _flipped_bits = k /\ _index_dist = old _index_dist }
  diverges
  loop 0
    invariant { length _flipped_bits = $k /\ distinct _flipped_bits (_index_dist.d_hi + 1) /\ _index_dist = old _index_dist }
  loop 1
    invariant { not $first -> 0 <= index <= _index_dist.d_hi }

function hnco::neighborhood::StandardBitMutation::bernoulli_process
  fields _candidate _flipped_bits _bernoulli_dist _allow_no_mutation
  ensures { ascending _flipped_bits (length _candidate) }
  ensures { _allow_no_mutation \/ length _flipped_bits > 0 }
  ensures { _candidate = old _candidate /\ _allow_no_mutation = old _allow_no_mutation }
  diverges
  loop 0
    invariant { again -> length _flipped_bits = 0 }
    invariant { not again -> length _flipped_bits > 0 }
    invariant { ascending _flipped_bits (length _candidate) /\ _candidate = old _candidate /\ _allow_no_mutation = old _allow_no_mutation }
    invariant { $first -> again }
  loop 1
    invariant { again -> length _flipped_bits = 0 }
    invariant { not again -> length _flipped_bits > 0 }
    invariant { ascending _flipped_bits $k /\ _candidate = old _candidate /\ _allow_no_mutation = old _allow_no_mutation }

function hnco::neighborhood::StandardBitMutation::sample_bits
  fields _candidate _flipped_bits _index_dist _bernoulli_dist _binomial_dist _rejection_sampling _allow_no_mutation
  requires { length _candidate > 0 /\ _index_dist.d_lo = 0 /\ _index_dist.d_hi = length _candidate - 1 /\ _binomial_dist.d_n = length _candidate }
  ensures { ascending _flipped_bits (length _candidate) }
  ensures { _allow_no_mutation \/ length _flipped_bits > 0 }
  diverges
  loop 0
    invariant { 0 <= k }

function hnco::neighborhood::HammingBall::sample_bits
  fields _candidate _flipped_bits _index_dist _choose_k
  requires { length _candidate > 0 /\ _index_dist.d_lo = 0 /\ _index_dist.d_hi = length _candidate - 1 }
  requires { 1 = _choose_k.d_lo <= _choose_k.d_hi <= length _candidate }
  ensures { ascending _flipped_bits (length _candidate) /\ 1 <= length _flipped_bits <= _choose_k.d_hi }
  diverges

function hnco::neighborhood::HammingSphere::sample_bits
  fields _candidate _flipped_bits _index_dist _radius
  requires { length _candidate > 0 /\ _index_dist.d_lo = 0 /\ _index_dist.d_hi = length _candidate - 1 }
  requires { 0 <= _radius <= length _candidate }
  ensures { ascending _flipped_bits (length _candidate) /\ length _flipped_bits = _radius }
  diverges

file lib/hnco/neighborhoods/neighborhood.hh

function hnco::neighborhood::SingleBitFlip::sample_bits
  fields _candidate _flipped_bits _index_dist
  requires { length _candidate > 0 /\ _index_dist.d_lo = 0 /\ _index_dist.d_hi = length _candidate - 1 /\ length _flipped_bits = 1 }
  ensures { ascending _flipped_bits (length _candidate) /\ length _flipped_bits = 1 }

function hnco::neighborhood::Neighborhood::set_origin
  fields _origin _candidate
  ensures { _origin = x /\ _candidate = x }

function hnco::neighborhood::Neighborhood::propose
  fields _origin _candidate _flipped_bits
  requires { is_bv _origin /\ _candidate = _origin }
  ensures { flip_at _origin _candidate _flipped_bits /\ ascending _flipped_bits (length _origin) /\ _origin = old _origin }
  ghost exit { count_all _flipped_bits (length _candidate) }

function hnco::neighborhood::Neighborhood::keep
  fields _origin _candidate _flipped_bits
  requires { is_bv _origin /\ flip_at _origin _candidate _flipped_bits /\ ascending _flipped_bits (length _origin) }
  ensures { _candidate = old _candidate /\ _origin = _candidate }
  ghost entry { count_all _flipped_bits (length _candidate); }

function hnco::neighborhood::Neighborhood::forget
  fields _origin _candidate _flipped_bits
  requires { is_bv _origin /\ flip_at _origin _candidate _flipped_bits /\ ascending _flipped_bits (length _origin) }
  ensures { _origin = old _origin /\ _candidate = _origin }
  ghost entry { count_all _flipped_bits (length _candidate); }

function hnco::neighborhood::Neighborhood::mutate
  fields _origin _candidate _flipped_bits
  requires { is_bv bv /\ length bv = length _origin = length _candidate }
  ensures { flip_at (old bv) bv _flipped_bits /\ ascending _flipped_bits (length bv) /\ _origin = old _origin /\ _candidate = old _candidate }
  ghost exit { count_all _flipped_bits (length _candidate) }

function hnco::neighborhood::Neighborhood::map
  fields _origin _candidate _flipped_bits
  requires { is_bv input /\ length input = length _origin = length _candidate = length output }
  ensures { flip_at input output _flipped_bits /\ ascending _flipped_bits (length input) /\ _origin = old _origin /\ _candidate = old _candidate }
  ghost exit { count_all _flipped_bits (length _candidate) }
