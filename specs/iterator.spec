# Iterators: the enumeration order is a strict order, next is its successor function
use bits.Bits bits.BitsValue cpp.Pow2 cpp.Sum
define {
  (* y is x plus one, least significant bit first *)
  predicate succ_at (x y: seq int) (i: int) =
    0 <= i < length x /\ length y = length x /\ x[i] = 0 /\ y[i] = 1 /\
    (forall j. 0 <= j < i -> x[j] <> 0 /\ y[j] = 0) /\ forall j. i < j < length x -> y[j] = x[j]
  let rec ghost value_succ (x y: seq int) (i hi: int)
    requires { succ_at x y i /\ 0 <= hi <= length x }
    ensures { if hi <= i then value x 0 hi = pow2 hi - 1 /\ value y 0 hi = 0 else value y 0 hi = value x 0 hi + 1 } variant { hi }
  = if hi > 0 then value_succ x y i (hi - 1)
  let rec ghost value_zero (x: seq int) (hi: int)
    requires { 0 <= hi <= length x /\ forall i. 0 <= i < hi -> x[i] = 0 } ensures { value x 0 hi = 0 } variant { hi }
  = if hi > 0 then value_zero x (hi - 1)
  let rec ghost value_full (x: seq int) (hi: int)
    requires { 0 <= hi <= length x }
    ensures { value x 0 hi = pow2 hi - 1 <-> forall i. 0 <= i < hi -> x[i] <> 0 } variant { hi }
  = if hi > 0 then begin value_full x (hi - 1); value_bounds x 0 (hi - 1) end
  (* the centre of a single bit flip enumeration *)
  function sb_origin (cur: seq int) (initial: bool) (idx: int) : seq int = if initial then cur else cur[idx <- 1 - cur[idx]]
  predicate ascending (s: seq int) (n: int) = (forall i j. 0 <= i < j < length s -> s[i] < s[j]) /\ forall i. 0 <= i < length s -> 0 <= s[i] < n
  predicate flipped (o x s: seq int) = length o = length x /\ forall i. 0 <= i < length x -> x[i] = b2x o[i] (mod (count s i 0 (length s)) 2)
  (* s is the greatest combination from position i on *)
  predicate tail_max (s: seq int) (i n: int) = forall j. i <= j < length s -> s[j] = n - length s + j
  predicate comb_succ (s t: seq int) (n: int) =
    length t = length s /\ exists i. 0 <= i < length s /\ s[i] < n - length s + i /\ tail_max s (i+1) n /\
      (forall j. 0 <= j < i -> t[j] = s[j]) /\ forall j. i <= j < length s -> t[j] = s[i] + 1 + (j - i)
  let rec ghost gap (s: seq int) (n i j: int)
    requires { ascending s n /\ 0 <= i <= j < length s } ensures { s[j] - s[i] >= j - i } variant { j - i }
  = if i < j then gap s n i (j-1)
  let rec ghost gap_max (s: seq int) (n i: int)
    requires { ascending s n /\ 0 <= i < length s } ensures { s[i] <= n - length s + i } variant { length s - i }
  = gap s n i (length s - 1)
  let ghost flip_twice (o x y s: seq int)
    requires { flipped o x s /\ flipped x y s /\ is_bv o } ensures { y == o } = ()
}
file lib/hnco/iterator.cc

function hnco::HypercubeIterator::has_next
  ensures { result <-> if old _initial_state then length _current > 0 else value _current 0 (length _current) < pow2 (length _current) - 1 }
  ensures { _current = old _current /\ _initial_state = old _initial_state }
  ghost entry { value_full _current (length _current); value_bounds _current 0 (length _current); }

function hnco::HypercubeIterator::next
  requires { is_bv _current }
  requires { if _initial_state then length _current > 0 else value _current 0 (length _current) < pow2 (length _current) - 1 }
  ensures { length _current = length (old _current) /\ is_bv _current /\ not _initial_state /\ result = _current }
  ensures { value _current 0 (length _current) = if old _initial_state then 0 else value (old _current) 0 (length _current) + 1 }
  ghost entry { value_full _current (length _current); let ghost c0 = _current in let ghost i0 = _initial_state in }
  loop 0
    invariant { 0 <= $k /\ length _current = length c0 /\ is_bv _current /\ not _initial_state }
    invariant { forall j. 0 <= j < $k -> c0[j] <> 0 /\ _current[j] = 0 }
    invariant { forall j. $k <= j < length c0 -> _current[j] = c0[j] }
  ghost exit { if i0 then value_zero _current (length _current) else begin assert { exists i. succ_at c0 _current i };
     let ghost i = any int ensures { succ_at c0 _current result } in value_succ c0 _current i (length _current) end; }

function hnco::ExtendedHypercubeIterator::has_next
  ensures { result <-> if old _initial_state then true else value _current 0 (length _current) < pow2 (length _current) - 1 }
  ensures { _current = old _current /\ _initial_state = old _initial_state }
  ghost entry { value_full _current (length _current); value_bounds _current 0 (length _current); }

function hnco::ExtendedHypercubeIterator::next
  requires { is_bv _current }
  requires { if _initial_state then true else value _current 0 (length _current) < pow2 (length _current) - 1 }
  ensures { length _current = length (old _current) /\ is_bv _current /\ not _initial_state /\ result = _current }
  ensures { value _current 0 (length _current) = if old _initial_state then 0 else value (old _current) 0 (length _current) + 1 }
  ghost entry { value_full _current (length _current); let ghost c0 = _current in let ghost i0 = _initial_state in }
  loop 0
    invariant { 0 <= $k /\ length _current = length c0 /\ is_bv _current /\ not _initial_state }
    invariant { forall j. 0 <= j < $k -> c0[j] <> 0 /\ _current[j] = 0 }
    invariant { forall j. $k <= j < length c0 -> _current[j] = c0[j] }
  ghost exit { if i0 then value_zero _current (length _current) else begin assert { exists i. succ_at c0 _current i };
     let ghost i = any int ensures { succ_at c0 _current result } in value_succ c0 _current i (length _current) end; }

file lib/hnco/neighborhoods/neighborhood-iterator.cc

function hnco::neighborhood::NeighborhoodIterator::set_origin
  requires { length x = length _current }
  ensures { _current = x /\ _initial_state = old _initial_state }

function hnco::neighborhood::SingleBitFlipIterator::has_next
  requires { _initial_state \/ 0 <= _index < length _current }
  ensures { result <-> if _initial_state then length _current > 0 else _index < length _current - 1 }
  ensures { _current = old _current /\ _initial_state = old _initial_state /\ _index = old _index }

function hnco::neighborhood::SingleBitFlipIterator::next
  requires { is_bv _current }
  requires { if _initial_state then length _current > 0 else 0 <= _index < length _current - 1 }
  ensures { length _current = length (old _current) /\ is_bv _current /\ not _initial_state /\ result = _current }
  ensures { sb_origin _current false _index == sb_origin (old _current) (old _initial_state) (old _index) }
  ensures { _index = if old _initial_state then 0 else old _index + 1 }

function hnco::neighborhood::HammingSphereIterator::has_next
  requires { 0 <= _radius <= length _current /\ length _bit_indexes = _radius }
  requires { not _initial_state -> ascending _bit_indexes (length _current) }
  ensures { _current = old _current /\ _initial_state = old _initial_state /\ _bit_indexes = old _bit_indexes /\ _radius = old _radius }
  ensures { _initial_state -> (result <-> _radius > 0) }
  ensures { not _initial_state -> (result <-> exists i. 0 <= i < _radius /\ _bit_indexes[i] < length _current - _radius + i) }
  loop 0
    invariant { -1 <= i <= _radius - 2 /\ tail_max _bit_indexes (i + 1) (length _current) }
    variant { i + 1 }
  ghost entry { if not _initial_state then begin let lemma one (i: int) requires { 0 <= i < _radius } ensures { _bit_indexes[i] <= length _current - _radius + i } = gap_max _bit_indexes (length _current) i in () end; }

function hnco::neighborhood::HammingSphereIterator::next
  requires { 0 < _radius <= length _current /\ length _bit_indexes = _radius /\ is_bv _current }
  requires { not _initial_state -> ascending _bit_indexes (length _current) /\ exists i. 0 <= i < _radius /\ _bit_indexes[i] < length _current - _radius + i }
  ensures { length _current = length (old _current) /\ is_bv _current /\ not _initial_state /\ result = _current /\ _radius = old _radius }
  ensures { ascending _bit_indexes (length _current) /\ length _bit_indexes = _radius }
  ensures { if old _initial_state then (forall j. 0 <= j < _radius -> _bit_indexes[j] = j) else comb_succ (old _bit_indexes) _bit_indexes (length _current) }
  ensures { if old _initial_state then flipped (old _current) _current _bit_indexes
            else forall o. is_bv o -> flipped o (old _current) (old _bit_indexes) -> flipped o _current _bit_indexes }
  ghost entry { if not _initial_state then begin let lemma one (i: int) requires { 0 <= i < _radius } ensures { _bit_indexes[i] <= length _current - _radius + i } = gap_max _bit_indexes (length _current) i in () end; }
  loop 0
    invariant { -1 <= i <= _radius - 2 /\ tail_max _bit_indexes (i + 1) (length _current) }
    invariant { _bit_indexes = old _bit_indexes }
    variant { i + 1 }
