# Permutations
use cpp.Shuffle cpp.Perm
file lib/hnco/permutation.cc

function hnco::perm_is_valid
  ensures { result <-> is_perm permutation }
  loop 0
    invariant { forall j. 0 <= j < $k -> 0 <= permutation[j] < length permutation /\ checked[permutation[j]] }
    invariant { forall j1 j2. 0 <= j1 < j2 < $k -> permutation[j1] <> permutation[j2] }
    invariant { forall v. 0 <= v < length permutation -> checked[v] -> exists j. 0 <= j < $k /\ permutation[j] = v }

file lib/hnco/permutation.hh

function hnco::perm_identity
  ensures { length s = length (old s) /\ forall i. 0 <= i < length s -> s[i] = i }
  ensures { is_perm s }
  loop 0
    invariant { forall j. 0 <= j < $k -> s[j] = j }

function hnco::perm_shuffle
  ensures { length s = length (old s) /\ (is_perm (old s) -> is_perm s) /\ permut_sub (old s) s 0 (length s) }

function hnco::perm_random
  ensures { length s = length (old s) /\ is_perm s }
