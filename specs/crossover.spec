# Crossover: every bit of the offspring is the bit of a parent at the same position
use bits.Bits
extern Generator::bernoulli { random_bool () }
define {
  predicate mixes (x y z: seq int) = length z = length x /\ forall i. 0 <= i < length x -> z[i] = x[i] \/ z[i] = y[i]
}
file lib/hnco/algorithms/evolutionary-algorithms/crossover.cc
function hnco::algorithm::UniformCrossover::recombine
  requires { length parent1 = length offspring = length parent2 }
  ensures { mixes parent1 parent2 offspring }
  loop 0
    invariant { length offspring = length parent1 /\ forall j. 0 <= j < $k -> offspring[j] = parent1[j] \/ offspring[j] = parent2[j] }

function hnco::algorithm::BiasedCrossover::recombine
  requires { length parent1 = length offspring = length parent2 }
  ensures { mixes parent1 parent2 offspring }
  ensures { _bernoulli_dist = old _bernoulli_dist }
  ensures { _bernoulli_dist.d_p = 1.0 -> offspring = parent2 }
  ensures { _bernoulli_dist.d_p = 0.0 -> offspring = parent1 }
  loop 0
    invariant { length offspring = length parent1 /\ _bernoulli_dist = old _bernoulli_dist /\ forall j. 0 <= j < $k -> offspring[j] = parent1[j] \/ offspring[j] = parent2[j] }
    invariant { _bernoulli_dist.d_p = 1.0 -> forall j. 0 <= j < $k -> offspring[j] = parent2[j] }
    invariant { _bernoulli_dist.d_p = 0.0 -> forall j. 0 <= j < $k -> offspring[j] = parent1[j] }
  ghost exit { assert { _bernoulli_dist.d_p = 1.0 -> offspring == parent2 }; assert { _bernoulli_dist.d_p = 0.0 -> offspring == parent1 } }

function hnco::algorithm::BiasedCrossover::set_bias
  requires { 0.0 <. b <. 1.0 }
  ensures { _bernoulli_dist.d_p = b }
function hnco::algorithm::BiasedCrossover::BiasedCrossover()
  ensures { 0.0 <. _bernoulli_dist.d_p <. 1.0 }
