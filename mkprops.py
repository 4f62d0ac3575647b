#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
L = 'lib/hnco/'
P = []
def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[L + f for f in files], mechanism=[dict(name=a, where=L + b) for a, b in mech])))

prop('C01', 'Bit-vector primitives compute exact GF(2) and integer results',
     'For bit vectors of every size, weight, distance, dot product, addition, flips (single or by index list) and clearing give exactly the GF(2)/integer result and leave every other component and every input unchanged. Conversions to and from unsigned integers, boolean vectors and text are exact and inverse to each other, and random bit vectors of prescribed weight have exactly that weight, each of them being possible. Validity predicates accept exactly the valid vectors.',
     ['inputs'], 'all sizes, all bit patterns, all index lists, all random draws',
     'the tests sample random vectors of a few sizes; they reach neither all sizes (word boundaries) nor all patterns', ['bit-vector.hh', 'bit-vector.cc', 'sparse-bit-vector.cc'],
     [('bit vector functions', 'bit-vector.cc'), ('inline bit functions', 'bit-vector.hh'), ('sparse validity', 'sparse-bit-vector.cc')])
prop('C02', 'Bit-matrix algebra over GF(2) is exact: product, transpose, elimination',
     'For every bit matrix, multiplication, transposition, addition, row and column operations, identity/triangular/shape predicates and random generators give exactly their GF(2) definition. Elimination returns the true rank; invertibility tests, inversion and linear-system solving succeed exactly when a unique solution exists and then return it. ',
     ['inputs'], 'all dimensions, all matrices including singular ones',
     'tests try random, mostly invertible matrices of one size and only check round trips', ['bit-matrix.hh', 'bit-matrix.cc'],
     [('row/column operations', 'bit-matrix.cc'), ('row echelon form, rank, invert, solve', 'bit-matrix.cc')])
prop('C03', 'Transvection sequences act as, and convert to, the matrices they denote',
     'Applying a transvection, or a sequence of them, to a bit vector equals multiplying by the corresponding matrix, likewise for products with a matrix, and inverting a sequence undoes it. Random transvections and sequences are valid, have the requested length and satisfy their advertised structure (commuting, unique source, unique destination, non-commuting, disjoint), and every transvection can be drawn. Commutation and disjointness predicates are exact.',
     ['inputs'], 'all dimensions, indices and sequences, all random draws',
     'tests check a few random sequences at one dimension', ['maps/transvection.hh', 'maps/transvection.cc'],
     [('transvection struct', 'maps/transvection.cc'), ('random sequences', 'maps/transvection.cc')])
prop('C04', 'Maps compute their definition and report surjectivity truthfully',
     'Translation, permutation, linear, affine, transvection-based, injection and projection maps and their compositions send every input bit vector to exactly the image given by their definition, with declared input and output sizes. A linear, affine, injection or projection map reports itself surjective exactly when its image is the whole output space, and any map or composition reporting itself surjective is onto. Random maps are well formed with the requested dimensions.',
     ['inputs', 'configurations'], 'all maps, all inputs, all dimensions, all random draws',
     'tests check only bijectivity or round trips on random instances', ['maps/map.hh', 'maps/map.cc'], [('map classes', 'maps/map.cc'), ('surjectivity', 'maps/map.hh')])
prop('C05', 'Iterators enumerate every point of their domain exactly once',
     'For every dimension, centre and radius, the hypercube iterator visits each of the 2^n bit vectors exactly once and the neighbourhood iterators visit each point at the specified Hamming distance of the origin (one flip, sphere) exactly once, then stop. Initializing an iterator again, after any partial enumeration and with any new origin, repeats the complete enumeration.',
     ['inputs', 'histories'], 'all dimensions, centres, radii and restarts',
     'tests count visited points for small random settings and do not check distinctness for all', ['iterator.cc', 'iterator.hh', 'neighborhoods/neighborhood-iterator.cc', 'neighborhoods/neighborhood-iterator.hh'],
     [('hypercube iterator', 'iterator.cc'), ('neighborhood iterators', 'neighborhoods/neighborhood-iterator.cc')])
prop('C06', 'Neighbourhoods propose, keep and forget consistently and within radius',
     'A proposed candidate differs from the origin exactly in the announced flipped bits, whose number obeys the neighbourhood kind (one, between 1 and r, exactly r, at least one for standard bit mutation unless no mutation is allowed). Keeping makes the candidate the new origin, forgetting restores the candidate to the origin, and mutation flips only valid positions.',
     ['inputs', 'histories'], 'all dimensions, radii, all random draws, all propose/keep/forget sequences',
     'no test drives neighborhoods through sequences of operations', ['neighborhoods/neighborhood.hh', 'neighborhoods/neighborhood.cc'],
     [('Neighborhood', 'neighborhoods/neighborhood.hh'), ('samplers', 'neighborhoods/neighborhood.cc')])
prop('C07', 'Incremental evaluation equals full evaluation',
     'For every function that offers incremental evaluation, every bit vector and every list of flipped bits, evaluating incrementally from the old value gives the value of the full evaluation of the modified vector. Modifiers and controllers that forward incremental evaluation preserve this, and those advertising it can actually perform it.',
     ['inputs', 'histories'], 'all functions, instances, points, flip lists',
     'tests compare both evaluations on random points for a few functions', ['functions/collection/theory.cc', 'functions/collection/linear-function.cc', 'functions/collection/ising/nearest-neighbor-ising-model-1.cc', 'functions/collection/ising/nearest-neighbor-ising-model-2.cc', 'functions/collection/walsh/walsh-expansion-1.cc', 'functions/modifiers/modifier.cc', 'functions/controllers/controller.cc'],
     [('evaluate_incrementally', 'functions/function.hh')])
prop('C08', 'A declared maximum is attained and never exceeded',
     'Whenever a function declares that its maximum is known, no bit vector evaluates above the declared maximum and some bit vector attains it. This holds for every size and every parameter value the function accepts, and through function adapters and modifiers that forward the declaration. The tests for local and global maximality are exact.',
     ['inputs', 'configurations'], 'all functions declaring a maximum, all sizes and parameters, all points',
     'tests evaluate a known optimum for one size, never the upper bound over all points', ['functions/collection/theory.cc', 'functions/collection/jump.cc', 'functions/collection/four-peaks.cc', 'functions/collection/trap.cc', 'functions/collection/max-sat.cc'],
     [('get_maximum / has_known_maximum', 'functions/function.hh')])
prop('C09', 'Benchmark functions compute their documented value at every point',
     'For every instance and every bit vector each benchmark function returns exactly the value of its published definition (OneMax, LeadingOnes, Ridge, Plateau, Jump, peaks, trap, linear, QUBO, NK landscape, MaxSAT, Ising, long path, HIFF, Walsh expansion, LABS, and the others of the collection). Randomly generated instances are well formed for the requested size.',
     ['inputs', 'configurations'], 'all instances and all points of every size',
     'tests check special points or symmetry for a few functions', ['functions/collection/theory.cc', 'functions/collection/long-path.cc', 'functions/collection/max-sat.cc', 'functions/collection/ising/nearest-neighbor-ising-model-1.cc', 'functions/collection/walsh/walsh-expansion.cc'],
     [('evaluate', 'functions/collection')])
prop('C10', 'Controllers are transparent and enforce their budget or target exactly',
     'A controlled function returns the same value as the bare function for every call sequence. The budget controller raises its signal exactly when the allowed number of calls is used up, the target controller exactly when the target is first reached, and remembers the point and value that did, the call counter counts every evaluation, the progress tracker records the best value, the call at which it was first found and, on request, the point, and the cache never returns a value other than the function’s and evaluates each point once.',
     ['histories', 'inputs'], 'all sequences of evaluate, incremental evaluate and update, all budgets and targets',
     'tests run one random sequence for a few controllers', ['functions/controllers/controller.hh', 'functions/controllers/controller.cc'],
     [('controllers', 'functions/controllers/controller.cc')])
prop('C11', 'Representations decode every bit vector into their domain, onto every value',
     'Each number, categorical or permutation representation maps every bit vector of its declared size to a value inside its declared domain, and every domain value is reached. Composite representations (complex numbers, permutations) combine parts decoded from consecutive disjoint slices. Integer, categorical and value-set domains have at least two values, and a requested precision is positive and below the length of the interval.',
     ['inputs', 'configurations'], 'all intervals, precisions, sizes, all bit vectors',
     'tests unpack random vectors with a few intervals and do not check coverage or bounds for all', ['representations/float.hh', 'representations/integer.hh', 'representations/categorical.hh', 'representations/value-set.hh', 'representations/complex.hh', 'representations/permutation.hh'],
     [('unpack', 'representations')])
prop('C12', 'Walsh transforms and expansions agree with the definition',
     'For every function, the naive and the fast Walsh transform give the coefficient of every feature vector as defined by the Walsh–Fourier sum, and evaluating the resulting expansion returns the original function, times 2^n as the coefficients are not normalised, at every point.',
     ['inputs'], 'all functions, all dimensions, all feature vectors',
     'tests compare both on a few random functions', ['functions/function.cc', 'functions/walsh-term.hh', 'functions/collection/walsh/walsh-expansion.cc'],
     [('compute_walsh_transform / compute_fast_walsh_transform', 'functions/function.cc')])
prop('C13', 'Populations keep points and values paired, and sort and select by rank',
     'Evaluation, sorting, partial sorting and selection always keep each bit vector paired with its own value; after sorting, ranks are non-increasing in value, and comma and plus selection leave exactly the best individuals in the population. Uniform, tournament, roulette-wheel and Boltzmann selection return members of the population, and a tournament returns a best one of its contestants.',
     ['inputs', 'histories'], 'all populations, value patterns with ties, all random draws',
     'tests check a few random populations', ['algorithms/population.cc', 'algorithms/population.hh', 'algorithms/evolutionary-algorithms/random-selection.cc'],
     [('Population', 'algorithms/population.cc')])
prop('C14', 'Crossover and mutation only recombine parent bits and flip sampled bits',
     'Every crossover returns an offspring each of whose bits comes from one of the parents at the same position, with the advertised structure (uniform, biased). Standard bit mutation flips only chosen positions, and flips at least one when configured to disallow no mutation. The evolutionary algorithms apply their operators with the configured probabilities and rates.',
     ['inputs'], 'all parents and sizes, all rates, all random draws', 'no test covers the operators at all sizes and draws',
     ['algorithms/evolutionary-algorithms/crossover.cc', 'neighborhoods/neighborhood.cc'], [('crossover', 'algorithms/evolutionary-algorithms/crossover.cc'), ('mutation', 'neighborhoods/neighborhood.cc')])
prop('C15', 'Search algorithms return a consistent best-so-far solution',
     'After any run that ends normally, or that is stopped by the last-evaluation signal and finalized once the initial solution or population has been evaluated, the solution reported by each algorithm is a valid point together with the value of the function at that point. No solution or completed batch that the algorithm evaluated was better (for the (1+(lambda,lambda)) GA, points of its crossover phase). Complete search returns a global maximum, steepest ascent and first ascent stop only in a local maximum, and an algorithm can be run again. Every algorithm performs the requested number of iterations, and random local search with patience stops after exactly that many consecutive failures. Wrappers of external libraries (P3, LTGA, HBOA, GOMEA) and the human player are excluded.',
     ['inputs', 'histories', 'configurations'], 'all functions, algorithms, iteration counts and stop signals',
     'tests run algorithms on easy functions and check the target only', ['algorithms/algorithm.hh', 'algorithms/algorithm.cc', 'algorithms/complete-search.cc', 'algorithms/local-search/steepest-ascent-hill-climbing.cc', 'algorithms/local-search/random-local-search.cc'],
     [('Algorithm', 'algorithms/algorithm.cc')])
prop('C16', 'Probability models of EDAs stay inside their bounds and follow their update rule',
     'The probability vectors and models of the estimation-of-distribution algorithms always have components in the prescribed interval after every update (bit vectors of size at least 2), updates move components by the documented rule, empirical moments and their distances and norms are those of the sample, and sampling (product, linear-map and Gibbs models) yields valid bit vectors that follow the model.',
     ['inputs', 'histories'], 'all learning rates, bounds, samples and update sequences', 'no test exercises boundary updates',
     ['algorithms/probability-vector/probability-vector.cc', 'algorithms/probability-vector/pv-algorithm.cc', 'algorithms/probability-vector/compact-ga.cc', 'algorithms/probability-vector/umda.cc', 'algorithms/probability-vector/pbil.cc', 'algorithms/probability-vector/nps-pbil.cc', 'algorithms/probability-vector/mmas.cc'], [('pv_*', 'algorithms/probability-vector/probability-vector.cc')])
prop('C17', 'Pareto dominance and non-dominated sorting are exact',
     'Dominance between value vectors is exactly component-wise better-or-equal with one strictly better; non-dominated sorting assigns each individual the front index defined by peeling off dominated layers, and NSGA-II keeps whole better fronts before worse ones and truncates the last front by crowding distance. Its solutions are exactly the non-dominated individuals of its population, each paired with its own value, it uses the configured crossover probability and can be run again.',
     ['inputs'], 'all populations of value vectors, ties included', 'tests do not enumerate ties and duplicates',
     ['multiobjective/algorithms/pareto-front-computation.hh', 'multiobjective/functions/value.hh', 'multiobjective/algorithms/nsga2.cc', 'multiobjective/algorithms/population.cc'], [('non-domination sort', 'multiobjective/algorithms')])
prop('C18', 'Permutation utilities produce and recognise exactly the permutations',
     'Identity and random permutations are valid permutations of the requested size, the validity test accepts exactly the permutations, and every operation on them preserves validity.',
     ['inputs'], 'all sizes and all random draws', 'tests sample random permutations of one size', ['permutation.hh', 'permutation.cc'], [('perm_*', 'permutation.cc')])
prop('C19', 'Function modifiers and adapters compute the stated transformation',
     'Negation, map composition, parsed-expression, prior-noise and additive Gaussian noise modifiers return exactly the stated transformation of the underlying function at every point (noise being the only random part), with consistent size information. Multivariate, permutation, universal and multi-objective adapters evaluate the underlying function at the values that the representations decode, in order, from consecutive disjoint slices of the bit vector, and declare the total size; converters compute the stated scalar.',
     ['inputs', 'configurations'], 'all underlying functions and points', 'tests cover one modifier on one function',
     ['functions/modifiers/modifier.hh', 'functions/modifiers/modifier.cc', 'functions/modifiers/prior-noise.cc', 'functions/modifiers/parsed-modifier.cc', 'functions/universal-function-adapter.hh', 'functions/multivariate-function-adapter.hh', 'functions/permutation-function-adapter.hh'], [('modifiers', 'functions/modifiers/modifier.hh')])
prop('C20', 'Saving and loading an instance preserves it',
     'Saving a function instance or a map to a file and loading it back, into a new object or one already in use, yields an object that behaves identically: same size, same value or image at every point. Loading a file that does not exist is reported as an error.',
     ['inputs', 'configurations'], 'all instances of every class with save and load, whatever the object loaded into contained before', 'tests do not round-trip instances of all classes, nor into objects already in use',
     ['serialization.hh', 'maps/map.hh', 'maps/transvection.hh', 'functions/collection/linear-function.hh', 'functions/collection/nk-landscape.hh', 'functions/collection/walsh/walsh-expansion.hh', 'functions/collection/max-sat.cc'],
     [('save_to_archive / load_from_archive', 'serialization.hh'), ('save / load / serialize of each class', 'functions/collection')])
prop('C21', 'Parallel evaluation gives the same population as sequential evaluation',
     'Evaluating a population (single- or multi-objective) with several threads gives every individual the same value as sequential evaluation and changes nothing else, for every schedule. Each function object is used by one thread only, and the first function is told about every individual exactly once.',
     ['schedules'], 'all OpenMP schedules', 'tests run one schedule', ['algorithms/population.cc', 'multiobjective/algorithms/population.cc'], [('evaluate_in_parallel', 'algorithms/population.cc')])

NA = {}
CFG = json.load(open(os.path.join(HERE, 'specs', 'props.json')))
TODO = 'planned; contracts not written yet'

def main():
    for p in P:
        for f in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]:
            assert os.path.exists(os.path.join('/repo', f)), (p['id'], f)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            p['statement'] = p['statement'].strip()
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in CFG and all(os.path.exists(os.path.join(HERE, 'harness', h + '.cc')) for h in CFG[i]['harness']):
            c = CFG[i]
            checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i,
                technique='contract-based deductive verification: C++ functions extracted from /repo via clang AST to WhyML, Why3 VCs discharged by z3/cvc5',
                level='proof', level_note=c.get('note') or 'Every obligation of the functions under contract is discharged on each run for all inputs; functions listed as bounded in the evidence are only evaluated on generated inputs. Trusts the extractor, Why3, the solvers, assumed standard-library contracts, integers and doubles as mathematical numbers.'))
        else:
            na.append(dict(property=i, reason=NA.get(i, TODO)))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__':
    main()
