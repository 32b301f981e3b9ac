# id, title, statement, quantifier.over, quantifier.text, why_tests_cant, files, mechanisms
I, S, H, C, F = 'inputs', 'schedules', 'histories', 'configurations', 'fault_sequences'
NOT_APPLICABLE = {}
PROPS = [
 ('P01', 'Pareto-front extraction returns exactly the non-dominated solutions',
  'For any set of fitness vectors, the Pareto front that is extracted contains the index of every solution that no other solution dominates, and of no other solution. Duplicated vectors are either all in the front or all out of it, and no index appears twice.',
  [I, C], 'All fitness matrices on a small integer grid up to the stated number of solutions and objectives, for every front-finding routine.',
  'The tests use a few fixed fitness matrices; ties, duplicates and partially equal vectors in every arrangement are not enumerated.',
  ['core/population.cpp', 'core/population.hpp'], [('Pareto-front finders (sorted sweep, best-first, Kung)', 'core/population.cpp')]),
 ('P02', 'Merging two Pareto sets gives the Pareto front of their union',
  'Merging two Pareto-optimal sets of candidates returns exactly the candidates of either set that no candidate of the union dominates, each once and with its fitness unchanged. The result does not depend on how the parallel parts of the merge are interleaved, and the merge has no data race.',
  [I, S], 'All pairs of Pareto sets on a small integer grid; every interleaving of the worker threads within the preemption bound.',
  'The tests merge two fixed sets on whatever schedule the machine produces.',
  ['core/population.hpp', 'core/population.cpp', 'utility/thread_pool.hpp'], [('mergeParetoSets', 'core/population.hpp')]),
 ('P03', 'Non-dominated sorting gives every solution its true front number',
  'For any fitness matrix, non-dominated sorting lists every solution exactly once, in order of front number, and a solution has front number 0 if nothing dominates it and otherwise one more than the largest front number among the solutions dominating it. The result does not depend on earlier sorts of other populations.',
  [I, H], 'All fitness matrices on a small integer grid within the size bounds, for each sorting algorithm, with and without a preceding sort of a different size.',
  'The tests sort one or two fixed populations; equal vectors, chains and reuse of cached working memory in combination are not covered.',
  ['algorithm/nd_sort.cpp', 'algorithm/nd_sort.hpp'], [('fast non-dominated sort, dominance-degree sort, efficient non-dominated sort', 'algorithm/nd_sort.cpp')]),
 ('P33', 'The small vector behaves like a sequence and manages its elements exactly',
  'After any sequence of operations the small-buffer vector holds exactly the elements a reference sequence would hold, in the same order, and returned iterators point at the affected position. Every element is constructed and destroyed exactly once, nothing is leaked or accessed out of bounds, and when an allocation fails the vector stays valid.',
  [H, I, F], 'All operation sequences within the bound from every initial size around the inline capacity, every position and count, and every allocation failure point.',
  'The tests run selected operations on selected sizes; the crossing of inline/heap storage, position, count, tail length and allocation failure is not enumerated.',
  ['utility/small_vector.hpp'], [('in-place and reallocating insertion, erase, assign, swap, move', 'utility/small_vector.hpp')]),
 ('P34', 'The circular buffer behaves like a bounded queue',
  'After any sequence of operations the circular buffer holds exactly the elements a bounded double-ended queue would hold: a push onto a full buffer drops one element at the opposite end, and iteration visits the elements in order from the oldest. No element is leaked or destroyed twice, and a failing capacity change leaves the buffer unchanged.',
  [H, I, F], 'All operation sequences within the bound from every fill level and internal offset; every allocation failure point of a capacity change or copy.',
  'The tests do not cover every internal offset combined with every operation, nor failing element copies.',
  ['utility/circular_buffer.hpp'], [('wrap-around indexing, set_capacity', 'utility/circular_buffer.hpp')]),
 ('P35', 'The dynamic bitset behaves like a vector of booleans',
  'After any construction, bit writes, fills, complement and resizes, every bit, the size, and the any/all/none, popcount, find-first and equality queries of the bitset agree with those of a plain sequence of booleans. This includes empty bitsets and sizes that are not a multiple of the word size.',
  [H, I], 'All sizes at the word boundaries (0, 1, 3, 63, 64, 65, 128, 130) with symbolic bit values at the boundaries and every pair of resizes among them.',
  'The tests use a few fixed sizes and patterns; stale bits in a partial word show up only for particular size and value sequences.',
  ['utility/dynamic_bitset.hpp', 'utility/bit.hpp'], [('partial last word masking', 'utility/dynamic_bitset.hpp')]),
 ('P11', 'Permutation crossovers turn two permutations into two permutations',
  'For every permutation crossover and any two parent permutations of the same genes, both children are permutations of those genes. Children of equal parents equal the parents. The children of order, position, cycle and PMX crossover take the documented genes over from the documented parent, and every range or set of positions can be the one that is kept.',
  [I], 'All pairs of permutations up to the stated length and every value the random helpers may return.',
  'The tests check a handful of fixed parents; the broken cases need a particular pair of permutations and cut points.',
  ['crossover/permutation.cpp', 'crossover/crossover_impl.hpp', 'crossover/neighbour_list.hpp'], [('order, position, cycle, edge and PMX crossover', 'crossover/crossover_impl.hpp')]),
 ('P12', 'Point and uniform crossovers only exchange genes at the same position',
  'In the binary and integer single-point, two-point, n-point and uniform crossovers each child has the chromosome length of the parents, and at every position the two children hold the genes of the two parents at that position, in one order or the other. The n-point variants switch order at most n times along the chromosome.',
  [I], 'All symbolic parents up to the stated length, every number of crossover points and every value the random helpers may return.',
  'Random tests check a few lengths only; a wrong segment boundary shows up for particular crossover points.',
  ['crossover/binary.cpp', 'crossover/integer.cpp', 'crossover/crossover_impl.hpp'], [('n-point crossover', 'crossover/crossover_impl.hpp')]),
 ('P13', 'Real crossovers keep genes in bounds and follow the documented formulas',
  'For parents inside the gene bounds, every gene of both children of the arithmetic, BLX-alpha, simulated binary and Wright crossovers is inside its bounds. The arithmetic children are the complementary linear combinations of the parents, BLX draws from the interval of the parents extended by alpha on both sides, simulated binary keeps shared genes and puts the children on opposite sides of the middle of the parents, and Wright moves from the better parent away from the worse one.',
  [I], 'All parents and bounds on a small dyadic grid (all doubles in the thorough runs), including degenerate bounds, and every random value.',
  'Tests sample a few parents; bounds that coincide with a gene and extreme random values are not sampled.',
  ['crossover/real.cpp', 'crossover/real.hpp'], [('real crossovers', 'crossover/real.cpp')]),
 ('P14', 'The crossover wrapper reuses fitness only for unchanged chromosomes',
  'A crossover leaves its parents unchanged and is performed with the crossover rate: never with rate 0 and always with rate 1 for different parents. When it is not performed the children are evaluated copies of the parents, and when it is performed they have the chromosomes the operator produced and count as evaluated only with the fitness of a parent that has the same chromosome.',
  [I, C], 'All parents, children, stale fitness values and flags within the bounds, every crossover rate and random draw.',
  'The reuse of a fitness value is visible only when a child accidentally equals a parent.',
  ['crossover/crossover_base.impl.hpp', 'core/candidate.hpp'], [('Crossover::operator()', 'crossover/crossover_base.impl.hpp')]),
 ('P15', 'Bounded mutations keep genes in bounds and follow the mutation rate',
  'The binary, integer and real mutations keep the chromosome length and leave every gene inside its bounds. Mutation rate 0 changes nothing and never more genes change than were drawn from the mutation rate. The binary flip changes exactly the drawn number of genes, the integer uniform mutation changes every drawn gene that has more than one possible value, and the boundary mutation moves genes to one of their bounds. The Gauss mutation uses the documented standard deviation, and genes can move both up and down, to the bounds and inside.',
  [I], 'All chromosomes and gene bounds within the stated sizes, every mutation rate and every value the random helpers may return.',
  'Tests use wide bounds and typical rates; single-valued genes, genes at the bounds and extreme rates are not covered.',
  ['mutation/real.cpp', 'mutation/integer.cpp', 'mutation/binary.cpp'], [('bounded mutations', 'mutation/real.cpp')]),
 ('P16', 'Permutation mutations return a permutation changed in the documented way',
  'Every permutation mutation returns a permutation of the same genes. Rate 0 changes nothing and rate 1 always mutates when the chromosome is long enough. Inversion reverses one range, swap2 exchanges two genes, swap3 moves three genes, shuffle changes one range and shift moves one range, with ranges no longer than the configured maximum (or the minimum possible).',
  [I], 'All permutations up to the stated length, every rate and range limit and every value the random helpers may return.',
  'Tests use one length and default settings; short chromosomes and extreme range limits are where the index arithmetic breaks.',
  ['mutation/permutation.cpp', 'mutation/permutation.hpp'], [('permutation mutations', 'mutation/permutation.cpp')]),
 ('P17', 'The mutation wrapper keeps a candidate evaluated only if it is unchanged',
  'A mutation passes the chromosome of the candidate to the operator once. An evaluated candidate stays evaluated, with the same fitness, only if the operator left its chromosome unchanged, and a candidate that was not evaluated does not become evaluated.',
  [I, H], 'All chromosomes, evaluation flags and operator results within the bounds, for two candidates in succession.',
  'A stale fitness shows up only when the operator undoes or leaves out a change.',
  ['mutation/mutation_base.impl.hpp', 'core/candidate.hpp'], [('Mutation::operator()', 'mutation/mutation_base.impl.hpp')]),
 ('P24', 'The FIFO cache holds the values of the most recently added keys',
  'After any sequence of insertions, range insertions, resets, copies, moves and swaps the cache holds the values last stored for the most recently added distinct keys, at most as many as its capacity, dropping the key that was added first when it is full. Lookups never return a value of another key, and nothing is leaked.',
  [H, I], 'All operation sequences within the bound over every capacity and every key pattern.',
  'Tests use a few fixed sequences; evictions combined with updates of existing keys and capacity changes are not enumerated.',
  ['utility/cache.hpp', 'utility/circular_buffer.hpp'], [('insertion and eviction', 'utility/cache.hpp')]),
 ('P36', 'The matrix behaves like a list of equally long rows',
  'After any construction, row append, row removal, resize of the row count, copy, move or row assignment and swap, every element, row, column and iterator of the matrix agrees with those of a plain list of rows, including matrices with no elements.',
  [H, I], 'All matrices up to 3 by 3 with symbolic elements; every operation with every row and column argument.',
  'Tests use a few fixed matrices.',
  ['utility/matrix.hpp'], [('row proxies and row iterators', 'utility/matrix.hpp')]),
 ('P37', 'Iterators obey the random access iterator laws',
  'For the stable iterators, the matrix row iterators, the circular buffer iterators and the counting iterators, offsets, signed differences, comparisons, increments, decrements and indexing agree with positions in the range, and a stable iterator survives a reallocation of its container.',
  [I], 'All pairs of positions in ranges up to the stated size; every value of the counting iterators.',
  'Tests compare a few fixed positions.',
  ['utility/iterators.hpp', 'utility/matrix.hpp', 'utility/circular_buffer.hpp'], [('stable_iterator_base, iota_iterator', 'utility/iterators.hpp')]),
 ('P48', 'Neighbour lists hold exactly the neighbours of each gene',
  'The neighbour list of a gene holds each neighbour the gene has in either parent exactly once and nothing else. Adding a value twice has no effect, and removing a value removes it and nothing else.',
  [I, H], 'All pairs of permutations and all operation sequences within the bounds.',
  'Only the finished children of an edge crossover are tested.',
  ['crossover/neighbour_list.hpp'], [('NeighbourList, makeNeighbourLists', 'crossover/neighbour_list.hpp')]),
 ('P05', 'NSGA-II keeps the best fronts and the least crowded solutions',
  'The next population of NSGA-II has the population size and consists of different solutions of the merged parents and children. No solution of a better front is left out in favour of one from a worse front, and of the last front the solutions with larger crowding distances survive. A parent selected afterwards is the better one of the drawn candidates, by front and then by crowding distance, and the optimal solutions are exactly the first front.',
  [I, H], 'All fitness matrices, ties included, and all random draws within the stated bounds, right after the initialization and after a generation.',
  'The tests only run the whole algorithm on benchmark problems and look at the result, which hides a wrong order of survivors or parents.',
  ['algorithm/nsga2.cpp', 'algorithm/nd_sort.cpp'], [('crowding distance, survivor and parent selection', 'algorithm/nsga2.cpp')]),
 ('P06', 'NSGA-III keeps the best fronts and fills the reference lines evenly',
  'The next population of NSGA-III has the population size and consists of different solutions of the merged parents and children. No solution of a better front is left out. The last front fills the reference lines that have the fewest solutions first, and among the solutions of that front associated with the same line the closest ones survive. Of two parents drawn from the same line the one from the better front, and then the closer one, is selected. The optimal solutions are exactly the first front.',
  [I, H], 'All placements of the solutions on the stated positions and all random draws within the bounds, right after the initialization and after a generation.',
  'The tests only run the whole algorithm on benchmark problems; the niching bookkeeping is not observable there.',
  ['algorithm/nsga3.cpp', 'algorithm/nd_sort.cpp'], [('niching survivor selection', 'algorithm/nsga3.cpp')]),
 ('P08', 'Selection methods choose parents by the documented rule',
  'For every population and every random draw, a tournament returns the best of its drawn candidates, and the rank, roulette, sigma and Boltzmann methods return the candidate whose share of the total documented weight contains the random threshold, so that each candidate is selected with its documented probability; every candidate with a positive probability can be selected. Every selected index is valid, for populations of a single candidate and degenerate fitness values too.',
  [I, H], 'Every random threshold and draw, over the stated populations, fitness values and operator parameters; the methods are reused after being prepared for another population.',
  'The tests only check that the best candidates are chosen more often over many random draws.',
  ['algorithm/soga_selection.cpp', 'algorithm/single_objective.cpp', 'utility/rng.cpp'], [('selection weights', 'algorithm/soga_selection.cpp'), ('sampleCdf', 'utility/rng.hpp')]),
 ('P09', 'Replacement policies keep the documented survivors',
  'The next population of the single-objective algorithm has the population size and consists of different candidates of the parents and children, with their chromosomes and fitness unchanged. KeepChildren keeps only children, Elitism exactly the requested number of parents, the best ones, next to different children, and KeepBest the best of all candidates.',
  [I], 'All fitness values, ties included, for the stated numbers of parents, children and elites.',
  'The tests use one fixed population per policy.',
  ['algorithm/soga_replacement.cpp', 'algorithm/single_objective.cpp'], [('nextPopulationImpl', 'algorithm/soga_replacement.cpp')]),
 ('P10', 'Optimal solutions are the non-dominated candidates',
  'The optimal solutions an algorithm reports for a population, including those of algorithms that keep no account of them, are exactly its non-dominated candidates, and merging them with the ones found before gives exactly the non-dominated ones of both, with no candidate of equal chromosome repeated.',
  [I], 'All fitness values and chromosomes within the bounds.',
  'The tests look at the result of whole runs only.',
  ['algorithm/algorithm_base.hpp', 'core/population.hpp', 'core/ga_base.impl.hpp'], [('optimalSolutions, updateOptimalSolutions', 'algorithm/algorithm_base.hpp')]),
 ('P23', 'Fitness values are those of the fitness function',
  'In every generation every candidate of the population holds the fitness that the fitness function returns for its chromosome, with and without a cache. A candidate that did not change is not evaluated again, with a large enough cache no candidate of an earlier generation is, a dynamic fitness function is called for every new candidate, and the evaluations are counted.',
  [I, H], 'Every initial population and every outcome of the operators, for symbolic fitness tables, within the stated population sizes and generation counts.',
  'Tests run the GA with random operators and cannot control when a child equals a parent, a cached or a surviving candidate.',
  ['core/ga_base.impl.hpp', 'crossover/crossover_base.impl.hpp', 'mutation/mutation_base.impl.hpp', 'utility/cache.hpp'], [('evaluate', 'core/ga_base.impl.hpp'), ('operator()', 'mutation/mutation_base.impl.hpp')]),
 ('P25', 'A run follows the documented generation loop',
  'A run lasts until the stop condition is met or the maximum number of generations is reached, whichever comes first. In every generation the selection is prepared once, two parents are selected for every pair of children, every child is mutated and repaired, the population size is kept, and metrics, callback and stop condition are each invoked once, in this order, with the number of the generation. The settings and the state of one run do not affect the next.',
  [I, H], 'Every combination of generation limits and stop generations in two consecutive runs for the stated population sizes.',
  'Tests only look at the final state of runs.',
  ['core/ga_base.impl.hpp', 'stop_condition/stop_condition_base.cpp', 'metrics/metric_set.cpp'], [('solve, initializeAlgorithm, advance', 'core/ga_base.impl.hpp')]),
 ('P26', 'A run returns exactly the non-dominated solutions',
  'The solutions of a run are exactly the non-dominated candidates of the last population, or of all the populations of the run when all the optimal solutions are kept, with their fitness, without repetition and without solutions of an earlier run.',
  [I, H], 'Every fitness table, initial population and outcome of the operators within the bounds.',
  'Tests compare the solutions with the known optimum of benchmark problems.',
  ['core/ga_base.impl.hpp', 'core/population.cpp', 'core/population.hpp'], [('updateOptimalSolutions', 'core/ga_base.impl.hpp'), ('mergeParetoSets', 'core/population.hpp')]),
 ('P27', 'The first population starts with the given candidates',
  'The first population has the population size, starts with the preset candidates in their order, truncated or completed with generated ones, and every candidate of it has its fitness; preset candidates that are already evaluated are not evaluated again by a static fitness function. The genes of generated candidates are within their own bounds (or form a permutation), and every gene value and permutation can be generated.',
  [I], 'Every number of preset candidates around the population size, evaluated or not.',
  'Tests use one initial population.',
  ['core/ga_base.impl.hpp'], [('generatePopulation', 'core/ga_base.impl.hpp')]),
 ('P28', 'Stop conditions stop exactly when documented',
  'FitnessEvals stops once the evaluation limit is reached, FitnessValue once a solution is equal to or better than the threshold, and the stall conditions once the best or mean fitness has not improved by at least delta in any objective for more generations than the patience, counted from the last improvement and from the start of each run. Every condition stops in the last generation.',
  [I, H], 'Evaluation counts and limits of full width, every threshold and every history of fitness values within the bounds.',
  'Tests use stop conditions in whole runs without checking when they stop.',
  ['stop_condition/stop_condition.cpp', 'stop_condition/stop_condition.hpp', 'stop_condition/stop_condition_base.cpp'], [('metricImproved', 'stop_condition/stop_condition.cpp')]),
 ('P29', 'Composite stop conditions follow boolean logic',
  'A stop condition built with and, or and not from other conditions has the outcome of the logical expression, initializes each of its parts once per run, and evaluates each of them once in every generation while the run goes on.',
  [I, H], 'Eleven expressions of up to three conditions with every sequence of outcomes.',
  'No test checks the outcome of composite conditions.',
  ['stop_condition/composite.hpp'], [('AND, OR, NOT', 'stop_condition/composite.hpp')]),
 ('P32', 'A GA uses what it was configured with',
  'After any constructor and any sequence of setters a run uses the algorithm, operators, rates, stop condition and metrics set last. Where none was set, or a nullptr was, the algorithm fits the number of objectives of the run, the mutation rate is the default one for the chromosome length of the run, and there is no early stop.',
  [C, H], 'Every constructor followed by one or two setters, and two runs with different numbers of objectives and chromosome lengths.',
  'Tests use a few of the constructors and setters, and do not run one GA with different problems.',
  ['core/ga_base.impl.hpp', 'core/ga_info.cpp', 'core/ga_info.hpp', 'metrics/metric_set.hpp'], [('constructors', 'core/ga_base.impl.hpp')]),
 ('P19', 'Random numbers stay within their documented range',
  'Whatever the generator returns, a random integer lies in its closed range (for every integer type, including the full range of the type), a random real number lies in [0, 1), and between its bounds when bounds are given. A random index or element belongs to its range, and a binomial number lies between 0 and n, being 0 for probability 0 and n for probability 1. Normal and Poisson values are drawn with the requested parameters. Random bools use every generated bit only once.',
  [I, C], 'All 64 bit outputs of the generator, for the stated ranges of every integer width and both signs, the stated real bounds, and every n and p within the bounds.',
  'The tests draw some thousand samples from a few ranges; one boundary output of the generator in 2^64 is never drawn.',
  ['utility/rng.hpp', 'utility/distribution.hpp'], [('uniform, binomial and bool distributions', 'utility/distribution.hpp'), ('random helpers', 'utility/rng.hpp')]),
 ('P20', 'Sampling without replacement returns distinct values of the range',
  'Sampling some number of unique integers from a range returns exactly that many values, all of them different and all inside the range, whatever the random draws are, for every integer type and for ranges at either end of the type. Every subset of the range can be the result.',
  [I], 'All counts and random draws for the small ranges within the bounds at both ends of each type, and for huge ranges with every collision pattern of the draws.',
  'The tests sample a few ranges at random; collisions and the ends of the integer types are rare or absent.',
  ['utility/rng.hpp'], [('sampleUnique for small and large ranges', 'utility/rng.hpp')]),
 ('P21', 'Sampling a cumulative distribution selects the index that owns the draw',
  'Sampling from a cumulative distribution draws one threshold between 0 and the last value of the distribution, and returns the index whose share contains the threshold: the smallest index whose cumulative value is not below it. The index is always inside the distribution, and for a positive threshold its weight is not 0.',
  [I], 'All nondecreasing distributions on a grid up to the stated length, with repeated values, and every threshold.',
  'The tests use fixed distributions; ties of the threshold with a value of the distribution and repeated values do not occur.',
  ['utility/rng.hpp'], [('sampleCdf', 'utility/rng.hpp')]),
 ('P22', 'Setting the seed makes every later random number reproducible',
  'After the seed is set, all random numbers of every kind that a thread draws are the same as after any earlier setting of the same seed, whatever was drawn before, including draws left over in the bool, normal and Poisson distributions. Different threads have different sequences. A thread that has ended plays no part in a later seeding.',
  [I, H, S], 'Every 64 bit seed and every short history of draws of each kind before the seed is set; every interleaving of two threads within the preemption bound.',
  'The tests do not vary the history before the seed is set, and have no control over the schedule of the threads.',
  ['utility/rng.hpp', 'utility/distribution.hpp'], [('seeding of the registered generators, reset of the distributions', 'utility/rng.hpp')]),
 ('P41', 'A parallel loop runs every iteration exactly once and then returns',
  'For any number of iterations, block size and number of threads, a parallel loop runs every iteration exactly once, and all effects are visible to the caller when it returns; nested loops do not deadlock. When iterations throw, one of their exceptions reaches the caller, but only after no task of the loop is running or waiting anymore, and the pool can be used again. The number of threads can be changed between loops.',
  [S, I, C], 'Every interleaving of up to 4 threads within the preemption bound, every subset of throwing iterations, every loop and block size within the bounds, nested loops and resizes.',
  'The tests see only the schedules the machine happens to produce, and exceptions at one place.',
  ['utility/thread_pool.hpp', 'utility/latch.hpp', 'utility/concurrent_queue.hpp', 'utility/functional.hpp'], [('execute_loop, worker threads', 'utility/thread_pool.hpp')]),
 ('P42', 'The concurrent queue delivers every accepted element exactly once',
  'Every element that the concurrent queue accepts is taken exactly once by some consumer, and each consumer gets the elements of one producer in the order they were added. After the queue has been closed it accepts no further element, the remaining ones are still delivered, and then every waiting and later consumer is told that the queue has ended; none of them sleeps forever.',
  [S], 'Every interleaving of up to two producers, two consumers and a closing thread within the preemption bound.',
  'A lost wakeup or a doubly taken element needs one particular interleaving of several threads.',
  ['utility/concurrent_queue.hpp'], [('concurrent_queue', 'utility/concurrent_queue.hpp')]),
 ('P43', 'The locks and the latch exclude and order as documented',
  'At most one thread is inside an exclusive section of a lock, and no thread is in a shared section at that time; a try succeeds only when this allows it. Writes made in a section are visible in later sections. A latch opens exactly when it has been counted down to 0, and everything done before the counting is visible after the wait. No thread waits forever.',
  [S], 'Every interleaving of up to three threads with exclusive, shared and tried sections within the preemption bound, with a happens-before check of all unsynchronised accesses.',
  'The tests run a few threads on whatever schedule occurs, on hardware that hides most missing orderings.',
  ['utility/spinlock.hpp', 'utility/shared_spinlock.hpp', 'utility/latch.hpp'], [('spinlock', 'utility/spinlock.hpp'), ('shared_spinlock', 'utility/shared_spinlock.hpp'), ('latch', 'utility/latch.hpp')]),
 ('P44', 'Readers of an RCU object always see a complete, living value',
  'Inside a read section a reader of an RCU object sees one complete value that was stored, which is neither changed nor destroyed before the section ends, and it never goes back to an older value. An update returns only after every reader that may see the old value has left, every replaced value is destroyed exactly once, and threads that have ended do not hold updates up.',
  [S], 'Every interleaving of up to two readers and two writers within the preemption bound.',
  'A premature destruction needs a reader to be interrupted at one particular instruction.',
  ['utility/rcu.hpp', 'utility/shared_spinlock.hpp'], [('rcu_domain, rcu_obj', 'utility/rcu.hpp')]),
 ('P04', 'Tolerant floating point and Pareto comparisons are consistent', 'For any absolute and relative tolerance (relative at most 1) and any two values that are not NaN, exactly one of less, equal and greater holds; swapping the operands mirrors the result, the non-strict and three-way forms agree with the strict ones, values are equal exactly when their distance is within the larger of the two tolerances, and with zero tolerances the comparisons are exact. The Pareto comparison of two vectors follows from the component comparisons: better in one and worse in none; all its forms agree. A tolerance scope restores the tolerances it replaced.',
  [I], 'Every pair of values and tolerances on the stated grids, infinities, and every pair of doubles for zero tolerances.',
  'A wrong scale or a strict comparison swapped for a non-strict one only shows when a difference lies exactly at a tolerance.',
  ['utility/math.cpp', 'utility/math.hpp'], [('floatIsEqual, floatIsLess, paretoCompareLess', 'utility/math.cpp')]),
 ('P30', 'Fitness metrics record the right statistic of every generation', 'Every tracked metric records one value per generation of the current run: the minimum, maximum, mean, variance (n-1), standard deviation and nadir point of the fitness of the population of that generation for every objective, and the number of evaluations of that generation alone. A new run starts the record again, a metric is found by its type exactly if it is tracked.',
  [I, H], 'Every population of the stated sizes on a fitness grid, over two generations of two runs.',
  'An unreset record or a wrong divisor appears only in a second run, or for particular population sizes.',
  ['metrics/pop_stats.cpp', 'metrics/fitness_metrics.cpp', 'metrics/misc_metrics.cpp', 'metrics/metric_set.cpp'], [('fitnessMin, fitnessVariance, MetricSet', 'metrics/pop_stats.cpp')]),
 ('P31', 'The hypervolume metrics measure exactly the dominated volume', 'The hypervolume of a population is the volume of the union of the boxes between the reference point and the points, computed independently of the order of the points, of duplicates and dominated points, and of the number of threads. The metric without a given reference point uses the worst value seen in any generation of the run, for every recorded generation.',
  [I, S, H], 'Every set of up to 4 points on a grid with 1 to 3 objectives; every schedule of the parallel sum within the bound.',
  'Errors show for particular arrangements of points (ties in one coordinate, dominated points), or when a later generation moves the reference point.',
  ['metrics/pop_stats.cpp', 'metrics/distribution_metrics.cpp'], [('hypervolume', 'metrics/pop_stats.cpp')]),
 ('P38', 'A cone tree finds the point with the largest inner product', 'A cone tree holds exactly the points it was built from. For every query vector the match it reports is one of these points, the reported product is the inner product of that point and the query, and no other point of the tree has a larger one. An empty tree reports no match.',
  [I, H], 'Every query of the grid, for symbolic small trees and for listed point sets that need several levels.',
  'A wrong bound prunes the right branch only for particular queries and arrangements of points.',
  ['utility/cone_tree.cpp', 'utility/cone_tree.hpp'], [('ConeTree::findBestMatch', 'utility/cone_tree.cpp')]),
 ('P39', 'Reference line generators yield the requested points of the simplex', 'Every reference line generator yields exactly the requested number of points of the requested dimension, with coordinates between 0 and 1 that sum to one, for every sequence of points of the unit cube. The sparse subset selection yields the requested number of distinct candidates, each as far as possible from those selected before it.',
  [I], 'Every point of the unit cube on a grid for the generators; every candidate set on a grid for the selection.',
  'Generators fail for particular points only (equal coordinates, zeros, the border of the simplex).',
  ['algorithm/reference_lines.cpp', 'algorithm/reference_lines.hpp'], [('quasirandomSimplexPoints*, pickSparseSubset', 'algorithm/reference_lines.cpp')]),
 ('P40', 'The benchmark functions compute their published formulas', 'For every point of their domain the real and binary benchmark problems return the values of their published definitions (negated for maximisation), one per objective; the stated optimum is in the domain and reaches the optimal value, no point is better than the ideal point. The binary encoding of a problem evaluates the real function at the point that the bits of each variable encode, and covers both ends of the bounds.',
  [I], 'Every point on a grid over the domain for 2 and 3 variables; every bit pattern within the stated widths.',
  'A wrong term vanishes at the optimum, which is the point that tests look at.',
  ['problems/single_objective.cpp', 'problems/multi_objective.cpp', 'problems/many_objective.cpp', 'problems/benchmark_function.cpp'], [('invoke', 'problems/many_objective.cpp')]),
 ('P46', 'TSP and string problems score every candidate correctly', 'The fitness of a tour of a travelling salesman problem is the negative length of the closed tour that also visits the last city, whichever order the cities are in, and a tour and its reverse score the same. The fitness of a string is the number of characters that match the target, and the bounds admit every printable target.',
  [I], 'Every tour of up to 5 cities in listed arrangements; every string of up to 4 characters with every target.',
  'A wrong leg of the tour affects only tours in which it differs from the right one.',
  ['problems/travelling_salesman.cpp', 'problems/integer.cpp', 'problems/travelling_salesman.hpp'], [('TSP::invoke', 'problems/travelling_salesman.cpp')]),
 ('P49', 'Bounded parameters accept exactly the values of their interval', 'An interval contains exactly the values between its ends, and each end only if it is closed there; NaN is in none. The bounded parameter types (Probability, Positive, NonNegative, Negative, Normalized and custom ones) accept exactly the values of their interval and keep them unchanged when copied and assigned.',
  [I], 'Every value of the underlying type, and every pair of ends.',
  'Only the ends, the next representable values, infinities and NaN tell apart the wrong interval from the right one.',
  ['utility/bounded_value.hpp'], [('Interval::contains, BoundedValue', 'utility/bounded_value.hpp')]),
 ('P45', 'Index and search algorithms return what their names promise', 'For every sequence: argsort and partial_argsort return every index once, with the (first) elements in order; lower_bound finds the first element not before the searched value; argmax, argmin, max_element, min_element return the best element, the first visited among equals; find, contains, index_of, erase_duplicates and the selecting and shuffling helpers find, keep or permute exactly the elements asked for. The function wrappers and composers call what they hold with the arguments given.',
  [I], 'Every sequence up to the bounds, with every pattern of ties, and every position and direction.',
  'Off by one errors and ties show up only for particular lengths and patterns of equal elements.',
  ['utility/algorithm.hpp', 'utility/functional.hpp', 'utility/utility.hpp'], [('partial_argsort, lower_bound, argmax', 'utility/algorithm.hpp'), ('function_ref, move_only_function', 'utility/functional.hpp')]),
 ('P47', 'The quasi-random sequence is well defined for every seed', 'Every point that QuasiRandom generates has its dimension and lies in the unit cube [0, 1), for every non-negative finite seed. Consecutive points differ (modulo one) by the ratios of the generalized golden ratio sequence; discard(n) equals generating n points, and reset(seed) restarts exactly the sequence of that seed.',
  [I, F], 'Every seed of the type for single steps, and a grid of seeds for sequences.',
  'The tests use the default seed only.',
  ['utility/qrng.hpp'], [('QuasiRandom::operator()', 'utility/qrng.hpp')]),
 ('P50', 'The vector and statistics helpers compute their definitions', 'The norm, the distances between points and from a line, the volume between points, normalisation, mean, standard deviation and the integral of the powers of the sine agree with their definitions for every vector of the grid.',
  [I], 'Every vector up to the bounds on an integer grid.',
  'A wrong formula can agree with the right one on the few vectors of a test.',
  ['utility/math.cpp', 'utility/math.hpp'], [('perpendicularDistanceSq, stdDev, integralSinPow', 'utility/math.cpp')]),
 ('P18', 'Parallel generations are race free and equal to sequential ones', 'When a generation is created and evaluated on several threads, no two of them access the same data without synchronisation, and the result is that of a sequential run: every pair of children is created once from the selected parents, every child is mutated, repaired and evaluated once, holds the fitness of its own chromosome (also with a cache), and every evaluation is counted.',
  [S, I], 'Every interleaving of two or three worker threads within the preemption bound, every initial population and mutation of two genes, with symbolic fitness values.',
  'A race shows up in a test only when the machine happens to produce the schedule.',
  ['core/ga_base.impl.hpp', 'utility/thread_pool.hpp', 'core/fitness_function.hpp', 'utility/cache.hpp'], [('GA::advance, GA::evaluate', 'core/ga_base.impl.hpp'), ('thread_pool::execute_loop', 'utility/thread_pool.hpp')]),
]
