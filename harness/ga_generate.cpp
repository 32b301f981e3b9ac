// PROPERTY: P27
// SOURCES: core/ga_info.cpp core/population.cpp encoding/real.cpp encoding/integer.cpp encoding/binary.cpp encoding/permutation.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness NoEarlyStop
// BOUNDS: generated candidates of 1..4 genes of every encoding, with symbolic bounds of every gene
// ASSUME: the random helpers return any value of their documented range
// REACH: end
// CONFIG: quick real -DENC=0 hwc=1
// CONFIG: quick integer -DENC=1 hwc=1
// CONFIG: quick binary -DENC=2 hwc=1
// CONFIG: quick permutation -DENC=3 hwc=1
#include "ga_stub.hpp"
#include "encoding/encoding.hpp"
using namespace gapp; using namespace vh;
#if ENC == 0
using Base = RCGA; using G = RealGene;
#elif ENC == 1
using Base = IntegerGA; using G = IntegerGene;
#elif ENC == 2
using Base = BinaryGA; using G = BinaryGene;
#else
using Base = PermutationGA; using G = PermutationGene;
#endif
extern "C" void harness() {
  size_t n = 1 + sym_choice("length", 4); Base ga(1, std::make_unique<StubAlgorithm>(), std::make_unique<StubCrossover<G>>(), std::make_unique<StubMutation<G>>(), std::make_unique<StubStop>()); GA<G>& base = ga; base.fitness_function_ = std::make_unique<detail::FitnessLambda<G>>(n, [](const Chromosome<G>&) { return FitnessVector(1); });
#if ENC < 2
  BoundsVector<G> bounds; for (size_t i = 0; i < n; i++) { G lo = ENC == 0 ? G(sym_grid("lower", -8, 8)) : G(sym_range("lower", -8, 8)), hi = ENC == 0 ? G(sym_grid("upper", -8, 8)) : G(sym_range("upper", -8, 8)); sym_assume(lo <= hi); bounds.push_back(Bounds<G>(lo, hi)); } base.bounds_ = bounds;
#endif
  for (int k = 0; k < 2; k++) { Candidate<G> c = ga.generateCandidate(); sym_assert(c.chromosome.size() == n && !c.is_evaluated, "a generated candidate has one gene for every variable and is not evaluated");
#if ENC < 2
    for (size_t i = 0; i < n; i++) sym_assert(And(c.chromosome[i] >= bounds[i].lower(), c.chromosome[i] <= bounds[i].upper()), "every gene of a generated candidate is within its own bounds");
    for (size_t i = 0; i < n; i++) { G v = c.chromosome[i], l = bounds[i].lower(), u = bounds[i].upper(); sym_possible(And(l < u, v == l), named("lower bound", i)); sym_possible(And(l < u, ENC ? v == u : (v - l) > (u - l) / 16 * 15), named("upper bound", i)); if (i) sym_possible(And(And(l == bounds[0].lower(), u == bounds[0].upper()), v != c.chromosome[0]), named("different genes", 0, i)); }
#elif ENC == 2
    for (size_t i = 0; i < n; i++) sym_assert(c.chromosome[i] == 0 || c.chromosome[i] == 1, "the genes are bits");
    if (n == 3) for (size_t m = 0; m < 8; m++) { bool e = true; for (size_t i = 0; i < 3; i++) e = And(e, c.chromosome[i] == (m >> i & 1)); sym_possible(e, named("bits", m & 1, m >> 1 & 1, m >> 2)); }
#else
    for (size_t i = 0; i < n; i++) { bool in = false; for (size_t j = 0; j < n; j++) in = Or(in, c.chromosome[j] == i); sym_assert(in, "a generated candidate is a permutation"); }
    if (n == 3) for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++) if (a != b) sym_possible(And(c.chromosome[0] == a, c.chromosome[1] == b), named("permutation", a, b, 3 - a - b));
#endif
  }
  sym_reach("end");
}
