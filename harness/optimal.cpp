// PROPERTY: P10
// SOURCES: algorithm/soga_selection.cpp algorithm/soga_replacement.cpp algorithm/single_objective.cpp core/population.cpp core/ga_info.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop 3GAI crossover mutation
// BOUNDS: known optima of 0..2 candidates and a population of 2 (3 in thorough) with 1 or 2 objectives on a grid of 4 levels and symbolic genes in 0..2 (equal chromosomes possible); algorithms that list their optimal solutions and ones that do not
// ASSUME: equal chromosomes have equal fitness (static fitness function); the known optima form a Pareto set of different chromosomes, which earlier updates establish
// REACH: end
// CONFIG: quick empty_2_1obj -DKNOWN=0 -DPOP=2 -DNOBJ=1 -DLIST=0
// CONFIG: quick one_2_1obj -DKNOWN=1 -DPOP=2 -DNOBJ=1 -DLIST=0
// CONFIG: quick one_2_2obj -DKNOWN=1 -DPOP=2 -DNOBJ=2 -DLIST=0
// CONFIG: quick two_2_2obj -DKNOWN=2 -DPOP=2 -DNOBJ=2 -DLIST=0
// CONFIG: quick one_2_list -DKNOWN=1 -DPOP=2 -DNOBJ=2 -DLIST=1
// CONFIG: thorough two_3_1obj -DKNOWN=2 -DPOP=3 -DNOBJ=1 -DLIST=0 heavy=1
// CONFIG: thorough one_3_2obj -DKNOWN=1 -DPOP=3 -DNOBJ=2 -DLIST=0 heavy=1
#include "ga_stub.hpp"
#include "algorithm/single_objective.hpp"
using namespace gapp; using namespace vh;
struct ListAlgorithm : StubAlgorithm { small_vector<size_t> list; small_vector<size_t> optimalSolutionsImpl(const GaInfo&) const override { return list; } };
extern "C" void harness() {
  constexpr size_t N = KNOWN + POP; TestGA<int> ga(POP); ga.problem(1, NOBJ); double f[N][NOBJ]; int gene[N];
  auto alg = std::make_unique<ListAlgorithm>();
  for (size_t i = 0; i < N; i++) { gene[i] = (int)sym_choice("gene", 3); for (size_t k = 0; k < NOBJ; k++) f[i][k] = sym_grid("f", 0, 3); }
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < i; j++) if (gene[i] == gene[j]) for (size_t k = 0; k < NOBJ; k++) sym_assume(f[i][k] == f[j][k]);
  for (size_t i = 0; i < KNOWN; i++) for (size_t j = 0; j < KNOWN; j++) if (i != j) { sym_assume(gene[i] != gene[j]); sym_assume(!dominates(f[i], f[j], NOBJ)); }
  auto make = [&](size_t i) { Candidate<int> c{ gene[i] }; c.fitness = FitnessVector(f[i], f[i] + NOBJ); c.is_evaluated = true; return c; };
  Candidates<int> known; Population<int> pop; for (size_t i = 0; i < N; i++) (i < KNOWN ? known : pop).push_back(make(i));
  if (LIST) for (size_t i = 0; i < POP; i++) { bool d = false; for (size_t j = 0; j < POP; j++) d = Or(d, dominates(f[KNOWN + j], f[KNOWN + i], NOBJ)); if (!d) alg->list.push_back(i); }
  ga.algorithm_ = std::move(alg); ga.population_ = pop; ga.fitness_matrix_ = detail::toFitnessMatrix(pop);
  ga.updateOptimalSolutions(known, pop);
  int count[3] = {};
  for (auto& c : known) { sym_assert(c.chromosome.size() == 1 && c.chromosome[0] >= 0 && c.chromosome[0] < 3, "the optimal solutions come from the inputs"); int g = c.chromosome[0]; count[g]++; sym_assert(c.fitness.size() == NOBJ && c.is_evaluated, "the optimal solutions stay evaluated"); bool found = false; for (size_t i = 0; i < N; i++) if (gene[i] == g) { found = true; for (size_t k = 0; k < NOBJ; k++) sym_assert(c.fitness[k] == f[i][k], "the optimal solutions keep their fitness"); } sym_assert(found, "the optimal solutions come from the inputs"); }
  for (size_t i = 0; i < N; i++) { bool d = false; for (size_t j = 0; j < N; j++) d = Or(d, dominates(f[j], f[i], NOBJ)); sym_assert(count[gene[i]] <= 1, "no chromosome is listed twice"); sym_assert((count[gene[i]] == 1) == !d, "the optimal solutions are exactly the non-dominated candidates seen so far"); }
  sym_reach("end");
}
