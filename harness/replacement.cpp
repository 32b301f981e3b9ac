// PROPERTY: P09
// SOURCES: algorithm/soga_selection.cpp algorithm/soga_replacement.cpp algorithm/single_objective.cpp core/population.cpp core/ga_info.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop 3GAI crossover mutation
// BOUNDS: 2 or 3 parents (quick) / 4 (thorough) and as many children, or one more, with symbolic fitness values on a grid (ties included); every number of elites from 0 to more than the population size; candidates identified by their genes
// ASSUME: fitness values are equal or differ by more than the comparison tolerance
// REACH: end
// CONFIG: quick keep_children_3 -DMETHOD=0 -DPOP=3 -DEXTRA=0
// CONFIG: quick elitism_2 -DMETHOD=1 -DPOP=2 -DEXTRA=0
// CONFIG: quick elitism_3 -DMETHOD=1 -DPOP=3 -DEXTRA=0
// CONFIG: quick elitism_2x -DMETHOD=1 -DPOP=2 -DEXTRA=1
// CONFIG: quick keep_best_2 -DMETHOD=2 -DPOP=2 -DEXTRA=0
// CONFIG: quick keep_best_3 -DMETHOD=2 -DPOP=3 -DEXTRA=0 heavy=1
// CONFIG: quick default_2 -DMETHOD=3 -DPOP=2 -DEXTRA=1
// CONFIG: thorough elitism_4 -DMETHOD=1 -DPOP=4 -DEXTRA=0 heavy=1
// CONFIG: thorough keep_best_3x -DMETHOD=2 -DPOP=3 -DEXTRA=1 heavy=1
#include "ga_stub.hpp"
#include "algorithm/single_objective.hpp"
using namespace gapp; using namespace vh;
extern "C" void harness() {
  constexpr size_t N = 2 * POP + EXTRA; TestGA<int> ga(POP); ga.problem(1, 1); double f[N];
  std::unique_ptr<algorithm::Algorithm> alg; size_t elites = 0;
  if (METHOD == 0) alg = std::make_unique<algorithm::SingleObjective>(selection::Tournament{}, replacement::KeepChildren{});
  if (METHOD == 1) { size_t n = sym_choice("elites", POP + 2); elites = n < POP ? n : POP; replacement::Elitism e(1); e.elite_num(n); alg = std::make_unique<algorithm::SingleObjective>(selection::Tournament{}, e); }
  if (METHOD == 2) alg = std::make_unique<algorithm::SingleObjective>(selection::Tournament{}, replacement::KeepBest{});
  if (METHOD == 3) alg = std::make_unique<algorithm::SingleObjective>();
  Population<int> parents, children; for (size_t i = 0; i < N; i++) { f[i] = sym_grid("f", -3, 3); Candidate<int> c{ int(i) }; c.fitness = { f[i] }; c.is_evaluated = true; (i < POP ? parents : children).push_back(c); }
  ga.population_ = parents; ga.fitness_matrix_ = detail::toFitnessMatrix(parents);
  alg->initialize(ga); Population<int> next = alg->nextPopulation(ga, parents, children);
  sym_assert(next.size() == POP, "the next population has the population size"); bool in[N] = {}; size_t np = 0;
  for (auto& c : next) { sym_assert(c.chromosome.size() == 1 && size_t(c.chromosome[0]) < N, "the survivors are parents or children"); size_t id = c.chromosome[0]; sym_assert(!in[id], "no candidate survives twice"); in[id] = true; np += id < POP; sym_assert(c.fitness.size() == 1 && c.is_evaluated, "the survivors stay evaluated"); sym_assert(c.fitness[0] == f[id], "the survivors keep their fitness"); }
  if (METHOD <= 1) { sym_assert(np == elites, "exactly the requested number of parents survives"); for (size_t i = 0; i < POP; i++) for (size_t j = 0; j < POP; j++) if (in[i] && !in[j]) sym_assert(f[i] >= f[j], "the surviving parents are the best ones"); }
  else for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (in[i] && !in[j]) sym_assert(f[i] >= f[j], "the survivors are the best candidates");
  sym_reach("end");
}
