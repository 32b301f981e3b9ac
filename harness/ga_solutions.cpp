// PROPERTY: P26
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: runs of populations of 2 candidates with one gene of 2 or 3 values, for 1..3 generations, with every initial population and every outcome of the mutations, for every fitness table of 1 or 2 objectives on a grid; the run is repeated on the same object after a run of one generation with another fitness function
// ASSUME: a single worker thread; fitness values are equal or differ by more than the comparison tolerance
// REACH: end
// CONFIG: quick last_1obj -DGENS=2 -DGENES=3 -DNOBJ=1 -DKEEP=0 hwc=1
// CONFIG: quick last_2obj -DGENS=2 -DGENES=3 -DNOBJ=2 -DKEEP=0 hwc=1
// CONFIG: quick all_1obj -DGENS=2 -DGENES=3 -DNOBJ=1 -DKEEP=1 hwc=1
// CONFIG: quick all_2obj -DGENS=2 -DGENES=3 -DNOBJ=2 -DKEEP=1 hwc=1
// CONFIG: quick first_2obj -DGENS=1 -DGENES=3 -DNOBJ=2 -DKEEP=1 hwc=1
// CONFIG: thorough last_gen3 -DGENS=3 -DGENES=2 -DNOBJ=2 -DKEEP=0 hwc=1
// CONFIG: thorough all_gen3 -DGENS=3 -DGENES=3 -DNOBJ=2 -DKEEP=1 hwc=1 heavy=1
// CONFIG: thorough all_2obj_4 -DGENS=2 -DGENES=4 -DNOBJ=2 -DKEEP=1 hwc=1 heavy=1
#include "ga_run.hpp"
using namespace gapp; using namespace vh;
extern "C" void harness() {
  Run run; g_run = &run; run.nobj = NOBJ; RunGA ga(2, GENES); ga.keep_all_optimal_solutions(KEEP);
  run.table[0][0] = 100.0; run.table[0][1] = 100.0; ga.fixed = true; ga.solve(std::make_unique<RunFitness>(false), 1); sym_assert(!ga.solutions().empty(), "a run finds solutions"); ga.fixed = false;
  for (size_t g = 0; g < GENES; g++) for (size_t k = 0; k < NOBJ; k++) run.table[g][k] = sym_grid("fitness", -2, 2);
  bool seen[GENES] = {};
  ga.on_generation_end([&](const GaInfo&) { if (!KEEP) for (bool& s : seen) s = false; for (auto& c : ga.population()) seen[c.chromosome[0]] = true; run.gens++; });
  auto sols = ga.solve(std::make_unique<RunFitness>(false), GENS);
  sym_assert(run.gens == GENS, "all generations ran"); sym_assert(sols.size() == ga.solutions().size(), "the returned solutions are those of solutions()");
  int count[GENES] = {};
  for (size_t i = 0; i < sols.size(); i++) { auto& c = sols[i]; sym_assert(c.chromosome.size() == 1 && c.is_evaluated && c.fitness.size() == NOBJ, "the solutions are evaluated"); int g = c.chromosome[0]; sym_assert(g == ga.solutions()[i].chromosome[0], "the returned solutions are those of solutions()"); sym_assert(g >= 0 && g < GENES && seen[g], KEEP ? "the solutions were members of a population of this run" : "the solutions are members of the last population"); count[g]++; for (size_t k = 0; k < NOBJ; k++) sym_assert(c.fitness[k] == run.table[g][k], "the solutions have their fitness"); }
  for (int g = 0; g < GENES; g++) if (seen[g]) { bool dom = false; for (int h = 0; h < GENES; h++) if (seen[h]) dom = Or(dom, dominates(run.table[h], run.table[g], NOBJ)); bool in = count[g] > 0; sym_assert(in != dom, KEEP ? "the solutions are the non-dominated candidates of all the populations of the run" : "the solutions are the non-dominated candidates of the last population"); if (GENS > 1 || !KEEP) sym_assert(count[g] <= 1, "no solution is returned twice"); }
  sym_reach("end");
}
