// PROPERTY: P27
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: populations of 1..3 candidates with every number of preset candidates from 0 to one more than the population size, evaluated or not, with symbolic fitness values
// ASSUME: a single worker thread
// REACH: end
// CONFIG: quick pop1 -DPOP=1 -DDYN=0 hwc=1
// CONFIG: quick pop2 -DPOP=2 -DDYN=0 hwc=1
// CONFIG: quick pop3 -DPOP=3 -DDYN=0 hwc=1
// CONFIG: quick pop3_dynamic -DPOP=3 -DDYN=1 hwc=1
// CONFIG: thorough pop5 -DPOP=5 -DDYN=0 hwc=1
#include "ga_run.hpp"
using namespace gapp; using namespace vh;
struct InitGA : RunGA { using RunGA::RunGA; Candidate<int> generateCandidate() const override { Candidate<int> c(this->chrom_len()); c.chromosome[0] = (int)(g_run->generated % 3); c.chromosome[1] = 100 + (int)g_run->generated++; return c; } };
extern "C" void harness() {
  Run run; g_run = &run; run.dynamic = DYN; for (size_t g = 0; g < 3; g++) run.table[g][0] = sym_grid("fitness", -4, 4);
  InitGA ga(POP, 3); size_t preset = sym_choice("preset", POP + 2); Population<int> initial; bool evaluated[POP + 1];
  for (size_t i = 0; i < preset; i++) { Candidate<int> c(2); c.chromosome[0] = (int)((i * 2) % 3); c.chromosome[1] = (int)i; evaluated[i] = sym_choice("evaluated", 2); if (evaluated[i]) { c.fitness = { run.table[c.chromosome[0]][0] }; c.is_evaluated = true; } initial.push_back(c); }
  ga.on_generation_end([&](const GaInfo&) { auto& pop = ga.population(); run.gens++; sym_assert(pop.size() == POP, "the first population has the population size"); bool used[2 * POP + 2] = {}; size_t evals = 0;
    for (size_t i = 0; i < POP; i++) { auto& c = pop[i]; sym_assert(c.chromosome.size() == 2 && c.is_evaluated && c.fitness.size() == 1, "the first population is evaluated");
      if (i < preset) { sym_assert(c.chromosome[1] == (int)i && c.chromosome[0] == (int)((i * 2) % 3), "the preset candidates come first, in their order"); evals += DYN || !evaluated[i]; }
      else { int id = c.chromosome[1] - 100; sym_assert(id >= 0 && id < (int)run.generated && id < int(2 * POP + 2) && !used[id], "the rest of the candidates are generated ones"); used[id] = true; sym_assert(c.chromosome[0] == id % 3, "the generated candidates are unchanged"); evals++; }
      if (!DYN) sym_assert(c.fitness[0] == run.table[c.chromosome[0]][0], "the candidates have the fitness the fitness function returns"); }
    sym_assert(ga.num_fitness_evals() == evals, "candidates that were evaluated before are not evaluated again, unless the fitness function is dynamic"); });
  ga.solve(std::make_unique<RunFitness>(bool(DYN), 2), 1, initial); sym_assert(run.gens == 1, "a run of one generation only creates the first population"); sym_reach("end");
}
