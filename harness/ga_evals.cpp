// PROPERTY: P23
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: complete runs of populations of 2 (3 in thorough) candidates with one gene of 2 or 3 values for 2 or 3 generations, every initial population, every outcome of the crossover and mutation, every repair function of the genes, and every survivor choice of two policies; cache sizes 0 and 1..4 generations
// ASSUME: a single worker thread; one probing call of the fitness function per run is allowed (it determines the number of objectives)
// REACH: end
// CONFIG: quick static_2 -DPOP=2 -DGENS=2 -DGENES=3 -DDYN=0 -DCACHE=0 hwc=1
// CONFIG: quick static_gen3 -DPOP=2 -DGENS=3 -DGENES=2 -DDYN=0 -DCACHE=0 hwc=1
// CONFIG: quick cached_all -DPOP=2 -DGENS=3 -DGENES=2 -DDYN=0 -DCACHE=4 hwc=1
// CONFIG: quick cached_1 -DPOP=2 -DGENS=3 -DGENES=3 -DDYN=0 -DCACHE=1 hwc=1
// CONFIG: quick cached_2 -DPOP=2 -DGENS=4 -DGENES=2 -DDYN=0 -DCACHE=2 hwc=1
// CONFIG: quick dynamic -DPOP=2 -DGENS=3 -DGENES=2 -DDYN=1 -DCACHE=0 hwc=1
// CONFIG: quick dynamic_cache -DPOP=2 -DGENS=2 -DGENES=2 -DDYN=1 -DCACHE=2 hwc=1
// CONFIG: quick repaired -DPOP=2 -DGENS=2 -DGENES=3 -DDYN=0 -DCACHE=0 -DREPAIR=1 hwc=1
// CONFIG: thorough repaired_cached -DPOP=2 -DGENS=3 -DGENES=2 -DDYN=0 -DCACHE=2 -DREPAIR=1 hwc=1 heavy=1
// CONFIG: thorough static_3 -DPOP=3 -DGENS=3 -DGENES=2 -DDYN=0 -DCACHE=0 hwc=1 heavy=1
// CONFIG: thorough cached_3 -DPOP=3 -DGENS=3 -DGENES=2 -DDYN=0 -DCACHE=4 hwc=1 heavy=1
// CONFIG: thorough cached_gen4 -DPOP=2 -DGENS=4 -DGENES=3 -DDYN=0 -DCACHE=5 hwc=1 heavy=1
// CONFIG: thorough dynamic_3 -DPOP=3 -DGENS=3 -DGENES=2 -DDYN=1 -DCACHE=1 hwc=1 heavy=1
#ifndef REPAIR
#define REPAIR 0
#endif
#include "ga_run.hpp"
using namespace gapp; using namespace vh;
extern "C" void harness() {
  Run run; g_run = &run; run.dynamic = DYN; run.mixed = true;
  for (size_t g = 0; g < GENES; g++) run.table[g][0] = sym_grid("fitness", -4, 4);
  RunGA ga(POP, GENES); ga.max_gen(GENS); ga.cache_size(CACHE);
  int rmap[GENES]; if (REPAIR) { for (int& g : rmap) g = (int)sym_choice("repaired", GENES); ga.repair_function([&](const GA<int>&, const Chromosome<int>& c) { Chromosome<int> r = c; r[0] = rmap[c[0]]; return r; }); }
  size_t first_seen[GENES]; for (size_t& g : first_seen) g = 99;
  size_t last_calls = 0, last_gene_calls[GENES] = {}; bool earlier[GENES] = {}, current[GENES] = {};
  ga.on_generation_end([&](const GaInfo&) {
    auto& pop = ga.population(); sym_assert(pop.size() == POP, "the population has the population size"); run.gens++;
    sym_assert(ga.fitness_matrix().size() == POP, "there is a fitness vector for every candidate");
    for (size_t i = 0; i < POP; i++) {
      sym_assert(pop[i].is_evaluated && pop[i].fitness.size() == 1, "every candidate of the population is evaluated");
      if (!DYN) sym_assert(pop[i].fitness[0] == run.table[pop[i].chromosome[0]][0], "the fitness of a candidate is what the fitness function returns for it");
      sym_assert(ga.fitness_matrix()[i][0] == pop[i].fitness[0], "the fitness matrix holds the fitness of the candidates");
    }
    size_t calls = run.calls - last_calls;
    if (DYN && run.gens > 1) sym_assert(calls == POP, "a dynamic fitness function is called for every candidate of every generation");
    if (DYN) for (size_t i = 1; i < POP; i++) sym_assert(pop[i].fitness[0] > (double)last_calls, "the children hold their own evaluation of a dynamic fitness function");
    sym_assert(calls <= POP + (run.gens == 1), "no candidate is evaluated more than once in a generation");
    if (!DYN && run.gens > 1 && !REPAIR) {
      sym_assert(calls <= run.changed, "unchanged candidates are not evaluated again");
      if (!CACHE) sym_assert(calls == run.changed, "every changed candidate is evaluated");
      if (CACHE >= GENS) for (size_t g = 0; g < GENES; g++) if (earlier[g]) sym_assert(run.gene_calls[g] == last_gene_calls[g], "candidates of the cached generations are not evaluated again");
    }
    // the first appearance of a gene was in one of the cached generations (those before the parents)
    if (!DYN && CACHE) for (size_t g = 0; g < GENES; g++) if (first_seen[g] + 2 <= run.gens - 1 && first_seen[g] + 1 + CACHE >= run.gens - 1) sym_assert(run.gene_calls[g] == last_gene_calls[g], "candidates of the cached generations are not evaluated again");
    for (size_t i = 0; i < POP; i++) { size_t& s = first_seen[pop[i].chromosome[0]]; if (s == 99) s = run.gens - 1; }
    for (size_t g = 0; g < GENES; g++) { earlier[g] = earlier[g] || current[g]; current[g] = false; last_gene_calls[g] = run.gene_calls[g]; }
    for (size_t i = 0; i < POP; i++) current[pop[i].chromosome[0]] = true;
    sym_assert(ga.num_fitness_evals() <= run.calls && run.calls <= ga.num_fitness_evals() + 1, "the number of fitness evaluations is counted");
    last_calls = run.calls; run.changed = 0;
  });
  ga.solve(std::make_unique<RunFitness>(bool(DYN)));
  sym_assert(run.gens == GENS, "all generations ran"); sym_reach("end");
}
