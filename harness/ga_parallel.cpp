// PROPERTY: P18
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: complete runs of populations of 3 or 4 candidates for 1 or 2 generations on two worker threads beside the caller; every interleaving within the preemption bound; every initial population of two genes and every mutation map; cache sizes of 0 and 4 generations
// ASSUME: the operators and the fitness function themselves can be called concurrently (they are pure functions with atomic counters)
// REACH: end
// CONFIG: quick plain_3 -DPOP=3 -DGENS=1 -DCACHE=0 hwc=3 preempt=1
// CONFIG: quick cached_3 -DPOP=3 -DGENS=2 -DCACHE=4 hwc=3 preempt=0
// CONFIG: quick plain_4 -DPOP=4 -DGENS=1 -DCACHE=0 hwc=3 preempt=0
// CONFIG: thorough cached_4 -DPOP=4 -DGENS=2 -DCACHE=4 hwc=3 preempt=0 heavy=1
// CONFIG: thorough plain_4_deep -DPOP=4 -DGENS=1 -DCACHE=0 hwc=3 preempt=1 heavy=1
// CONFIG: thorough plain_6 -DPOP=6 -DGENS=1 -DCACHE=0 hwc=4 preempt=0 heavy=1
#include "ga_stub.hpp"
#include "stop_condition/stop_condition.hpp"
#include <atomic>
namespace vh { struct ParCrossover; struct ParMutation; }
template<> struct gapp::GaTraits<int> { using DefaultCrossover = vh::ParCrossover; using DefaultMutation = vh::ParMutation; static Probability defaultMutationRate(size_t len) { return 1.0 / (double)(len + 1); } };
namespace vh {
  using namespace gapp; constexpr int GENES = 2;
  inline double g_table[GENES]; inline int g_map[GENES]; inline std::atomic<size_t> g_calls{0}, g_selects{0}, g_crossovers{0}, g_mutations{0}, g_repairs{0};
  inline size_t g_generated = 0; inline int g_first[POP];
  struct ParFitness : FitnessFunctionBase<int> { ParFitness() : FitnessFunctionBase<int>(1) {} FitnessVector invoke(const Chromosome<int>& c) const override { g_calls.fetch_add(1, std::memory_order_relaxed); return FitnessVector(1, g_table[c[0]]); } };
  struct ParAlgorithm : algorithm::Algorithm {
    void initializeImpl(const GaInfo&) override {}
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix&) override { g_selects = 0; }
    size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return g_selects.fetch_add(1, std::memory_order_relaxed) % POP; }
    small_vector<size_t> nextPopulationImpl(const GaInfo&, const FitnessMatrix& f) override { sym_assert(f.size() == 2 * POP, "the next population is chosen from the parents and the children"); small_vector<size_t> r; for (size_t i = 0; i < POP; i++) r.push_back(POP + i); return r; }
  };
  struct ParCrossover : crossover::Crossover<int> { ParCrossover() : crossover::Crossover<int>(1.0) {} CandidatePair<int> crossover(const GA<int>&, const Candidate<int>& a, const Candidate<int>& b) const override { g_crossovers.fetch_add(1, std::memory_order_relaxed); return {b, a}; } };
  struct ParMutation : mutation::Mutation<int> { ParMutation() : mutation::Mutation<int>(0.5) {} void mutate(const GA<int>&, const Candidate<int>&, Chromosome<int>& c) const override { g_mutations.fetch_add(1, std::memory_order_relaxed); c[0] = g_map[c[0]]; } };
  struct ParGA : GA<int> {
    ParGA() : GA<int>(POP, std::make_unique<ParAlgorithm>(), std::make_unique<ParCrossover>(), std::make_unique<ParMutation>(), std::make_unique<StubStop>()) {}
    Candidate<int> generateCandidate() const override { Candidate<int> c(this->chrom_len()); c.chromosome[0] = g_first[g_generated++ % POP]; return c; }
  };
  struct NoStop : stopping::StopCondition { bool stop_condition(const GaInfo&) override { return false; } };
}
using namespace gapp; using namespace vh;
extern "C" void harness() {
  for (int g = 0; g < GENES; g++) g_table[g] = sym_grid("fitness", -4, 4);
  for (size_t i = 0; i < POP; i++) g_first[i] = (int)sym_choice("first", GENES);
  for (int g = 0; g < GENES; g++) g_map[g] = (int)sym_choice("map", GENES);
  ParGA ga; ga.max_gen(GENS + 1); ga.cache_size(CACHE); ga.stop_condition(std::make_unique<NoStop>()); ga.repair_function([](const GA<int>&, const Chromosome<int>& c) { g_repairs.fetch_add(1, std::memory_order_relaxed); return c; });
  size_t gens = 0; int expect[GENES] = {}; size_t calls = 0;
  ga.on_generation_end([&](const GaInfo& info) {
    auto& pop = ga.population(); sym_assert(pop.size() == POP && info.fitness_matrix().size() == POP, "the population has the population size"); int count[GENES] = {};
    for (size_t i = 0; i < POP; i++) { int g = pop[i].chromosome[0]; count[g]++; sym_assert(pop[i].is_evaluated && pop[i].fitness.size() == 1, "every candidate is evaluated when the generation ends"); sym_assert(pop[i].fitness[0] == g_table[g] && info.fitness_matrix()[i][0] == g_table[g], "every candidate has the fitness of its own chromosome"); }
    if (gens == 0) { for (size_t i = 0; i < POP; i++) expect[g_first[i]]++; if (!CACHE) sym_assert(info.num_fitness_evals() == POP || info.num_fitness_evals() == POP + 1, "every evaluation is counted once"); }
    else {
      int next[GENES] = {}; for (int g = 0; g < GENES; g++) if (!(POP % 2)) next[g_map[g]] += expect[g]; for (int g = 0; g < GENES && !(POP % 2); g++) expect[g] = next[g];
      sym_assert(g_selects == POP + POP % 2, "two parents are selected for every pair of children"); sym_assert(g_mutations == POP * gens && g_repairs == POP * gens, "every child is mutated and repaired once"); sym_assert(g_crossovers <= (POP + 1) / 2 * gens, "no pair of children is created twice");
    }
    if (!(POP % 2)) for (int g = 0; g < GENES; g++) sym_assert(count[g] == expect[g], "the children are those that the operators return");
    sym_assert(g_calls == info.num_fitness_evals() || g_calls == info.num_fitness_evals() + 1, "every evaluation is counted once"); sym_assert(g_calls - calls <= POP + !gens, "no candidate is evaluated more than once in a generation"); calls = g_calls; gens++;
  });
  ga.solve(std::make_unique<ParFitness>()); sym_assert(gens == GENS + 1, "all generations ran");
  sym_reach("end");
}
