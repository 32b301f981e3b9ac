// PROPERTY: P25
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: two runs in a row of populations of 1..4 candidates with every maximum generation count of 1..3, every generation at which the stop condition is met, with and without a repair function
// ASSUME: a single worker thread; operators that do not throw
// REACH: end
// CONFIG: quick pop1 -DPOP=1 -DREPAIR=0 hwc=1
// CONFIG: quick pop2 -DPOP=2 -DREPAIR=1 hwc=1
// CONFIG: quick pop3 -DPOP=3 -DREPAIR=1 hwc=1
// CONFIG: thorough pop4 -DPOP=4 -DREPAIR=1 hwc=1
// CONFIG: thorough pop7 -DPOP=7 -DREPAIR=1 hwc=1
#include "ga_run.hpp"
using namespace gapp; using namespace vh;
struct RunMetric : metrics::Monitor<RunMetric, std::vector<size_t>> {
  void initialize(const GaInfo&) override { g_run->metric_init++; data_.clear(); }
  void update(const GaInfo& ga) override { sym_assert(ga.generation_cntr() == data_.size(), "the metrics are updated once in every generation, with its number"); data_.push_back(ga.generation_cntr()); g_run->metric_updates++; }
  size_t size() const { return data_.size(); }
};
static void onceMore(RunGA& ga, size_t max_gen, size_t stop_at, bool by_member) {
  Run run; run.stop_at = stop_at; size_t configured = 5; g_run = &run; ga.fixed = true;
  if (by_member) { configured = max_gen; }
  ga.max_gen(configured);
  ga.on_generation_end([&](const GaInfo& info) {
    sym_assert(info.generation_cntr() == run.gens, "the callback is called once at the end of every generation, with its number");
    sym_assert(info.max_gen() == max_gen, "the maximum number of generations of the run is in effect");
    sym_assert(ga.population().size() == POP && info.fitness_matrix().size() == POP, "the population has the population size");
    sym_assert(info.get_metric<RunMetric>().size() == run.gens + 1, "the metrics of the generation are available in the callback");
    sym_assert(run.prepares == run.gens && run.nexts == run.gens, "every generation selects and replaces once");
    sym_assert(run.selects == run.gens * (POP + POP % 2), "two parents are selected for every pair of children");
    sym_assert(run.mutations == run.gens * POP, "every child is mutated");
    if (REPAIR) sym_assert(run.repairs == run.gens * POP, "the repair function is called for every child after its mutation");
    run.gens++;
  });
  if (REPAIR) ga.repair_function([&](const GA<int>&, const Chromosome<int>& c) { run.repairs++; sym_assert(run.repairs <= run.mutations, "the children are repaired after the mutation"); return c; });
  if (by_member) ga.solve(std::make_unique<RunFitness>(false)); else ga.solve(std::make_unique<RunFitness>(false), max_gen);
  size_t expect = stop_at + 1 < max_gen ? stop_at + 1 : max_gen;
  sym_assert(run.gens == expect, "the run lasts until the stop condition is met or the maximum number of generations is reached");
  sym_assert(ga.generation_cntr() == run.gens - 1, "the generation counter is that of the last generation"); sym_assert(ga.generation_cntr() < max_gen, "the generation counter stays below the maximum number of generations");
  sym_assert(run.stop_calls == run.gens, "the stop condition is checked after every generation"); sym_assert(run.alg_init == 1 && run.stop_init == 1 && run.metric_init == 1, "the operators are initialized once per run");
  sym_assert(ga.max_gen() == configured, "the configured maximum number of generations is restored after a run"); sym_assert(run.metric_updates == run.gens, "the metrics are updated once in every generation");
  sym_assert(ga.num_fitness_evals() <= run.calls && run.calls <= ga.num_fitness_evals() + 1, "the evaluations are counted from the start of the run");
}
extern "C" void harness() {
  RunGA ga(POP, 2); ga.mutation_method(std::make_unique<RunMutation>(0)); ga.track(RunMetric{});
  onceMore(ga, 1 + sym_choice("max_gen", 3), sym_choice("stop_at", 4), false);
  onceMore(ga, 1 + sym_choice("max_gen", 3), sym_choice("stop_at", 4), true);
  sym_reach("end");
}
