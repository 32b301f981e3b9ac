// PROPERTY: P29
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation PopStats fitnessMean maxFitness
// BOUNDS: eleven expressions of up to three conditions with and, or and not, over 2 generations after the initialization with every outcome of the conditions in every generation
// ASSUME: the generation is not the last one (the last generation is covered separately)
// REACH: end
// CONFIG: quick all -DLAST=0
// CONFIG: quick last -DLAST=1
#include "ga_run.hpp"
#include "stop_condition/composite.hpp"
using namespace gapp; using namespace vh;
static bool g_out[3]; static int g_calls[3], g_inits[3];
struct Part : stopping::StopCondition { int id; explicit Part(int i) : id(i) {} void initialize(const GaInfo&) override { g_inits[id]++; } bool stop_condition(const GaInfo&) override { g_calls[id]++; return g_out[id]; } };
template<typename C, typename F> static void check(TestGA<int>& ga, C cond, int parts, F expect) {
  for (int i = 0; i < 3; i++) g_calls[i] = g_inits[i] = 0;
  stopping::StopCondition& c = cond; c.initialize(ga); for (int i = 0; i < parts; i++) sym_assert(g_inits[i] == 1, "initializing a composite condition initializes each of its parts once");
  bool stopped = false;
  for (int gen = 0; gen < 2 && !stopped; gen++) {
    for (int i = 0; i < 3; i++) g_out[i] = i < parts && sym_choice("outcome", 2); stopped = c(ga);
    if (LAST) { sym_assert(stopped, "every condition stops the run in the last generation"); break; }
    sym_assert(stopped == expect(g_out[0], g_out[1], g_out[2]), "the outcome is that of the logical expression");
    if (!stopped) for (int i = 0; i < parts; i++) sym_assert(g_calls[i] == gen + 1, "while the run goes on every part is evaluated once in every generation");
  }
}
extern "C" void harness() {
  TestGA<int> ga(2); ga.problem(1, 1); ga.max_gen(10); ga.generation_cntr_ = LAST ? 9 : 3; Part a(0), b(1), c(2);
  using namespace gapp::stopping;
  switch (sym_choice("expression", 11)) {
    case 0: check(ga, a && b, 2, [](bool x, bool y, bool) { return x && y; }); break;
    case 1: check(ga, a || b, 2, [](bool x, bool y, bool) { return x || y; }); break;
    case 2: check(ga, !a, 1, [](bool x, bool, bool) { return !x; }); break;
    case 3: check(ga, (a || b) && c, 3, [](bool x, bool y, bool z) { return (x || y) && z; }); break;
    case 4: check(ga, a && (b || c), 3, [](bool x, bool y, bool z) { return x && (y || z); }); break;
    case 5: check(ga, a || (b && c), 3, [](bool x, bool y, bool z) { return x || (y && z); }); break;
    case 6: check(ga, !(a || b), 2, [](bool x, bool y, bool) { return !(x || y); }); break;
    case 7: check(ga, !(a && b) && c, 3, [](bool x, bool y, bool z) { return !(x && y) && z; }); break;
    case 8: check(ga, !!a, 1, [](bool x, bool, bool) { return x; }); break;
    case 9: check(ga, !a || (!b && c), 3, [](bool x, bool y, bool z) { return !x || (!y && z); }); break;
    default: check(ga, a || b || c, 3, [](bool x, bool y, bool z) { return x || y || z; });
  }
  sym_reach("end");
}
