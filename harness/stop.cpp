// PROPERTY: P28
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/pop_stats.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NSGA3 3GAI crossover mutation hypervolume detail9
// BOUNDS: evaluation counts, limits, generation numbers and generation limits of full width; fitness values on a grid, populations of 2 with 1 or 2 objectives; stall conditions over 3 (4 in thorough) generations with every patience of 0..2 and the largest one, and several positive, zero and negative deltas, reused for a second run
// ASSUME: fitness values are equal or differ by more than the comparison tolerance
// REACH: end
// CONFIG: quick evals -DKIND=0 -DNOBJ=1 -DSTEPS=1
// CONFIG: quick value_1 -DKIND=1 -DNOBJ=1 -DSTEPS=1
// CONFIG: quick value_2 -DKIND=1 -DNOBJ=2 -DSTEPS=1
// CONFIG: quick mean_1 -DKIND=2 -DNOBJ=1 -DSTEPS=3
// CONFIG: quick best_1 -DKIND=3 -DNOBJ=1 -DSTEPS=3
// CONFIG: quick best_2 -DKIND=3 -DNOBJ=2 -DSTEPS=2
// CONFIG: quick mean_2 -DKIND=2 -DNOBJ=2 -DSTEPS=2
// CONFIG: thorough best_2_3 -DKIND=3 -DNOBJ=2 -DSTEPS=3 heavy=1
// CONFIG: thorough mean_1_4 -DKIND=2 -DNOBJ=1 -DSTEPS=4 heavy=1
// CONFIG: thorough value_3 -DKIND=1 -DNOBJ=3 -DSTEPS=1
#include "ga_run.hpp"
using namespace gapp; using namespace vh;
static void population(TestGA<int>& ga, double (&f)[2][NOBJ]) {
  FitnessMatrix m; Population<int> pop; for (size_t i = 0; i < 2; i++) { for (size_t k = 0; k < NOBJ; k++) f[i][k] = sym_grid("fitness", -4, 4); FitnessVector v(f[i], f[i] + NOBJ); m.append_row(v); }
  ga.fitness_matrix_ = m;
}
extern "C" void harness() {
  TestGA<int> ga(2); ga.problem(1, NOBJ);
  if (KIND <= 1) {
    size_t gen = sym_bits("generation", 64), max = sym_bits("max_gen", 64); sym_assume(max >= 1); sym_assume(gen < max); ga.max_gen(max); ga.generation_cntr_ = gen; bool last = gen == max - 1;
    if (KIND == 0) { size_t evals = sym_bits("evals", 64), limit = sym_bits("limit", 64); ga.num_fitness_evals_ = evals; stopping::FitnessEvals c(limit); c.initialize(ga); sym_assert(c(ga) == Or(evals >= limit, last), "the run stops when the evaluation limit is reached, and after the last generation"); }
    else { FitnessVector t(NOBJ); double th[NOBJ]; for (size_t k = 0; k < NOBJ; k++) t[k] = th[k] = sym_grid("threshold", -4, 4); double f[2][NOBJ]; population(ga, f); stopping::FitnessValue c(t); c.initialize(ga); bool reached = false; for (size_t i = 0; i < 2; i++) { bool all = true; for (size_t k = 0; k < NOBJ; k++) all = And(all, f[i][k] >= th[k]); reached = Or(reached, all); } sym_assert(c(ga) == Or(reached, last), "the run stops when a solution is equal to or better than the threshold, and after the last generation"); }
  } else {
    ga.max_gen(100); static const size_t PATIENCE[4] = { 0, 1, 2, size_t(-1) }; size_t patience = PATIENCE[sym_choice("patience", 4)]; static const double DELTA[4] = { 0x1p-10, 0.0, 2.0, -1.0 }; double delta = DELTA[sym_choice("delta", 4)];
    auto drive = [&](auto& c) {
      for (int run = 0; run < 2; run++) {
        c.initialize(ga); double best[NOBJ]; bool first = true; size_t without = 0;
        for (size_t s = 0; s < (run ? 2 : STEPS); s++) {
          ga.generation_cntr_ = s; double f[2][NOBJ]; population(ga, f); bool improved = false;
          for (size_t k = 0; k < NOBJ; k++) { double now = KIND == 2 ? (f[0][k] + f[1][k]) / 2.0 : (f[0][k] < f[1][k] ? f[1][k] : f[0][k]); if (first || now >= best[k] + delta) { best[k] = now; improved = true; } }
          first = false; if (improved) without = 0; else without++;
          sym_assert(c(ga) == (without > patience), "the run stops when there was no improvement for more generations than the patience");
        }
      }
    };
    if (KIND == 2) { stopping::FitnessMeanStall c(patience, delta); drive(c); } else { stopping::FitnessBestStall c(patience, delta); drive(c); }
  }
  sym_reach("end");
}
