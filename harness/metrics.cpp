// PROPERTY: P30
// SOURCES: metrics/pop_stats.cpp metrics/fitness_metrics.cpp metrics/distribution_metrics.cpp metrics/misc_metrics.cpp metrics/metric_set.cpp core/population.cpp core/ga_info.cpp utility/math.cpp algorithm/algorithm_base.cpp stop_condition/stop_condition_base.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: populations of 1..4 candidates (3 and, with 3 of them fixed, 5 for the variance about a given mean) and 1..3 objectives, fitness on a grid of 8 levels, 2 generations in each of 2 runs
// ASSUME: grid fitness, population sizes whose mean is exact (1, 2, 4)
// REACH: end
// CONFIG: quick n1 -DNPOP=1 -DNOBJ=2
// CONFIG: quick n2 -DNPOP=2 -DNOBJ=2
// CONFIG: quick n4 -DNPOP=4 -DNOBJ=1
// CONFIG: quick n2_3obj -DNPOP=2 -DNOBJ=3
// CONFIG: quick variance3 -DNPOP=3 -DNOBJ=1 -DVAR
// CONFIG: quick variance5 -DNPOP=5 -DNOBJ=1 -DVAR
// CONFIG: thorough n4_2obj -DNPOP=4 -DNOBJ=2 heavy=1
#include "ga_stub.hpp"
#include "metrics/metrics.hpp"
#include "metrics/metric_set.hpp"
#include "metrics/pop_stats.hpp"
#include <cmath>
using namespace gapp; using namespace vh; using namespace gapp::metrics;
extern "C" void harness() {
#ifdef VAR
  // about a mean that is given: an exact oracle for 3 and 5 points
  size_t n = NPOP; FitnessMatrix m(n, NOBJ); double mean[NOBJ]; for (size_t k = 0; k < NOBJ; k++) mean[k] = n == 3 ? sym_grid("mean", 0, 3) : 2.0;
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < NOBJ; k++) m(i, k) = n == 5 && i < 3 ? double((i + k) % 4) : sym_grid("f", 0, 3);
  FitnessVector var = detail::fitnessVariance(m.cbegin(), m.cend(), std::span<const double>(mean, NOBJ)); FitnessVector dev = detail::fitnessStdDev(m.cbegin(), m.cend(), std::span<const double>(mean, NOBJ));
  sym_assert(var.size() == NOBJ && dev.size() == NOBJ, "one value is recorded for every objective");
  for (size_t k = 0; k < NOBJ; k++) { double s = 0; for (size_t i = 0; i < n; i++) s += (m(i, k) - mean[k]) * (m(i, k) - mean[k]); sym_assert(var[k] == s / double(n - 1), "the variance is the sum of the squared deviations over n - 1"); sym_assert(dev[k] == std::sqrt(var[k]), "the standard deviation is the root of the variance"); }
#else
  TestGA<int> ga(NPOP); ga.problem(1, NOBJ); ga.max_gen_ = 10; detail::MetricSet set(FitnessMin{}, FitnessMax{}, FitnessMean{}, FitnessVariance{}, NadirPoint{}, FitnessEvaluations{});
  const auto *mn = set.get<FitnessMin>(), *mn2 = set.get<FitnessMin>(); const auto* mx = set.get<FitnessMax>(); const auto* me = set.get<FitnessMean>(); const auto* va = set.get<FitnessVariance>(); const auto* na = set.get<NadirPoint>(); const auto* fe = set.get<FitnessEvaluations>();
  sym_assert(mn && mx && me && va && na && fe && mn == mn2, "a tracked metric is found by its type"); sym_assert(set.get<FitnessStdDev>() == nullptr, "a metric that is not tracked is not found");
  for (int run = 0; run < 2; run++) {
    FitnessMatrix f[2]; size_t evals[2], total = 0;
    for (int g = 0; g < 2; g++) {
      f[g] = FitnessMatrix(NPOP, NOBJ); for (size_t i = 0; i < NPOP; i++) for (size_t k = 0; k < NOBJ; k++) f[g](i, k) = (run == 0 && g == 0) ? double((i * 3 + k) % 5) : sym_grid("f", 0, 7);
      if (run == 1 && g == 1 && NPOP > 2) for (size_t i = 0; i < NPOP; i++) for (size_t k = 0; k < NOBJ; k++) f[g](i, k) = double((i * 5 + k * 2) % 7);
      evals[g] = (size_t)sym_range("evals", 0, 1000); total += evals[g]; ga.fitness_matrix_ = f[g]; ga.num_fitness_evals_ = total;
      if (g == 0) set.initialize(ga); set.update(ga);
      sym_assert(mn->size() == g + 1 && mx->size() == g + 1 && me->size() == g + 1 && va->size() == g + 1 && na->size() == g + 1 && fe->size() == g + 1, "one value is recorded in every generation of the current run");
    }
    for (int g = 0; g < 2; g++) {
      bool nd[NPOP]; nondominated(f[g], NPOP, NOBJ, nd);
      sym_assert((*fe)[g] == evals[g], "the fitness evaluations of the generation are recorded");
      for (size_t k = 0; k < NOBJ; k++) {
        double lo = f[g](0, k), hi = lo, sum = 0; bool isLo = false, isHi = false;
        bool lower = true, upper = true, nadirLow = true, nadirHit = false; double mi = (*mn)[g][k], ma = (*mx)[g][k], mean = (*me)[g][k], nadir = (*na)[g][k];
        for (size_t i = 0; i < NPOP; i++) { double x = f[g](i, k); sum += x; lower = And(lower, mi <= x); isLo = Or(isLo, mi == x); upper = And(upper, ma >= x); isHi = Or(isHi, ma == x); nadirLow = And(nadirLow, Implies(nd[i], nadir <= x)); nadirHit = Or(nadirHit, And(nd[i], nadir == x)); }
        sym_assert(And(lower, isLo), "the minimum of the objective is recorded"); sym_assert(And(upper, isHi), "the maximum of the objective is recorded"); sym_assert(mean * NPOP == sum, "the mean of the objective is recorded");
        sym_assert(And(nadirLow, nadirHit), "the nadir point is the worst value among the solutions that are not dominated");
        double s2 = 0; for (size_t i = 0; i < NPOP; i++) { double d = f[g](i, k) * NPOP - sum; s2 += d * d; }
        if (NPOP == 4) continue; /* the factor 1 / 3 is not exact: see the variance about a given mean */
        if (NPOP == 1) sym_assert((*va)[g][k] == 0.0, "the variance of a single value is 0"); else if (NPOP == 2) sym_assert((*va)[g][k] * (NPOP * NPOP) * (NPOP - 1) == s2, "the variance of the objective is recorded");
      }
    }
  }
#endif
  sym_reach("end");
}
