// PROPERTY: P31
// SOURCES: metrics/pop_stats.cpp metrics/distribution_metrics.cpp core/population.cpp core/ga_info.cpp utility/math.cpp algorithm/algorithm_base.cpp stop_condition/stop_condition_base.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: 1..4 points and 1..3 objectives on a grid of 3 or 4 levels; the self-referencing metric over 2 and 3 generations; the parallel sum with up to 3 threads
// ASSUME: grid fitness; the reference point of the plain metric is not better than any point in any objective (documented)
// REACH: end
// CONFIG: quick hv1 -DNPOP=2 -DNOBJ=1 -DTOP=3
// CONFIG: quick hv2 -DNPOP=3 -DNOBJ=2 -DTOP=2
// CONFIG: quick hv3 -DNPOP=2 -DNOBJ=3 -DTOP=2
// CONFIG: quick hv3_3 -DNPOP=3 -DNOBJ=3 -DTOP=1
// CONFIG: quick parallel -DNPOP=3 -DNOBJ=2 -DTOP=2 -DFEW=1 hwc=3 preempt=1
// CONFIG: quick auto1 -DAUTO=3 -DNPOP=1 -DNOBJ=1 -DTOP=3
// CONFIG: quick auto2 -DAUTO=2 -DNPOP=2 -DNOBJ=2 -DTOP=2
// CONFIG: quick auto3 -DAUTO=2 -DNPOP=2 -DNOBJ=3 -DTOP=1
// CONFIG: quick auto2_3gen -DAUTO=3 -DNPOP=1 -DNOBJ=2 -DTOP=2
// CONFIG: thorough parallel_deep -DNPOP=3 -DNOBJ=2 -DTOP=2 -DFEW=1 hwc=3 preempt=2 heavy=1
// CONFIG: thorough hv2_4 -DNPOP=4 -DNOBJ=2 -DTOP=3 heavy=1
// CONFIG: thorough hv3_4 -DNPOP=3 -DNOBJ=3 -DTOP=2 heavy=1
// CONFIG: thorough auto3_3gen -DAUTO=3 -DNPOP=2 -DNOBJ=3 -DTOP=1 heavy=1
#include "ga_stub.hpp"
#include "metrics/distribution_metrics.hpp"
#include <cmath>
using namespace gapp; using namespace vh;
// number of unit cells between the reference point and the points (all on the integer grid)
static double cells(const FitnessMatrix& f, const double* ref) {
  int64_t n = 0; size_t total = 1; for (int k = 0; k < NOBJ; k++) total *= TOP + 2;
  for (size_t c = 0; c < total; c++) {
    double lo[NOBJ]; size_t x = c; for (int k = 0; k < NOBJ; k++) { lo[k] = double(x % (TOP + 2)) - 2; x /= TOP + 2; } // cells from -2 to TOP
    bool in = true, dom = false; for (int k = 0; k < NOBJ; k++) in = And(in, lo[k] >= ref[k]);
    for (size_t i = 0; i < f.nrows(); i++) { bool d = true; for (int k = 0; k < NOBJ; k++) d = And(d, f(i, k) >= lo[k] + 1); dom = Or(dom, d); }
    n += (int64_t)sym_ite(And(in, dom), 1, 0);
  }
  return double(n);
}
extern "C" void harness() {
  TestGA<int> ga(NPOP); ga.problem(1, NOBJ); ga.max_gen_ = 4;
#ifndef AUTO
  double ref[NOBJ]; for (double& r : ref) r = double((int)sym_choice("ref", 2) - 1);
  FitnessMatrix f(NPOP, NOBJ);
#ifdef FEW
  ref[0] = -1; ref[1] = 0; double p[3][2] = { { 0, 2 }, { 1, 1 }, { 2, 0 } }; for (size_t i = 0; i < NPOP; i++) for (size_t k = 0; k < NOBJ; k++) f(i, k) = p[i][k]; f(0, 0) = sym_grid("f", 0, 1);
#else
  for (size_t i = 0; i < NPOP; i++) for (size_t k = 0; k < NOBJ; k++) f(i, k) = sym_grid("f", 0, TOP);
#endif
  metrics::Hypervolume hv{ FitnessVector(ref, ref + NOBJ) }; metrics::MonitorBase& m = hv; ga.fitness_matrix_ = f; m.initialize(ga); m.update(ga);
  sym_assert(hv.size() == 1 && hv.data().size() == 1, "one hypervolume is recorded per generation");
  sym_assert(hv[0] == cells(f, ref), "the hypervolume is the volume dominated by the population above the reference point");
#else
  metrics::AutoHypervolume hv; metrics::MonitorBase& m = hv; FitnessMatrix f[AUTO]; double worst[NOBJ];
  for (int run = 0; run < 2; run++) {
    for (int g = 0; g < AUTO; g++) {
      f[g] = FitnessMatrix(NPOP, NOBJ); for (size_t i = 0; i < NPOP; i++) for (size_t k = 0; k < NOBJ; k++) f[g](i, k) = run == 0 ? double((g + i + k) % 3) - 2 : sym_grid("f", 0, TOP);
      for (size_t k = 0; k < NOBJ; k++) for (size_t i = 0; i < NPOP; i++) worst[k] = (g || i) ? std::min(worst[k], f[g](i, k)) : f[g](i, k);
      ga.fitness_matrix_ = f[g]; if (!g) m.initialize(ga); m.update(ga); sym_assert(hv.size() == g + 1, "one hypervolume is recorded per generation of the current run");
      if (run == 0) continue;
      for (size_t k = 0; k < NOBJ; k++) sym_assert(hv.ref_point()[k] == worst[k], "the reference point is the worst point seen in the run");
      for (int h = 0; h <= g; h++) sym_assert(hv[h] == cells(f[h], worst), "every recorded hypervolume refers to the current reference point");
    }
  }
#endif
  sym_reach("end");
}
