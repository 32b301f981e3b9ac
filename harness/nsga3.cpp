// PROPERTY: P06
// SOURCES: algorithm/nsga3.cpp algorithm/nd_sort.cpp algorithm/reference_lines.cpp metrics/pop_stats.cpp core/population.cpp core/ga_info.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI crossover mutation selection replacement
// BOUNDS: 2 objectives and 2 or 3 reference lines, 3 objectives and 3 or 4 lines; 3 survivors out of 5 solutions (6 in thorough) taken from 6 positions in up to three fronts, in every order; every random draw; one generation after the initialization (also one that follows an earlier run of the same object), one parent selection before and after it
// ASSUME: no solution is equally far from two reference lines, and no two different solutions tie for an extreme point (the order of ties is unspecified)
// STUB: unsigned long gapp::rng::randomInt<unsigned long>\(.*\) => h_draw
// STUB: gapp::rng::randomBool\(\) => h_bool
// REACH: end
// CONFIG: quick niche_3of5 -DPOP=3 -DROWS=5 -DLINES=2 -DSET=0
// CONFIG: quick layers_3of5 -DPOP=3 -DROWS=5 -DLINES=3 -DSET=1
// CONFIG: quick scale_2of4 -DPOP=2 -DROWS=4 -DLINES=3 -DSET=2
// CONFIG: quick three_2of4 -DPOP=2 -DROWS=4 -DLINES=3 -DSET=3 -DNDIM=3
// CONFIG: quick again_2of3 -DPOP=2 -DROWS=3 -DLINES=3 -DSET=2 -DAGAIN=1
// CONFIG: thorough three_3of5 -DPOP=3 -DROWS=5 -DLINES=4 -DSET=3 -DNDIM=3 heavy=1
// CONFIG: thorough niche_3of6 -DPOP=3 -DROWS=6 -DLINES=2 -DSET=0 heavy=1
// CONFIG: thorough layers_4of6 -DPOP=4 -DROWS=6 -DLINES=3 -DSET=1 heavy=1
#include "ga_stub.hpp"
#include "algorithm/nsga3.hpp"
#include <cmath>
#ifndef NDIM
#define NDIM 2
#endif
using namespace gapp; using namespace vh;
static size_t g_draw[8], g_n = 0;
extern "C" uint64_t h_draw(uint64_t lo, uint64_t hi) { uint64_t r = lo + (hi > lo ? sym_choice("draw", hi - lo + 1) : 0); if (g_n < 8) g_draw[g_n] = r; g_n++; return r; }
extern "C" bool h_bool() { return sym_choice("bool", 2); }
static const double POINTS[4][6][3] = {
  { { 12, 1 }, { 11, 4 }, { 10, 6 }, { 8, 8.5 }, { 4, 10 }, { 2, 12 } },
  { { 12, 2 }, { 9, 7 }, { 3, 12 }, { 10, 1 }, { 7, 5 }, { 1, 4 } },
  { { 20, 0 }, { 6, 1 }, { 1, 5 }, { 0, 6 }, { -8, 2 }, { 4, -3 } },
  { { 9, 1, 2 }, { 2, 8, 1 }, { 1, 3, 10 }, { 6, 5, 4 }, { 7, -2, 5 }, { 3, 4, 3 } } };
static const double LINE[4][3] = { { 1.0, 0.125, NDIM == 3 ? 0.0625 : 0 }, { 0.25, 1.0, NDIM == 3 ? 0.5 : 0 }, { 0.75, 0.75, NDIM == 3 ? 1.5 : 0 }, { 0.5, 0.5, 0.5 } };
static size_t N; static double F[8][NDIM]; static size_t RANK[8], NICHE[8]; static double DIST[8];
static double g_ideal[NDIM], g_ext[NDIM][NDIM]; static bool g_hasExt = false;
static FitnessMatrix lines(size_t, size_t) { FitnessMatrix m(LINES, NDIM); for (size_t i = 0; i < LINES; i++) for (size_t k = 0; k < NDIM; k++) m(i, k) = LINE[i][k]; return m; }
static double asf(const double* f, size_t axis) { double m = -1e300; for (size_t k = 0; k < NDIM; k++) { double a = (g_ideal[k] - f[k]) / (k == axis ? 1.0 : 1e-6); if (a > m) m = a; } return m; }
// ranks, reference lines and distances of the N solutions in F, computed from the definitions; the ideal and the extreme points are kept across generations
static bool same(const double* a, const double* b) { for (size_t k = 0; k < NDIM; k++) if (a[k] != b[k]) return false; return true; }
static void oracle(bool init) {
  for (size_t i = 0; i < N; i++) RANK[i] = 0;
  for (size_t r = 0; r < N; r++) for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (i != j && dominates(F[j], F[i], NDIM) && RANK[j] + 1 > RANK[i]) RANK[i] = RANK[j] + 1;
  for (size_t k = 0; k < NDIM; k++) { if (init) g_ideal[k] = F[0][k]; for (size_t i = 0; i < N; i++) if (F[i][k] > g_ideal[k]) g_ideal[k] = F[i][k]; }
  double next[NDIM][NDIM], nadir[NDIM];
  for (size_t a = 0; a < NDIM; a++) { const double* best = F[0]; for (size_t i = 1; i < N; i++) if (asf(F[i], a) < asf(best, a)) best = F[i];
    if (g_hasExt) for (size_t e = 0; e < NDIM; e++) if (asf(g_ext[e], a) < asf(best, a)) best = g_ext[e];
    for (size_t i = 0; i < N; i++) sym_assume(asf(F[i], a) > asf(best, a) || same(F[i], best));
    if (g_hasExt) for (size_t e = 0; e < NDIM; e++) sym_assume(asf(g_ext[e], a) > asf(best, a) || same(g_ext[e], best));
    for (size_t k = 0; k < NDIM; k++) next[a][k] = best[k]; }
  for (size_t k = 0; k < NDIM; k++) { nadir[k] = next[0][k]; for (size_t a = 1; a < NDIM; a++) if (next[a][k] < nadir[k]) nadir[k] = next[a][k]; for (size_t a = 0; a < NDIM; a++) g_ext[a][k] = next[a][k]; } g_hasExt = true;
  for (size_t i = 0; i < N; i++) { double x[NDIM], best = -1e300, second = -1e300;
    for (size_t k = 0; k < NDIM; k++) { double w = g_ideal[k] - nadir[k]; x[k] = (g_ideal[k] - F[i][k]) / (w > 1e-8 ? w : 1e-8); }
    for (size_t l = 0; l < LINES; l++) { double n = 0, d = 0, q = 0; for (size_t k = 0; k < NDIM; k++) n += LINE[l][k] * LINE[l][k]; n = std::sqrt(n); for (size_t k = 0; k < NDIM; k++) d += LINE[l][k] / n * x[k]; for (size_t k = 0; k < NDIM; k++) { double r = x[k] - d * (LINE[l][k] / n); q += r * r; }
      if (d > best) { second = best; best = d; NICHE[i] = l; DIST[i] = q; } else if (d > second) second = d; }
    double m = best < 0 ? -best : best; sym_assume(best - second > 1e-9 * (1 + m)); }
}
static void checkSelect(const algorithm::NSGA3& alg, const GaInfo& ga, const FitnessMatrix& m, const size_t* id) {
  g_n = 0; size_t w = alg.selectImpl(ga, m); sym_assert(w < POP, "a parent is a member of the population");
  if (g_n == 2) { size_t l = w == g_draw[0] ? g_draw[1] : g_draw[0]; sym_assert(w == g_draw[0] || w == g_draw[1], "the parent is one of the two drawn candidates");
    size_t a = id[w], b = id[l]; if (NICHE[a] == NICHE[b]) { sym_assert(RANK[a] <= RANK[b], "of two candidates of the same reference line the one from the better front is selected"); if (RANK[a] == RANK[b]) sym_assert(DIST[a] <= DIST[b] * (1 + 1e-9) + 1e-9, "of two candidates of the same line and front the closer one is selected"); } }
}
extern "C" void harness() {
  TestGA<int> ga(POP); ga.problem(1, NDIM); FitnessMatrix m(ROWS, NDIM), pm(POP, NDIM); algorithm::NSGA3 alg(lines);
#ifdef AGAIN
  { FitnessMatrix a(POP, NDIM), b(ROWS, NDIM); for (size_t i = 0; i < ROWS; i++) for (size_t k = 0; k < NDIM; k++) { b(i, k) = i % NDIM == k ? 60 : -30 - double(i); if (i < POP) a(i, k) = b(i, k); }
    ga.population_ = Population<int>(POP, Candidate<int>(1)); ga.fitness_matrix_ = a; alg.initializeImpl(ga); alg.nextPopulationImpl(ga, b); }
#endif
  for (size_t i = 0; i < ROWS; i++) { size_t c = sym_choice("point", 6); for (size_t k = 0; k < NDIM; k++) m(i, k) = POINTS[SET][c][k]; }
  for (size_t i = 0; i < POP; i++) for (size_t k = 0; k < NDIM; k++) pm(i, k) = F[i][k] = m(i, k);
  N = POP; oracle(true); ga.population_ = Population<int>(POP, Candidate<int>(1)); ga.fitness_matrix_ = pm;
  alg.initializeImpl(ga); size_t id[ROWS]; for (size_t i = 0; i < POP; i++) id[i] = i;
#ifdef FIRST
  checkSelect(alg, ga, pm, id);
#endif
  for (size_t i = 0; i < ROWS; i++) for (size_t k = 0; k < NDIM; k++) F[i][k] = m(i, k);
  N = ROWS; oracle(false);
  auto next = alg.nextPopulationImpl(ga, m); sym_assert(next.size() == POP, "the next population has the population size"); bool in[ROWS] = {}; size_t count[LINES] = {};
  for (size_t i = 0; i < POP; i++) { size_t x = next[i]; sym_assert(x < ROWS && !in[x], "every survivor is a different solution"); in[x] = true; count[NICHE[x]]++; id[i] = x; for (size_t k = 0; k < NDIM; k++) pm(i, k) = m(x, k); }
  for (size_t i = 0; i < ROWS; i++) for (size_t j = 0; j < ROWS; j++) if (in[i] && !in[j]) { sym_assert(RANK[i] <= RANK[j], "no solution of a better front is left out");
    if (RANK[i] == RANK[j]) { sym_assert(count[NICHE[i]] <= count[NICHE[j]] + 1, "the last front fills the reference lines with the fewest solutions first"); if (NICHE[i] == NICHE[j]) sym_assert(DIST[i] <= DIST[j] * (1 + 1e-9) + 1e-9, "of the last front the solutions closest to a reference line survive"); } }
  ga.fitness_matrix_ = pm; checkSelect(alg, ga, pm, id);
  size_t best = ROWS; for (size_t i = 0; i < POP; i++) if (RANK[id[i]] < best) best = RANK[id[i]];
  auto opt = alg.optimalSolutionsImpl(ga); bool is[POP] = {}; for (size_t i : opt) { sym_assert(i < POP && !is[i], "optimal solutions are distinct members of the population"); is[i] = true; } for (size_t i = 0; i < POP; i++) sym_assert(is[i] == (RANK[id[i]] == 0), "the optimal solutions are the first front of the population");
  sym_reach("end");
}
