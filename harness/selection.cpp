// PROPERTY: P08
// SOURCES: algorithm/soga_selection.cpp algorithm/soga_replacement.cpp algorithm/single_objective.cpp core/population.cpp core/ga_info.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop 3GAI crossover mutation
// BOUNDS: populations of 1..3 (quick) / 4 (thorough) candidates; tournament: any fitness including infinities on a grid, sizes 1..3, every draw; the other methods: every combination of the listed fitness values (negative, zero, equal, very large and very small ones), every operator parameter listed, every random threshold; the selection is prepared for another population first
// ASSUME: finite fitness values for the roulette, sigma and Boltzmann methods (documented); a positive random threshold (a draw of exactly 0 can select a candidate of weight 0); equal fitness values are excluded where the rank decides (their order is unspecified); probabilities agree with the formulas up to 1e-9
// STUB: unsigned long gapp::rng::randomInt<unsigned long>\(.*\) => h_draw
// STUB: double gapp::rng::randomReal<double>\(\) => h_real
// STUB: double gapp::rng::randomReal<double>\(double, double\) => h_real2
// REACH: end
// CONFIG: quick tournament -DMETHOD=0 -DROWS=3
// CONFIG: quick rank -DMETHOD=1 -DROWS=3
// CONFIG: quick rank_1 -DMETHOD=1 -DROWS=1
// CONFIG: quick roulette -DMETHOD=2 -DROWS=3
// CONFIG: quick sigma -DMETHOD=3 -DROWS=3
// CONFIG: quick sigma_1 -DMETHOD=3 -DROWS=1
// CONFIG: quick boltzmann -DMETHOD=4 -DROWS=3
// CONFIG: quick boltzmann_1 -DMETHOD=4 -DROWS=1
// CONFIG: thorough rank_4 -DMETHOD=1 -DROWS=4
// CONFIG: thorough roulette_4 -DMETHOD=2 -DROWS=4
// CONFIG: thorough sigma_4 -DMETHOD=3 -DROWS=4
// CONFIG: thorough boltzmann_4 -DMETHOD=4 -DROWS=4
// CONFIG: thorough tournament_4 -DMETHOD=0 -DROWS=4
#include "ga_stub.hpp"
#include "algorithm/single_objective.hpp"
#include <cmath>
#include <limits>
using namespace gapp; using namespace vh;
static size_t g_draw[8], g_n = 0, g_reals = 0; static double g_t, g_hi;
extern "C" uint64_t h_draw(uint64_t lo, uint64_t hi) { uint64_t r = lo + (hi > lo ? sym_choice("draw", hi - lo + 1) : 0); if (g_n < 8) g_draw[g_n] = r; g_n++; return r; }
extern "C" double h_real2(double lo, double hi) { sym_assert(lo == 0.0 && hi >= 0.0 && hi < 1e308, "the thresholds are drawn from a finite range starting at 0"); g_reals++; g_hi = hi; g_t = sym_double_in("threshold", 0.0, hi); sym_assume(g_t > 0.0 || hi == 0.0); return g_t; }
extern "C" double h_real() { g_reals++; g_hi = 1.0; g_t = sym_double_in("threshold", 0.0, 0x1.fffffffffffffp-1); sym_assume(g_t > 0.0); return g_t; }
static const double INF = std::numeric_limits<double>::infinity();
static const double VALUES[5][6] = { { -INF, -1.0, 0.0, 0.0, 2.0, INF }, { -INF, -3.0, 0.0, 1e-300, 5.0, INF }, { -4.0, 0.0, 1.0, 2.5, 1e-300, 1.5e308 }, { -4.0, 0.0, 1.0, 3.5, 1e6, -1.5e308 }, { -4.0, 0.0, 0.25, 3.5, 1e6, -1.5e308 } };
// the selection weights by the documented formulas
static void weights(const double* f, double* w, double a, double b) {
  size_t n = ROWS; if (METHOD == 1) for (size_t i = 0; i < n; i++) { size_t rank = 0; for (size_t j = 0; j < n; j++) rank += f[j] < f[i]; w[i] = n == 1 ? 1.0 : a + (b - a) * ((double)rank / (double)(n - 1)); }
  double lo = f[0], hi = f[0]; for (size_t i = 1; i < n; i++) { if (f[i] < lo) lo = f[i]; if (f[i] > hi) hi = f[i]; }
  if (METHOD == 2) for (size_t i = 0; i < n; i++) w[i] = f[i] / 4.0;
  if (METHOD == 3) { double mean = 0.0; for (size_t i = 0; i < n; i++) mean += f[i] / (double)n; double scale = 1.0; for (size_t i = 0; i < n; i++) { double d = std::fabs(f[i] / 4 - mean / 4); if (d > scale) scale = d; } double var = 0.0; for (size_t i = 0; i < n; i++) { double d = (f[i] / 4 - mean / 4) / scale; var += d * d; } double sd = std::sqrt(var / (double)n) * scale;
    for (size_t i = 0; i < n; i++) { double v = sd > 0.0 ? 1.0 + (f[i] / 4 - mean / 4) / sd / a : 1.0; w[i] = v > 0.0 ? v : 0.0; } }
  if (METHOD == 4) for (size_t i = 0; i < n; i++) { double d = hi / 4 - lo / 4, x = d > 0.0 ? (f[i] / 4 - lo / 4) / d : 0.0; w[i] = std::exp(x / a); }
}
extern "C" void harness() {
  TestGA<int> ga(ROWS); ga.problem(1, 1); double a = 1.0, b = 1.0; std::unique_ptr<selection::Selection> sel;
  if (METHOD == 0) { size_t k = 1 + sym_choice("size", ROWS < 3 ? ROWS : 3); auto t = std::make_unique<selection::Tournament>(k); sel = std::move(t); }
  if (METHOD == 1) { static const double P[4][2] = { { 0.1, 1.1 }, { 0.0, 1.0 }, { 2.0, 2.0 }, { 0.0, 1e300 } }; size_t k = sym_choice("limits", 4); a = P[k][0]; b = P[k][1]; auto t = std::make_unique<selection::Rank>(a, b); sel = std::move(t); }
  if (METHOD == 2) sel = std::make_unique<selection::Roulette>();
  if (METHOD == 3) { static const double P[4] = { 1.0, 2.0, 3.0, 0.25 }; a = P[sym_choice("scale", 4)]; sel = std::make_unique<selection::Sigma>(a); }
  if (METHOD == 4) { static const double P[3] = { 0.2, 1.0, 4.2 }; size_t k = sym_choice("temperature", 4), gen = sym_choice("generation", 3) * 4; ga.generation_cntr_ = gen; ga.max_gen(9);
    if (k < 3) { a = P[k]; sel = std::make_unique<selection::Boltzmann>([a, gen](size_t g, size_t max) { sym_assert(g == gen && max == 9, "the temperature is that of the current generation"); return a; }); }
    else { a = 4.2 - 4.0 / (1.0 + std::exp(3.0 - 10.0 * (double(gen) / 9.0))); sel = std::make_unique<selection::Boltzmann>(); } }
  algorithm::SingleObjective alg(std::move(sel)); FitnessMatrix m(ROWS, 1), first(ROWS, 1); double f[ROWS];
  for (size_t i = 0; i < ROWS; i++) { f[i] = m(i, 0) = VALUES[METHOD][sym_choice("f", 6)]; first(i, 0) = (double)(i * i); }
  if (METHOD == 1) for (size_t i = 0; i < ROWS; i++) for (size_t j = 0; j < i; j++) sym_assume(f[i] != f[j]);
  ga.population_ = Population<int>(ROWS, Candidate<int>(1)); ga.fitness_matrix_ = first;
  alg.initializeImpl(ga); alg.prepareSelectionsImpl(ga, first); ga.fitness_matrix_ = m; alg.prepareSelectionsImpl(ga, m);
  g_n = g_reals = 0; size_t w = alg.selectImpl(ga, m); sym_assert(w < ROWS, "the selected candidate is a member of the population");
  if (METHOD == 0) { size_t k = static_cast<selection::Tournament&>(alg.selection_method()).size(); sym_assert(g_n == 0 || g_n == k, "as many candidates are drawn as the size of the tournament"); if (g_n == k) { bool drawn = false; for (size_t i = 0; i < g_n; i++) { drawn = drawn || g_draw[i] == w; sym_assert(f[w] >= f[g_draw[i]], "the winner of a tournament is the best of the drawn candidates"); } sym_assert(drawn, "the winner of a tournament is one of the drawn candidates"); } }
  else { sym_assert(g_reals <= 1, "one threshold is drawn for a selection"); double p[ROWS]; weights(f, p, a, b); double sum = 0.0, big = 0.0; bool neg = false; for (size_t i = 0; i < ROWS; i++) { if (p[i] > big) big = p[i]; neg = neg || (METHOD == 2 && f[i] < 0.0); }
    if (neg) { double lowest = f[0]; for (size_t i = 1; i < ROWS; i++) if (f[i] < lowest) lowest = f[i]; big = 0.0; for (size_t i = 0; i < ROWS; i++) { p[i] = f[i] / 12 - lowest / 6; if (p[i] > big) big = p[i]; } }
    if (big == 0.0) { for (size_t i = 0; i < ROWS; i++) p[i] = 1.0; big = 1.0; }
    for (size_t i = 0; i < ROWS; i++) { p[i] /= big; sum += p[i]; }
    if (g_reals == 1) { double below = 0.0; for (size_t i = 0; i < w; i++) below += p[i] / sum; double above = below + p[w] / sum;
      sym_assert(p[w] > 0.0 || g_t <= (below + 1e-9) * g_hi, "a candidate with no selection weight is not selected");
      sym_assert(And(g_t >= (below - 1e-9) * g_hi, g_t <= (above + 1e-9) * g_hi), "a candidate is selected with the probability given by its weight"); } }
  for (size_t i = 0; i < ROWS; i++) { bool worst = true, best = true; for (size_t j = 0; j < ROWS; j++) { worst = worst && f[i] <= f[j] && (i == j || f[j] > f[i]); best = best && f[i] >= f[j]; } if (METHOD != 2) sym_possible(And(w == i, worst), named("the worst candidate is selected at", i)); sym_possible(And(w == i, best), named("the best candidate is selected at", i)); }
  sym_reach("end");
}
