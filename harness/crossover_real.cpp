// PROPERTY: P13
// SOURCES: crossover/real.cpp core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI mutation selection replacement
// BOUNDS: chromosomes of 1..2 genes; bounds symbolic integers in -2..2 including lower == upper; genes inside the bounds that are multiples of 1/4 (every double in the *_full runs); arithmetic_edge: parents that share a gene at the upper bound, any multiple of 1/32 below 1, with weights whose combinations are not exact; symbolic two-objective fitness (Wright); SBX: genes and bounds integers in -1..1
// ASSUME: gene bounds are finite and their width does not overflow; random numbers are multiples of 1/64 (every double in the *_full runs), pow returns 0, 1/4, 1, 4 or infinity, whichever its arguments allow
// REACH: end
// STUB: double gapp::rng::randomReal<double>\(\) => h_real
// STUB: double gapp::rng::randomReal<double>\(double, double\) => h_real2
// STUB: pow => h_pow
// CONFIG: quick arithmetic_1 -DOP=0 -DLEN=1
// CONFIG: quick arithmetic_2 -DOP=0 -DLEN=2
// CONFIG: quick blx_2 -DOP=1 -DLEN=2
// CONFIG: quick arithmetic_edge -DOP=0 -DLEN=1 -DFULL=2
// CONFIG: quick sbx_1 -DOP=2 -DLEN=1
// CONFIG: quick wright_2 -DOP=3 -DLEN=2
// CONFIG: thorough arithmetic_1_full -DOP=0 -DLEN=1 -DFULL=1
// CONFIG: thorough wright_1_full -DOP=3 -DLEN=1 -DFULL=1
// CONFIG: quick sbx_2 -DOP=2 -DLEN=2
#include "ga_stub.hpp"
#include "crossover/real.hpp"
#include <limits>
#include <algorithm>
using namespace gapp; using namespace vh; using Gene = double;
#ifndef FULL
#define FULL 0
#endif
static double g_real[8]; static size_t g_n = 0; static double g_lo[8], g_hi[8]; static size_t g_n2 = 0;
extern "C" double h_real() { double r = FULL == 2 ? (const double[]){0.2, 0.3}[sym_choice("real", 2)] : FULL ? sym_double_in("real", 0.0, 0x1.fffffffffffffp-1) : sym_grid("real", 0, 63) * 0x1p-6; if (g_n < 8) g_real[g_n++] = r; return r; }
extern "C" double h_real2(double lo, double hi) { sym_assert(lo <= hi, "valid interval passed to randomReal"); double r = sym_grid("realIn", -64, 64) * 0.25; sym_assume(And(lo <= r, r <= hi)); if (g_n2 < 8) { g_lo[g_n2] = lo; g_hi[g_n2] = hi; g_real[g_n2++] = r; } return r; }
extern "C" double h_pow(double x, double y) {
  sym_assert(x >= 0.0, "non-negative base"); static const double v[] = {0.0, 0.25, 1.0, 4.0}; double r = v[sym_choice("pow", 4)]; bool up = Or(And(x >= 1.0, y >= 0.0), And(x <= 1.0, y <= 0.0)), down = Or(And(x >= 1.0, y <= 0.0), And(x <= 1.0, y >= 0.0));
  sym_assume(Or(!up, r >= 1.0)); sym_assume(Or(!down, r <= 1.0)); if (r == 4.0 && And(x < 1.0, y < 0.0) && sym_bits("overflow", 1)) return std::numeric_limits<double>::infinity(); return r; }
static double clampTo(double x, double lo, double hi) { double r = x; if (r < lo) r = lo; if (r > hi) r = hi; return r; }
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, 2); double p = 1.0;
  Candidate<Gene> a(LEN), b(LEN); Gene lo[LEN], hi[LEN];
  for (size_t i = 0; i < LEN; i++) {
    if (OP == 2) { lo[i] = (double)sym_choice("lo", 2) - 1.0; hi[i] = (double)sym_choice("hi", 3) - 1.0; } else if (FULL == 2) { hi[i] = sym_grid("hi", 1, 31) * 0x1p-5; lo[i] = sym_choice("point", 2) ? (double)hi[i] : 0.0; } else { lo[i] = sym_grid("lo", -2, 2); hi[i] = sym_grid("hi", -2, 2); } sym_assume(lo[i] <= hi[i]); ga.bounds_.emplace_back(lo[i], hi[i]);
    for (auto* c : {&a, &b}) { double g = FULL == 2 ? hi[i] : FULL ? sym_double_in("gene", -2, 2) : OP == 2 ? (double)sym_choice("gene", 3) - 1.0 : sym_grid("gene", -8, 8) * 0.25; sym_assume(And(lo[i] <= g, g <= hi[i])); c->chromosome[i] = g; }
  }
  for (auto* c : {&a, &b}) { c->is_evaluated = true; c->fitness = FitnessVector(2); for (size_t k = 0; k < 2; k++) c->fitness[k] = OP == 3 ? sym_grid("f", 0, 1) : 1.0; }
#if OP == 0
  crossover::real::Arithmetic x(p);
#elif OP == 1
  double al = (const double[]){0.0, 0.5, 2.0}[sym_choice("alpha", 3)]; crossover::real::BLXa x(p, al);
#elif OP == 2
  crossover::real::SimulatedBinary x(p, (const double[]){0.0, 4.0}[sym_choice("eta", 2)]);
#else
  crossover::real::Wright x(p);
#endif
  const crossover::Crossover<Gene>& cx = x;
  auto [c1, c2] = cx.crossover(ga, a, b);
  sym_assert(c1.chromosome.size() == LEN && c2.chromosome.size() == LEN, "children have the chromosome length of the parents");
  for (size_t i = 0; i < LEN; i++) { sym_assert(And(lo[i] <= c1.chromosome[i], c1.chromosome[i] <= hi[i]), "genes of the first child stay inside the bounds"); sym_assert(And(lo[i] <= c2.chromosome[i], c2.chromosome[i] <= hi[i]), "genes of the second child stay inside the bounds"); }
  // the documented formulas (all values are small multiples of 2^-8, so that every way of evaluating them is exact)
#if OP == 0 && !FULL
  if (g_n == 1) { bool s = true; double t = g_real[0]; for (size_t i = 0; i < LEN; i++) { double u = t * a.chromosome[i] + (1.0 - t) * b.chromosome[i], v = (1.0 - t) * a.chromosome[i] + t * b.chromosome[i]; s = And(s, And(c1.chromosome[i] == u, c2.chromosome[i] == v)); } sym_assert(s, "the children are the complementary linear combinations of the parents"); }
  if (g_n > 1) { bool same = true; for (size_t i = 0; i < LEN; i++) for (size_t j = 0; j < i; j++) same = And(same, (c1.chromosome[i] - b.chromosome[i]) * (a.chromosome[j] - b.chromosome[j]) == (c1.chromosome[j] - b.chromosome[j]) * (a.chromosome[i] - b.chromosome[i])); sym_assert(same, "the same weight is used for every pair of genes"); }
#elif OP == 1
  for (size_t i = 0; i < LEN; i++) { double mn = std::min(a.chromosome[i], b.chromosome[i]), mx = std::max(a.chromosome[i], b.chromosome[i]), I = mx - mn, l = clampTo(mn - al * I, lo[i], hi[i]), h = clampTo(mx + al * I, lo[i], hi[i]); for (auto* c : {&c1, &c2}) sym_assert(And(l <= c->chromosome[i], c->chromosome[i] <= h), "the genes of the children come from the parents' interval extended by alpha on both sides");
    if (g_n2 == 2 * LEN) sym_assert(And(g_lo[2 * i] == mn - al * I, g_hi[2 * i] == mx + al * I), "the genes are drawn from the whole extended interval"); }
#elif OP == 2
  for (size_t i = 0; i < LEN; i++) if (a.chromosome[i] == b.chromosome[i]) sym_assert(And(c1.chromosome[i] == a.chromosome[i], c2.chromosome[i] == a.chromosome[i]), "a gene both parents share is inherited");
    else { double mid = 0.5 * (a.chromosome[i] + b.chromosome[i]); sym_assert(And(c1.chromosome[i] <= mid, c2.chromosome[i] >= mid), "the children lie on different sides of the middle of the parents"); }
#elif OP == 3 && !FULL
  sym_assert(g_n != 1, "the children use separate weights");
  if (g_n == 2) { bool ab = sym_concretize(dominates(b.fitness, a.fitness, 2)), ba = sym_concretize(dominates(a.fitness, b.fitness, 2)), any = false;
    for (int d = 0; d < 2; d++) { if (d ? ba : ab) continue; bool s1 = true; for (size_t i = 0; i < LEN; i++) { double A = a.chromosome[i], B = b.chromosome[i], w = d ? B : A, l = d ? A : B; double u = clampTo(w + g_real[0] * (w - l), lo[i], hi[i]), v = clampTo(w + g_real[1] * (w - l), lo[i], hi[i]); s1 = And(s1, Or(And(c1.chromosome[i] == u, c2.chromosome[i] == v), And(c1.chromosome[i] == v, c2.chromosome[i] == u))); } any = Or(any, s1); }
    sym_assert(any, "the children move from the better parent away from the other one, in either direction when neither is better"); }
#endif
  sym_reach("end");
}
