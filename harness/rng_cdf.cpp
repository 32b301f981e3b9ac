// PROPERTY: P21
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: cumulative distributions of 1..8 (33 in thorough) symbolic nondecreasing values on a grid, with repeated values (weights of zero), whose last value is any positive grid value, and every threshold below it
// ASSUME: a positive threshold (a draw of exactly 0 can select an index of weight 0)
// STUB: double gapp::rng::randomReal<double>\(double, double\) => h_real2
// REACH: end
// CONFIG: quick len1 -DLEN=1
// CONFIG: quick len2 -DLEN=2
// CONFIG: quick len3 -DLEN=3
// CONFIG: quick len8 -DLEN=8
// CONFIG: thorough len33 -DLEN=33
#include "common.hpp"
#include "utility/rng.hpp"
using namespace gapp; using namespace vh;
static double g_t, g_last; static size_t g_n;
extern "C" double h_real2(double lo, double hi) { g_n++; sym_assert(And(lo == 0.0, hi == g_last), "the threshold is drawn between 0 and the end of the distribution"); g_t = sym_grid("threshold", 0, 16 << 10) * 0x1p-10; sym_assume(And(g_t > 0.0, g_t < hi)); return g_t; }
extern "C" void harness() {
  double cdf[LEN]; for (size_t i = 0; i < LEN; i++) { cdf[i] = sym_grid("cdf", 0, 16); if (i) sym_assume(cdf[i - 1] <= cdf[i]); } g_last = cdf[LEN - 1]; sym_assume(g_last > 0.0);
  size_t i = rng::sampleCdf<double>(std::span<const double>(cdf, LEN)); sym_assert(g_n == 1, "a single threshold is drawn"); sym_assert(i < LEN, "the selected index is inside the distribution");
  i = sym_concretize(i); sym_assert(g_t <= cdf[i], "the threshold belongs to the share of the selected index"); if (i) sym_assert(g_t > cdf[i - 1], "the threshold belongs to the share of the selected index");
  if (LEN <= 3) for (size_t k = 0; k < LEN; k++) sym_possible(And(i == k, cdf[0] > 0.0), named("index", k)); sym_reach("end");
}
