// PROPERTY: P47
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: 1..6 dimensions, seeds on a grid of step 1/16 between 0 and 4, and every double seed for one step; sequences of up to 4 points, skips of up to 4 points, up to 2 resets
// ASSUME: none
// REACH: end
// CONFIG: quick grid
// CONFIG: quick any_seed -DANYSEED=1
// CONFIG: thorough grid_deep -DMAXDIM=10 -DSTEPS=8 heavy=1
#ifndef MAXDIM
#define MAXDIM 6
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef REALTYPE
#define REALTYPE double
#endif
#include "common.hpp"
#include "utility/qrng.hpp"
#include <cmath>
#include <cstring>
using namespace gapp; using namespace vh; using R = REALTYPE; using Q = rng::QuasiRandom<R>;
static void cube(const Q::result_type& p, size_t dim) { sym_assert(p.size() == dim, "a point has the dimension of the generator"); for (R x : p) sym_assert(And(x >= 0, x < 1), "every coordinate is in [0, 1)"); }
static void equal(const Q::result_type& a, const Q::result_type& b, const char* label) { bool e = a.size() == b.size(); for (size_t i = 0; i < a.size(); i++) e = And(e, a[i] == b[i]); sym_assert(e, label); }
extern "C" void harness() {
#ifdef ANYSEED
  R seed = sym_double("seed"); sym_assume(And(seed >= 0, seed <= std::numeric_limits<R>::max())); size_t dim = 1 + sym_choice("dim", 2); Q q(dim, seed); cube(q(), dim);
#else
  size_t dim = 1 + sym_choice("dim", MAXDIM); R s1 = R(sym_grid("seed", 0, 64)) / 16, s2 = R(sym_grid("seed", 0, 64)) / 16; Q q(dim, s1), r(dim, s1); sym_assert(q.dim() == dim, "the generator has the requested dimension");
  // the ratios of the additive recurrence: the inverse powers of the root of x^(dim + 1) = x + 1
  double lo = 1, hi = 2; for (int i = 0; i < 80; i++) { double m = (lo + hi) / 2; (std::pow(m, double(dim + 1)) > m + 1 ? hi : lo) = m; }
  double tol = sizeof(R) == 4 ? 1e-4 : 1e-7; std::vector<Q::result_type> pts; for (size_t k = 0; k < STEPS; k++) { pts.push_back(q()); cube(pts[k], dim); }
  for (size_t k = 0; k + 1 < STEPS; k++) { double a = 1; for (size_t i = 0; i < dim; i++) { a /= lo; double d = double(pts[k + 1][i]) - double(pts[k][i]) - a; sym_assert(Or(And(d <= tol, d >= -tol), And(d + 1 <= tol, d + 1 >= -tol)), "consecutive points differ by the ratios of the sequence"); } }
  double a = 1; for (size_t i = 0; i < dim; i++) { a /= lo; double d = double(pts[0][i]) - double(s1) - a; bool ok = false; for (int w = 0; w < 7; w++) ok = Or(ok, And(d + w <= tol, d + w >= -tol)); sym_assert(ok, "the sequence starts from the seed"); }
  size_t n = sym_choice("skip", STEPS); r.discard(n); equal(r(), pts[n], "discarding points is generating them"); 
  q.reset(s2); Q f(dim, s2); equal(q(), f(), "a reset starts the sequence of the new seed"); equal(q(), f(), "a reset starts the sequence of the new seed"); q.reset(s1); for (size_t k = 0; k < STEPS; k++) equal(q(), pts[k], "a reset to the same seed repeats the sequence");
  Q d(dim), e(dim, R(0.5)); equal(d(), e(), "the default seed is one half"); d.reset(); Q g(dim); equal(d(), g(), "the default reset restores the default sequence");
#endif
  sym_reach("end");
}
