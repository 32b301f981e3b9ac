// PROPERTY: P50
// SOURCES: utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: vectors of 1..3 elements on integer grids (4 for the products); exponents 0..6 on a grid of angles
// ASSUME: small integer elements; results with division are compared up to a relative error of 1e-9
// REACH: end
// CONFIG: quick exact_2 -DMODE=0 -DNV=2
// CONFIG: quick exact_3 -DMODE=0 -DNV=3
// CONFIG: quick lines_2 -DMODE=1 -DNV=2
// CONFIG: quick lines_3 -DMODE=1 -DNV=3 -DTOPV=1
// CONFIG: quick stats -DMODE=2
// CONFIG: quick sine -DMODE=3
#include "common.hpp"
#include "utility/math.hpp"
#include <cmath>
#ifndef TOPV
#define TOPV 3
#endif
using namespace gapp; using namespace vh; typedef std::vector<double> Vec;
static bool near(double a, double b) { double t = 1e-9 * (1 + std::abs(b)); return And(a - b <= t, b - a <= t); }
static Vec grid(size_t n, int lo, int hi) { Vec v(n); for (double& x : v) x = sym_grid("x", lo, hi); return v; }
extern "C" void harness() {
#if MODE == 0
  size_t n = NV; Vec a = grid(n, -3, 4), b = grid(n, -3, 4); double d = 0, p = 1; for (size_t i = 0; i < n; i++) { d += (a[i] - b[i]) * (a[i] - b[i]); p *= a[i] - b[i]; }
  sym_assert(math::euclideanDistanceSq(a, b) == d, "the squared distance is the sum of the squared differences"); sym_assert(math::volumeBetween(a, b) == (p < 0 ? -p : p), "the volume is the product of the sides of the box"); sym_assert(math::euclideanDistanceSq(b, a) == math::euclideanDistanceSq(a, b) && math::volumeBetween(a, b) == math::volumeBetween(b, a), "the order of the points does not matter");
  Vec z(n, 0.0); double q = 0; for (double x : a) q += x * x; sym_assert(math::euclideanDistanceSq(a, z) == q, "the distance from the origin is the norm");
#elif MODE == 1
  size_t n = NV; Vec l = grid(n, 0, TOPV), p = grid(n, -1, TOPV); double ll = 0, lp = 0, pp = 0; for (size_t i = 0; i < n; i++) { ll += l[i] * l[i]; lp += l[i] * p[i]; pp += p[i] * p[i]; }
  double norm = math::euclideanNorm(l); sym_assert(near(norm * norm, ll), "the norm is the root of the sum of the squares"); sym_assume(ll > 0);
  double d = math::perpendicularDistanceSq(l, p); sym_assert(near(d * ll, pp * ll - lp * lp), "the distance of a point from a line is measured at a right angle"); sym_assert(d >= 0, "a distance is not negative");
  Vec u = l; math::normalizeVector(u); double uu = 0; for (size_t i = 0; i < n; i++) { uu += u[i] * u[i]; sym_assert(near(u[i] * norm, l[i]), "normalizing keeps the direction"); } sym_assert(near(uu, 1), "a normalized vector has a length of one");
#elif MODE == 2
  size_t n = 1 + sym_choice("n", 3); Vec v = grid(n, -3, 4); double s = 0, q = 0; for (double x : v) s += x; double m = math::mean(v); sym_assert(near(m * double(n), s), "the mean is the sum divided by the number of elements");
  for (double x : v) q += (x * double(n) - s) * (x * double(n) - s); double sd = math::stdDev(v); sym_assert(near(sd * sd * double(n * n * n), q), "the standard deviation is the root of the mean squared deviation"); sym_assert(n > 1 || sd == 0, "one element does not deviate"); sym_assert(sd >= 0, "the standard deviation is not negative"); double s0 = math::stdDev(v, 0.0); double q0 = 0; for (double x : v) q0 += x * x; if (n > 1) sym_assert(near(s0 * s0 * double(n), q0), "the deviation is measured from the mean that is given");
#else
  size_t e = sym_choice("exponent", 6); double x = sym_grid("x", -16, 16) / 4, s = std::sin(x), c = std::cos(x), v = math::integralSinPow(e, x), w;
  switch (e) { case 0: w = x; break; case 1: w = -c; break; case 2: w = (x - s * c) / 2; break; case 3: w = c * c * c / 3 - c; break; case 4: w = 3 * x / 8 - std::sin(2 * x) / 4 + std::sin(4 * x) / 32; break; default: w = -c + 2 * c * c * c / 3 - c * c * c * c * c / 5; } sym_assert(near(v, w), "the integral of the power of the sine is computed");
#endif
  sym_reach("end");
}
