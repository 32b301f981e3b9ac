// PROPERTY: P19
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: two calls in a row of the normal and Poisson generators with symbolic parameters; the standard normal value is symbolic
// ASSUME: the distributions of the standard library follow their parameters
// STUB: double gapp::rng::randomNormal<double>\(double, double\) => -
// STUB: int gapp::rng::randomPoisson<int>\(double\) => -
// STUB: unsigned long gapp::rng::randomPoisson<unsigned long>\(double\) => -
// STUB: double std::normal_distribution<double>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p const>\(gapp::rng::ConcurrentXoroshiro128p const&\) => h_normal1
// STUB: double std::normal_distribution<double>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p const>\(gapp::rng::ConcurrentXoroshiro128p const&, .*param_type const&\) => h_normal2
// STUB: unsigned long std::poisson_distribution<unsigned long>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p const>\(gapp::rng::ConcurrentXoroshiro128p const&\) => h_poisson1
// STUB: unsigned long std::poisson_distribution<unsigned long>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p const>\(gapp::rng::ConcurrentXoroshiro128p const&, .*param_type const&\) => h_poisson2
// REACH: end
// CONFIG: quick normal -DMODE=0
// CONFIG: quick poisson -DMODE=1
#include "common.hpp"
#include "utility/rng.hpp"
using namespace gapp; using namespace vh;
using N = std::normal_distribution<double>; using P = std::poisson_distribution<uint64_t>;
static double g_z, g_mean; static size_t g_n;
static double normal(double m, double s) { g_n++; g_z = sym_grid("z", -64, 64) * 0.125; return m + s * g_z; }
static uint64_t poisson(double m) { g_n++; g_mean = m; return sym_range("count", 0, 20); }
extern "C" double h_normal1(const N* d, const void*) { return normal(d->mean(), d->stddev()); }
extern "C" double h_normal2(const N*, const void*, const N::param_type* p) { return normal(p->mean(), p->stddev()); }
extern "C" uint64_t h_poisson1(const P* d, const void*) { return poisson(d->mean()); }
extern "C" uint64_t h_poisson2(const P*, const void*, const P::param_type* p) { return poisson(p->mean()); }
extern "C" void harness() {
  for (int k = 0; k < 2; k++) {
    g_n = 0;
    if (MODE == 0) { double m = sym_grid("mean", -8, 8), s = sym_grid("sd", 0, 8); double r = rng::randomNormal<double>(m, s); if (g_n == 1) sym_assert(r == m + s * g_z, "a normal value has the requested mean and standard deviation"); }
    else { double m = sym_double_in("mean", 0.125, 8); if (sym_choice("type", 2)) (void)rng::randomPoisson<int>(m); else (void)rng::randomPoisson<size_t>(m); if (g_n == 1) sym_assert(g_mean == m, "a Poisson value has the requested mean"); }
  }
  sym_reach("end");
}
