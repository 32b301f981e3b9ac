// PROPERTY: P19
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: every output of the generator (64 bits); integer ranges: six ranges of every 8, 16 and 32 bit type (the whole one, the empty ones, ranges with rejection), the listed ranges of 64 bit types, up to 1 rejected draw; real ranges: bounds listed below and every 53 bit fraction; binomial: every n of 0..4 with symbolic p, the listed larger n and p with symbolic normal and Poisson draws
// ASSUME: no more than 1 draw in a row is rejected (2 normal or Poisson draws)
// STUB: double gapp::rng::randomReal<double>\(\) => -
// STUB: double gapp::rng::randomReal<double>\(double, double\) => -
// STUB: gapp::rng::randomBool\(\) => -
// STUB: signed char gapp::rng::randomInt<signed char>\(.*\) => -
// STUB: unsigned char gapp::rng::randomInt<unsigned char>\(.*\) => -
// STUB: short gapp::rng::randomInt<short>\(.*\) => -
// STUB: unsigned short gapp::rng::randomInt<unsigned short>\(.*\) => -
// STUB: int gapp::rng::randomInt<int>\(.*\) => -
// STUB: unsigned int gapp::rng::randomInt<unsigned int>\(.*\) => -
// STUB: long gapp::rng::randomInt<long>\(.*\) => -
// STUB: unsigned long gapp::rng::randomInt<unsigned long>\(.*\) => -
// STUB: int gapp::rng::randomBinomial<int>\(int, double\) => -
// STUB: unsigned long gapp::rng::randomBinomial<unsigned long>\(unsigned long, double\) => -
// STUB: unsigned long std::uniform_int_distribution<unsigned long>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p.*param_type const&\) => -
// STUB: double gapp::rng::randomNormal<double>\(double, double\) => h_normal
// STUB: int gapp::rng::randomPoisson<int>\(double\) => h_poisson
// STUB: unsigned long gapp::rng::randomPoisson<unsigned long>\(double\) => h_poisson64
// STUB: gapp::rng::ConcurrentXoroshiro128p::operator\(\)\(\) const => h_prng
// REACH: end
// CONFIG: quick real -DMODE=0
// CONFIG: quick real_range -DMODE=1
// CONFIG: quick int_small -DMODE=2
// CONFIG: quick int_64 -DMODE=3
// CONFIG: quick binomial_exact -DMODE=4
// CONFIG: quick binomial_approx -DMODE=5 heavy=1
// CONFIG: quick pick -DMODE=6
// CONFIG: quick boolean -DMODE=7
// CONFIG: quick int_32 -DMODE=8
#include "common.hpp"
#include "utility/rng.hpp"
#include <list>
using namespace gapp; using namespace vh;
static int g_num = 0; static size_t g_draws = 0, g_limit = MODE == 5 || MODE == 7 ? 3 : 2; static uint64_t g_word[8];
extern "C" uint64_t h_prng(const void*) { sym_assume(g_draws < g_limit); uint64_t w = sym_bits("word", 64); if (g_draws < 8) g_word[g_draws] = w; g_draws++; return w; }
extern "C" double h_normal(double mean, double sd) { sym_assert(sd >= 0.0, "the standard deviation is not negative"); sym_assume(g_draws++ < g_limit); if (sd == 0.0) return mean; double z = sym_grid("normal", -32, 32) * 0.25; return sym_choice("side", 2) ? (double)g_num + z : z; }
extern "C" int h_poisson(double mean) { sym_assert(mean > 0.0, "the mean is positive"); sym_assume(g_draws++ < g_limit); return (int)sym_range("poisson", 0, 1000); }
extern "C" uint64_t h_poisson64(double mean) { sym_assert(mean > 0.0, "the mean is positive"); sym_assume(g_draws++ < g_limit); return sym_bits("poisson", 32); }
template<typename T> static void intRange(T lo, T hi) { g_draws = 0; T r = rng::randomInt<T>(lo, hi); sym_assert(And(lo <= r, r <= hi), "a random integer is in its closed range"); sym_possible(r == hi, "the upper bound is drawn"); sym_possible(r == lo, "the lower bound is drawn"); }
template<typename T> static void someRange() { constexpr T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); static const T B[6][2] = { { lo, hi }, { 0, 0 }, { 0, 1 }, { 3, 12 }, { (T)(hi - 7), hi }, { (T)(hi - 2), hi } }; auto& r = B[sym_choice("range", 6)]; intRange<T>(r[0], r[1]); }
extern "C" void harness() {
  if (MODE == 0) { double r = rng::randomReal(); sym_assert(And(r >= 0.0, r < 1.0), "a random real number is in [0, 1)"); g_draws = 0; float f = rng::randomReal<float>(); sym_assert(And(f >= 0.0f, f < 1.0f), "a random float is in [0, 1)"); }
  if (MODE == 1) { static const double B[8][2] = { { 0.0, 0.1 }, { -0.1, 0.1 }, { -1.0, 0x1.8p-53 }, { 3.0, 3.0 }, { 1.0, 1.0000000000000002 }, { -1e300, 1e300 }, { 0.0, 5e-324 }, { 0.1, 0.3 } }; auto& b = B[sym_choice("bounds", 8)]; double r = rng::randomReal(b[0], b[1]); sym_assert(And(r >= b[0], r <= b[1]), "a random real number stays within its bounds"); }
  if (MODE == 2) { switch (sym_choice("type", 4)) { case 0: someRange<signed char>(); break; case 1: someRange<unsigned char>(); break; case 2: someRange<short>(); break; default: someRange<unsigned short>(); } }
  if (MODE == 8) { if (sym_choice("type", 2)) someRange<int>(); else someRange<unsigned int>(); }
  if (MODE == 3) { static const uint64_t U[4][2] = { { 0, 0 }, { 0, 2 }, { 5, 5 + 0xffff }, { 0, ~0ull } }; static const int64_t S[3][2] = { { -1, 1 }, { INT64_MIN, INT64_MAX }, { -7, -7 } }; size_t w = sym_choice("range", 7); if (w < 4) intRange<uint64_t>(U[w][0], U[w][1]); else intRange<int64_t>(S[w - 4][0], S[w - 4][1]); }
  if (MODE == 4) { g_limit = 100; int n = (int)sym_choice("n", 5); size_t s = sym_choice("p", 3); double p = s == 0 ? 0.0 : s == 1 ? 1.0 : sym_double_in("p", 0.0, 1.0); int r = rng::randomBinomial(n, p); sym_assert(And(r >= 0, r <= n), "a binomial number is between 0 and n"); if (s == 0) sym_assert(r == 0, "nothing succeeds with a probability of 0"); if (s == 1) sym_assert(r == n, "everything succeeds with a probability of 1"); if (s == 2 && n == 4) for (int k = 0; k < 5; k++) { static const char* L[5] = {"no success", "1 success", "2 successes", "3 successes", "4 successes"}; sym_possible(r == k, L[k]); } }
  if (MODE == 5) { static const int N[4] = { 6, 50, 51, 1000 }; static const double P[6] = { 0.0, 1e-300, 0.01, 0.1, 0.5, 1.0 }; int n = g_num = N[sym_choice("n", 4)]; double p = P[sym_choice("p", 6)]; uint64_t r; if (sym_choice("type", 2)) r = (uint64_t)rng::randomBinomial<int>(n, p); else r = rng::randomBinomial<size_t>((size_t)n, p); sym_assert(r <= (uint64_t)n, "a binomial number is between 0 and n"); if (p == 0.0) sym_assert(r == 0, "nothing succeeds with a probability of 0"); if (p == 1.0) sym_assert(r == (uint64_t)n, "everything succeeds with a probability of 1"); }
  if (MODE == 6) { size_t n = 1 + sym_choice("size", 4); std::vector<int> v(n, 0); std::list<int> l; for (size_t i = 0; i < n; i++) l.push_back((int)i); size_t ix = rng::randomIndex(v); sym_assert(ix < n, "a random index is inside its range"); if (n == 4) { sym_possible(ix == 0, "the first index is drawn"); sym_possible(ix == 3, "the last index is drawn"); } g_draws = 0; auto it = rng::randomElement(l.begin(), l.end()); sym_assert(it != l.end() && *it >= 0 && *it < (int)n, "a random element is an element of its range"); if (n == 4) { int e = *it; sym_possible(e == 0, "the first element is drawn"); sym_possible(e == 3, "the last element is drawn"); } }
  if (MODE == 7) { for (size_t i = 0; i < 130; i++) { bool b = rng::randomBool(); size_t bits = 63; sym_assert(g_draws == i / bits + 1, "the generator is called for every 63 random bools"); sym_assert(b == bool(g_word[i / bits] >> (i % bits) & 1), "every random bool is another bit of the generator"); } }
  sym_reach("end");
}
