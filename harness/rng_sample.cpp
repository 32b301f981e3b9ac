// PROPERTY: P20
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: ranges of 0..5 (7 in thorough) values of signed and unsigned 8, 32 and 64 bit types at both ends of the type and around 0, every count and every random draw; ranges of at least 65536 values with up to 3 (4 in thorough) samples and draws that collide with earlier ones; samples of most of a range that are larger than the inline storage of the result; two calls in a row
// ASSUME: the random integers are in their range (P19)
// STUB: signed char gapp::rng::randomInt<signed char>\(.*\) => h_i8
// STUB: int gapp::rng::randomInt<int>\(.*\) => h_i32
// STUB: long gapp::rng::randomInt<long>\(.*\) => h_i64
// STUB: unsigned long gapp::rng::randomInt<unsigned long>\(.*\) => h_u64
// REACH: end
// CONFIG: quick small -DMODE=0 -DMAXLEN=5
// CONFIG: quick huge -DMODE=1 -DMAXLEN=3
// CONFIG: quick subsets -DMODE=2 -DMAXLEN=4
// CONFIG: quick spill -DMODE=3 -DMAXLEN=0
// CONFIG: thorough small_7 -DMODE=0 -DMAXLEN=7 heavy=1
// CONFIG: thorough huge_4 -DMODE=1 -DMAXLEN=4
#include "common.hpp"
#include "utility/rng.hpp"
using namespace gapp; using namespace vh;
template<typename T> static T draw(T lo, T hi) {
  sym_assert(lo <= hi, "the random integers are drawn from a range that is not empty");
  uint64_t n = (uint64_t)hi - (uint64_t)lo; if (n < 16) return (T)(lo + (T)sym_choice("draw", n + 1));
  switch (sym_choice("draw", 4)) { case 0: return lo; case 1: return hi; case 2: return (T)(hi - 1); default: return (T)(lo + 1); } }
extern "C" signed char h_i8(signed char lo, signed char hi) { return draw<signed char>(lo, hi); }
extern "C" int h_i32(int lo, int hi) { return draw<int>(lo, hi); }
extern "C" int64_t h_i64(int64_t lo, int64_t hi) { return draw<int64_t>(lo, hi); }
extern "C" uint64_t h_u64(uint64_t lo, uint64_t hi) { return draw<uint64_t>(lo, hi); }
template<typename T> static void sample(T lo, T hi, size_t count) {
  auto v = rng::sampleUnique<T>(lo, hi, count); sym_assert(v.size() == count, "the requested number of values is sampled");
  for (size_t i = 0; i < count; i++) { sym_assert(v[i] >= lo && v[i] < hi, "the sampled values are in the range"); for (size_t j = 0; j < i; j++) sym_assert(v[i] != v[j], "the sampled values are different"); } }
template<typename T> static void small() {
  size_t len = sym_choice("length", MAXLEN + 1), count = sym_choice("count", len + 1); constexpr T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); T lo = 0;
  switch (sym_choice("at", 3)) { case 0: lo = mn; break; case 1: lo = (T)(mn < 0 ? -2 : 3); break; default: lo = (T)(mx - (T)len); } sample<T>(lo, (T)(lo + (T)len), count); }
template<typename T> static void huge() {
  constexpr T mn = std::numeric_limits<T>::min(), mx = std::numeric_limits<T>::max(); size_t count = sym_choice("count", MAXLEN + 1); T lo, hi;
  switch (sym_choice("range", 4)) { case 0: lo = mn; hi = mx; break; case 1: lo = 0; hi = 65536; break; case 2: lo = (T)(mx - 70000); hi = mx; break; default: lo = mn; hi = (T)(mn + 65537); } sample<T>(lo, hi, count); }
extern "C" void harness() {
  if (MODE == 0) { switch (sym_choice("type", 4)) { case 0: small<signed char>(); break; case 1: small<int>(); break; case 2: small<int64_t>(); break; default: small<uint64_t>(); sample<uint64_t>(1, 3, 1); } }
  if (MODE == 1) { switch (sym_choice("type", 3)) { case 0: huge<int>(); break; case 1: huge<int64_t>(); break; default: huge<uint64_t>(); } }
  if (MODE == 3) { size_t cap = small_vector<uint64_t>().capacity(), count = cap + 1, len = count + sym_choice("rest", 3); sample<uint64_t>(5, 5 + len, count); if (len < 12) { cap = small_vector<int>().capacity(); count = cap; sample<int>(-3, (int)count - 1, count); } }
  if (MODE == 2) { size_t count = 2 + sym_choice("count", 2); auto v = rng::sampleUnique<uint64_t>(1, 5, count); bool in[5] = {}; for (auto x : v) in[x] = true;
    static const char* N[16] = {"", "", "", "subset 1 2", "", "subset 1 3", "subset 2 3", "subset 1 2 3", "", "subset 1 4", "subset 2 4", "subset 1 2 4", "subset 3 4", "subset 1 3 4", "subset 2 3 4", ""}; size_t m = 0; for (size_t i = 0; i < 4; i++) m |= size_t(in[i + 1]) << i; for (size_t k = 3; k < 15; k++) if (*N[k]) sym_possible(m == k, N[k]); }
  sym_reach("end");
}
