// Replacements for the random number helpers: every value inside the documented range of the helper is possible.
#include "sym.h"
#include <limits>
// narrow symbolic values make narrow formulas
static inline bool small(int64_t lo, int64_t hi, int64_t& l, int64_t& h) { l = sym_min(lo); h = sym_max(hi); return l <= h && h - l < (1ll << 32) && l > -(1ll << 60) && h < (1ll << 60); }
extern "C" {
  static const double ONE_M = 0x1.fffffffffffffp-1; // largest value below 1.0 produced by randomReal
  double stub_randomReal() { return sym_double_in("randomReal", 0.0, ONE_M); }
  double stub_randomReal2(double lo, double hi) { if (lo == hi) return lo; double d = sym_double_in("randomRealIn", -std::numeric_limits<double>::max(), std::numeric_limits<double>::max()); sym_assert(lo <= hi, "randomReal-precondition"); sym_assume(lo <= d && d <= hi); return d; }
  double stub_randomNormal(double, double) { return sym_double_in("randomNormal", -1e6, 1e6); }
  bool stub_randomBool() { return sym_bits("randomBool", 1); }
  uint64_t stub_prng(const void*) { return sym_bits("prng", 64); }
#define RI(N, T) T stub_randomInt_##N(T lo, T hi) { sym_assert(lo <= hi, "randomInt-precondition"); int64_t l, h; if (small((int64_t)lo, (int64_t)hi, l, h)) { T x = (T)sym_range("randomInt", l, h); sym_assume(lo <= x && x <= hi); return x; } T x = (T)sym_bits("randomInt", sizeof(T) * 8); sym_assume(lo <= x && x <= hi); return x; }
  RI(i8, signed char) RI(u8, unsigned char) RI(i16, short) RI(u16, unsigned short) RI(i32, int) RI(u32, unsigned) RI(i64, long) RI(u64, unsigned long)
#define RP(N, T) T stub_randomPoisson_##N(double) { T x = (T)sym_bits("randomPoisson", sizeof(T) * 8); sym_assume(x >= 0); return x; }
  RP(i32, int) RP(i64, long) RP(u64, unsigned long)
#define RB(N, T) T stub_randomBinomial_##N(T n, double p) { sym_assert(sym_and(0.0 <= p, p <= 1.0), "randomBinomial-precondition"); T x = (T)sym_bits("randomBinomial", sizeof(T) * 8); sym_assume(x >= 0 && x <= n); sym_assume(sym_or(p > 0.0, x == 0)); sym_assume(sym_or(p < 1.0, x == n)); return x; }
  RB(i32, int) RB(i64, long) RB(u64, unsigned long)
  uint64_t stub_uid_u64(const void*, const void*, const uint64_t* p) { int64_t l, h; if (small(p[0], p[1], l, h)) { uint64_t x = sym_range("uniformInt", l, h); sym_assume(sym_and(p[0] <= x, x <= p[1])); return x; } uint64_t x = sym_bits("uniformInt", 64); sym_assume(sym_and(p[0] <= x, x <= p[1])); return x; } // std::shuffle
}
