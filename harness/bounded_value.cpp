// PROPERTY: P49
// SOURCES:
// BOUNDS: every 64 bit double (including NaN and infinities), every float, every 32 bit integer, intervals with every combination of open and closed ends and arbitrary ends
// REACH: end
// CONFIG: quick interval
// CONFIG: quick int_interval -DELEM=int
// CONFIG: quick aliases -DALIASES=1
#ifndef ELEM
#define ELEM double
#endif
#include "common.hpp"
#include "utility/bounded_value.hpp"
#include <cstring>
#include <limits>
using namespace gapp; using namespace vh;
template<typename V> static V any(const char* n) { if constexpr (sizeof(V) == 8 && !std::is_integral_v<V>) return sym_double(n); else if constexpr (std::is_same_v<V, float>) { uint32_t b = (uint32_t)sym_bits(n, 32); float f; std::memcpy(&f, &b, 4); return f; } else return (V)sym_bits(n, 8 * sizeof(V)); }
// a value is accepted by the bounded type exactly if it is in the interval, and it is kept as it is
template<typename B> static void check(bool in, typename B::value_type v) {
  using V = typename B::value_type; constexpr detail::Interval<V> i{ B::lower_bound, B::upper_bound, B::left_inclusive, B::right_inclusive };
  sym_assert(i.contains(v) == in, "a bounded type accepts the values of its interval and no others");
  if (!in) return; B b = v; V w = b; sym_assert(w == v, "a bounded value keeps its value"); B c = b; c = v; sym_assert(V(c) == v, "a bounded value keeps its value when it is copied");
}
extern "C" void harness() {
#ifndef ALIASES
  using T = ELEM; T lo = any<T>("lo"), hi = any<T>("hi"), v = any<T>("v"); bool li = sym_choice("lo closed", 2), ri = sym_choice("hi closed", 2);
  detail::Interval<T> i(lo, hi, li, ri); bool in = And(li ? lo <= v : lo < v, ri ? v <= hi : v < hi);
  sym_assert(i.contains(v) == in, "an interval contains the values between its ends, and an end itself if it is closed there");
  if (v != v) sym_assert(!i.contains(v), "no interval contains a value that is not a number");
#else
  double d = any<double>("d"); float f = any<float>("f"); int n = any<int>("n"); size_t u = any<size_t>("u"); const double m = std::numeric_limits<double>::max();
  switch (sym_choice("type", 9)) {
  case 0: check<Probability>(And(d >= 0, d <= 1), d); break;
  case 1: check<NonNegative<double>>(And(d >= 0, d <= m), d); break;
  case 2: check<Positive<double>>(And(d > 0, d <= m), d); break;
  case 3: check<Negative<double>>(And(d < 0, d >= -m), d); break;
  case 4: check<Normalized<double>>(And(d >= 0, d <= 1), d); break;
  case 5: check<Positive<size_t>>(u != 0, u); break;
  case 6: check<NonNegative<int>>(n >= 0, n); break;
  case 7: check<BoundedValue<int, -3, 5>>(And(n >= -3, n <= 5), n); break;
  case 8: check<NonNegative<float>>(And(f >= 0, f <= std::numeric_limits<float>::max()), f); break;
  }
  sym_assert(double(0.25_p) == 0.25 && double(1.0_p) == 1.0, "a probability literal has its value");
#endif
  sym_reach("end");
}
