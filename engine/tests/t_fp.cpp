// EXPECT: reach=end viol=assoc
#include "sym.h"
#include <cmath>
#include <algorithm>
#include <limits>
extern "C" void harness() {
  double a = sym_double_in("a", -100, 100), b = sym_double_in("b", -100, 100), c = sym_grid("c", -4, 4), d = sym_grid("d",-4,4);
  sym_assert(a + b == b + a, "comm");
  sym_assert(std::max(a,b) >= a, "max");
  sym_assert((c + d) + 1.0 == c + (d + 1.0), "gridassoc");
  sym_assert(std::floor(a) <= a, "floor");
  sym_assert(std::abs(a) >= 0, "abs");
  sym_assert((a + b) - b == a, "assoc");
  double n = sym_double("n"); sym_assert(!(n < n), "irrefl"); 
  sym_reach("end");
}
