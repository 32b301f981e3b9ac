// EXPECT: reach=end viol=non-termination,uncaught-exception,division-by-zero
#include "sym.h"
#include <vector>
extern "C" void harness() {
  unsigned x = sym_bits("x", 8); volatile unsigned y = 0;
  if (x == 77) while (y != 1) { y = 0; }
  if (x == 78) std::vector<int>().at(3);
  unsigned q = 100 / (x - 79); sym_print("q", q);
  sym_reach("end");
}
