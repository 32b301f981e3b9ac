// EXPECT: reach=end viol=memory:out-of-bounds,memory:use-after-free-or-wild,memory:double-free
#include "sym.h"
#include <vector>
extern "C" void harness() {
  unsigned i = sym_range("i", 0, 5), k = sym_choice("k", 3);
  int* p = new int[5]{1,2,3,4,5};
  if (k == 0) { p[i] = 7; int s = 0; for (int j = 0; j < 5; j++) s += p[j] == 7; sym_assert(s == 1, "one7"); delete[] p; }
  else if (k == 1) { delete[] p; if (i == 4) delete[] p; }
  else { std::vector<int> v(p, p+5); int* q = &v[0]; v.push_back(3); if (i == 2) *(volatile int*)q = 4; delete[] p; }
  sym_reach("end");
}
