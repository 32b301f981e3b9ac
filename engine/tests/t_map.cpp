// EXPECT: reach=end viol=size3
#include "sym.h"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <functional>
#include <algorithm>
#include <vector>
extern "C" void harness() {
  std::unordered_set<size_t> s; size_t v[3]; for (auto& x : v) { x = sym_range("v", 0, 3); s.insert(x); }
  std::sort(v, v+3); sym_assert(std::is_sorted(v, v+3), "sorted");
  size_t u = std::unique(v, v+3) - v; sym_assert(u == s.size(), "uniq"); sym_assert(s.size() != 3, "size3");
  std::deque<int> d; for (int i=0;i<200;i++) d.push_back(i); d.pop_front(); sym_assert(d.front()==1 && d.back()==199, "dq");
  std::function<int(int)> f = [&](int x){ return x + (int)v[0]; }; sym_assert(f(1) == 1 + (int)v[0], "fn");
  sym_reach("end");
}
