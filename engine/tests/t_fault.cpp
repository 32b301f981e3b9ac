// EXPECT: reach=end,threw viol=leak
#include "sym.h"
#include <vector>
#include <new>
extern "C" void harness() {
  uint64_t live = sym_heap_live(); 
  try { sym_alloc_faults(true); std::vector<int> v(3); int* p = new int(4); sym_print("p", (uint64_t)p); std::vector<int> w(2); sym_print("w",(uint64_t)w.data()); sym_print("v",(uint64_t)v.data()); delete p; sym_alloc_faults(false); } catch (std::bad_alloc&) { sym_alloc_faults(false); sym_reach("threw"); }
  sym_assert(sym_heap_live() == live, "leak"); sym_reach("end");
}
