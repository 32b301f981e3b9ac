// EXPECT: reach=caught,rethrown,end viol=sum
#include "sym.h"
#include <stdexcept>
#include <vector>
#include <string>
#include <memory>
struct D { int* p; D(int*q):p(q){} ~D(){ ++*p; } };
int f(int x, int* c) { D d(c); if (x == 3) throw std::invalid_argument("three"); if (x > 5) throw x; return x*2; }
extern "C" void harness() {
  int x = sym_range("x", 0, 10); int c = 0; int r = 0; uint64_t live = sym_heap_live();
  try { try { r = f(x, &c); } catch (const std::logic_error& e) { sym_assert(x == 3, "three"); sym_reach("rethrown"); throw; } catch (int v) { sym_assert(v == x, "val"); r = v; } }
  catch (std::exception& e) { sym_reach("caught"); r = -1; sym_assert(e.what()[0]=='t', "what"); }
  sym_assert(c == 1, "dtor"); 
  sym_assert(r != 8, "sum");
  { std::vector<int> v; for (int i = 0; i < x; i++) v.push_back(i); std::string s = "hello world this is a long string"; s += "x"; auto sp = std::make_shared<int>(3); auto sp2 = sp; sym_assert(*sp2==3 && sp.use_count()==2, "sp"); }
  sym_reach("end");
}
