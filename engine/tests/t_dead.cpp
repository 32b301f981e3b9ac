// EXPECT: reach=end viol=deadlock hwc=2
#include "sym.h"
#include <thread>
#include <mutex>
extern "C" void harness() {
  std::mutex a, b; { std::jthread t([&]{ std::lock_guard g(a); std::lock_guard h(b); }); std::lock_guard g(b); std::lock_guard h(a); } sym_reach("end");
}
