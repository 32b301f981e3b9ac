// EXPECT: reach=end viol=lost,data-race hwc=2
#include "sym.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
extern "C" void harness() {
  unsigned k = sym_choice("k", 4);
  if (k == 0) { std::atomic<int> a{0}; { std::jthread t([&]{ int x = a.load(); a.store(x+1); }); int x = a.load(); a.store(x+1); } sym_assert(a.load() == 2, "lost"); }
  else if (k == 1) { int n = 0; std::mutex m; { std::jthread t([&]{ std::lock_guard g(m); n++; }); std::lock_guard g(m); n++; } sym_assert(n == 2, "mutex"); }
  else if (k == 2) { int n = 0; { std::jthread t([&]{ n++; }); n++; } }
  else { int n = 0; bool rdy = false; std::mutex m; std::condition_variable cv; { std::jthread t([&]{ { std::lock_guard g(m); rdy = true; n = 5; } cv.notify_one(); }); std::unique_lock l(m); cv.wait(l, [&]{ return rdy; }); sym_assert(n == 5, "cv"); } }
  sym_reach("end");
}
