// PROPERTY: P44
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: one writer with one or two updates, one or two readers with one or two read sections, a reader thread that ends, two writers; every interleaving within the preemption bound
// ASSUME: sequentially consistent memory; a thread does not nest its read sections; updates are made outside of read sections
// REACH: end
// CONFIG: quick r1_w2 -DREADERS=1 -DREADS=1 -DWRITERS=1 -DUPDATES=2 hwc=1 preempt=2
// CONFIG: quick r1_w1_twice -DREADERS=1 -DREADS=2 -DWRITERS=1 -DUPDATES=1 hwc=1 preempt=3
// CONFIG: quick r2_w1 -DREADERS=2 -DREADS=1 -DWRITERS=1 -DUPDATES=1 hwc=1 preempt=2
// CONFIG: quick w2 -DREADERS=1 -DREADS=1 -DWRITERS=2 -DUPDATES=1 hwc=1 preempt=2
// CONFIG: thorough r1_w2_deep -DREADERS=1 -DREADS=2 -DWRITERS=1 -DUPDATES=2 hwc=1 preempt=4 heavy=1
// CONFIG: thorough r2_w1_deep -DREADERS=2 -DREADS=1 -DWRITERS=1 -DUPDATES=1 hwc=1 preempt=3 heavy=1
// CONFIG: thorough w2_deep -DREADERS=1 -DREADS=1 -DWRITERS=2 -DUPDATES=1 hwc=1 preempt=3 heavy=1
#include "common.hpp"
#include "utility/rcu.hpp"
#include <limits>
#include <thread>
#include <vector>
#include <shared_mutex>
using namespace gapp; using namespace vh;
static std::atomic<int> live{0};
struct Value { int a, b; Value(int x) : a(x), b(-x) { live.fetch_add(1, std::memory_order_relaxed); } Value(const Value&) = delete; ~Value() { a = b = 77; live.fetch_sub(1, std::memory_order_relaxed); } };
extern "C" void harness() {
  {
    detail::rcu_obj<Value> obj(1); int seen[READERS][READS];
    {
      std::vector<std::thread> ts;
      for (int r = 0; r < READERS; r++) ts.emplace_back([&, r] { for (int& s : seen[r]) { std::shared_lock l(obj); const Value& v = *obj; int a = v.a; sym_assert(v.b == -a, "a reader sees a complete object"); s = a; sym_assert(v.a == a, "the object of a reader does not change while it reads"); } });
      for (int w = 1; w < WRITERS; w++) ts.emplace_back([&, w] { obj = 100 * w + 2; });
      for (int u = 0; u < UPDATES; u++) { obj = u + 2; if (WRITERS == 1) sym_assert(obj->a == u + 2, "the writer sees its update"); }
      for (auto& t : ts) t.join();
    }
    for (int r = 0; r < READERS; r++) { int last = 0; for (int s : seen[r]) { if (WRITERS == 1) { sym_assert(s >= 1 && s <= UPDATES + 1, "a reader sees a value that was stored"); sym_assert(s >= last, "a reader does not go back to an older value"); last = s; } } }
    sym_assert(live.load() == 1, "every replaced object is destroyed, and the current one is not");
    obj = 50; sym_assert(obj.get().a == 50 && live.load() == 1, "an update does not wait for threads that have ended");
  }
  sym_assert(live.load() == 0, "the last object is destroyed with its owner");
  sym_reach("end");
}
