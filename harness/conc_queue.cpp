// PROPERTY: P42
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: one or two producers with up to 3 elements each and one or two consumers, a closing thread at any point, every interleaving within the preemption bound
// ASSUME: sequentially consistent memory, no spurious wakeups of condition variables (the wait is checked to be in a loop by the wakeups of other consumers)
// REACH: end
// CONFIG: quick p1_c1 -DPRODUCERS=1 -DCONSUMERS=1 -DITEMS=3 -DCLOSER=0 hwc=1 preempt=4
// CONFIG: quick p1_c1_close -DPRODUCERS=1 -DCONSUMERS=1 -DITEMS=2 -DCLOSER=1 hwc=1 preempt=3
// CONFIG: quick p1_c2 -DPRODUCERS=1 -DCONSUMERS=2 -DITEMS=2 -DCLOSER=0 hwc=1 preempt=3
// CONFIG: quick p2_c1 -DPRODUCERS=2 -DCONSUMERS=1 -DITEMS=2 -DCLOSER=0 hwc=1 preempt=3
// CONFIG: quick p2_c2 -DPRODUCERS=2 -DCONSUMERS=2 -DITEMS=1 -DCLOSER=0 hwc=1 preempt=2
// CONFIG: thorough p1_c2_deep -DPRODUCERS=1 -DCONSUMERS=2 -DITEMS=2 -DCLOSER=1 hwc=1 preempt=4 heavy=1
// CONFIG: thorough p2_c2_close -DPRODUCERS=2 -DCONSUMERS=2 -DITEMS=1 -DCLOSER=1 hwc=1 preempt=2 heavy=1
// CONFIG: quick exact -DPRODUCERS=1 -DCONSUMERS=2 -DITEMS=2 -DCLOSER=0 -DEXACT=1 hwc=1 preempt=2
#include "common.hpp"
#include "utility/concurrent_queue.hpp"
#include <thread>
#include <vector>
#include <memory>
#include <atomic>
using namespace gapp; using namespace vh;
static std::atomic<int> live{0};
struct Owned { int v; Owned(int x) : v(x) { live.fetch_add(1, std::memory_order_relaxed); } ~Owned() { live.fetch_sub(1, std::memory_order_relaxed); } };
struct Item { int producer = 0, value = 0; std::unique_ptr<Owned> owned; Item(int p, int v) : producer(p), value(v), owned(new Owned(v)) {} Item(Item&&) = default; };
extern "C" void harness() {
#ifdef EXACT // the consumers take as many elements as there are: none of them may sleep while an element is waiting
  { detail::concurrent_queue<Item> q; std::thread a([&] { auto x = q.take(); sym_assert(x.has_value(), "an open queue delivers an element"); }), b([&] { auto x = q.take(); sym_assert(x.has_value(), "an open queue delivers an element"); }); sym_assert(q.emplace(0, 0) && q.emplace(0, 1), "an open queue accepts every element"); a.join(); b.join(); sym_assert(q.empty(), "the queue is empty when every element was taken"); }
  sym_assert(live.load() == 0, "every element is destroyed once"); sym_reach("end"); return;
#endif
  {
    detail::concurrent_queue<Item> q; std::vector<Item> taken[CONSUMERS]; bool ended[CONSUMERS] = {}; int accepted[PRODUCERS] = {}, refused[PRODUCERS] = {};
    for (auto& t : taken) t.reserve(PRODUCERS * ITEMS);
    auto produce = [&](int p) { for (int i = 0; i < ITEMS; i++) { if (q.emplace(p, i)) { accepted[p]++; sym_assert(refused[p] == 0, "a closed queue accepts no further element"); } else refused[p]++; } };
    auto consume = [&](int c) { while (true) { auto x = q.take(); if (!x) { ended[c] = true; return; } sym_assert(x->owned && x->owned->v == x->value, "an element is moved out of the queue unchanged"); taken[c].push_back(std::move(*x)); } };
    {
      std::vector<std::thread> cs, ps; sym_assert(q.empty() && !q.closed(), "a new queue is empty and open");
      for (int c = 0; c < CONSUMERS; c++) cs.emplace_back([&, c] { consume(c); });
      for (int p = 1; p < PRODUCERS; p++) ps.emplace_back([&, p] { produce(p); });
      if (CLOSER) ps.emplace_back([&] { q.close(); });
      produce(0); for (auto& t : ps) t.join();
      if (!CLOSER) { for (int p = 0; p < PRODUCERS; p++) sym_assert(accepted[p] == ITEMS, "an open queue accepts every element"); q.close(); }
      sym_assert(q.closed(), "a closed queue is closed"); sym_assert(!q.emplace(9, 9), "a closed queue accepts no further element");
      for (auto& t : cs) t.join(); // the consumers end: none of them sleeps on a closed queue
    }
    int count[PRODUCERS][ITEMS] = {};
    for (int c = 0; c < CONSUMERS; c++) { sym_assert(ended[c], "the consumers end when the queue is closed and empty"); int last[PRODUCERS]; for (int& l : last) l = -1; for (auto& x : taken[c]) { count[x.producer][x.value]++; sym_assert(x.value > last[x.producer], "a consumer gets the elements of a producer in the order they were added"); last[x.producer] = x.value; } }
    for (int p = 0; p < PRODUCERS; p++) for (int i = 0; i < ITEMS; i++) sym_assert(count[p][i] == (i < accepted[p]), "every accepted element is taken exactly once, and no other");
    sym_assert(q.empty(), "the closed queue is drained"); auto none = q.take(); sym_assert(!none.has_value(), "taking from a closed empty queue returns nothing");
  }
  sym_assert(live.load() == 0, "every element is destroyed once");
  sym_reach("end");
}
