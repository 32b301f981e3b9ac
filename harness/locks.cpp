// PROPERTY: P43
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: two threads with one or two critical sections each (three threads in thorough), every kind of section (exclusive, shared, tried exclusive, tried shared), every interleaving within the preemption bound; the latch with up to 2 counting threads
// ASSUME: sequentially consistent memory for the values, happens-before for the data races; every lock is released by the thread that took it
// REACH: end
// CONFIG: quick spin -DMODE=0 -DOTHERS=1 -DROUNDS=2 hwc=1 preempt=3
// CONFIG: quick shared -DMODE=1 -DOTHERS=1 -DROUNDS=2 hwc=1 preempt=2
// CONFIG: quick shared_3 -DMODE=1 -DOTHERS=2 -DROUNDS=1 hwc=1 preempt=2
// CONFIG: quick latch -DMODE=2 -DOTHERS=2 -DROUNDS=1 hwc=1 preempt=2
// CONFIG: thorough spin_3 -DMODE=0 -DOTHERS=2 -DROUNDS=1 hwc=1 preempt=3 heavy=1
// CONFIG: thorough shared_3_deep -DMODE=1 -DOTHERS=2 -DROUNDS=1 hwc=1 preempt=3 heavy=1
// CONFIG: thorough shared_deep -DMODE=1 -DOTHERS=1 -DROUNDS=2 hwc=1 preempt=4 heavy=1
#include "common.hpp"
#include "utility/spinlock.hpp"
#include "utility/shared_spinlock.hpp"
#include "utility/latch.hpp"
#include <thread>
#include <atomic>
#include <vector>
using namespace gapp; using namespace vh;
static int data = 0; static std::atomic<int> writers{0}, readers{0}, tries{0}; // the counters only observe: relaxed, they order nothing
static constexpr auto R = std::memory_order_relaxed;
static void inWriter() { sym_assert(writers.fetch_add(1, R) == 0 && readers.load(R) == 0, "an exclusive section excludes all others"); data = data + 1; writers.fetch_sub(1, R); }
static void inReader(int before) { readers.fetch_add(1, R); sym_assert(writers.load(R) == 0, "a shared section excludes the exclusive ones"); int a = data; sym_assert(a >= before, "a reader sees every earlier write"); readers.fetch_sub(1, R); }
template<typename L> static int section(L& l, int kind) {
  if (kind == 0) { l.lock(); inWriter(); l.unlock(); return 1; }
  if (kind == 1) { if (l.try_lock()) { inWriter(); l.unlock(); return 1; } return 0; }
  if constexpr (requires { l.lock_shared(); }) {
    if (kind == 2) { l.lock_shared(); inReader(0); l.unlock_shared(); return 0; }
    if (kind == 3) { if (l.try_lock_shared()) { inReader(0); l.unlock_shared(); } return 0; }
  }
  return 0;
}
template<typename L> static void run(int kinds) {
  static L lock; int kind[OTHERS + 1][ROUNDS]; int done[OTHERS + 1] = {};
  for (auto& k : kind) for (int& x : k) x = (int)sym_choice("section", kinds);
  std::vector<std::thread> ts;
  for (int t = 0; t < OTHERS; t++) ts.emplace_back([&, t] { for (int k : kind[t + 1]) done[t + 1] += section(lock, k); });
  for (int k : kind[0]) done[0] += section(lock, k);
  for (auto& t : ts) t.join();
  int sum = 0; for (int d : done) sum += d;
  sym_assert(data == sum, "no write of an exclusive section is lost");
  sym_assert(lock.try_lock(), "a lock that is not held can be taken"); sym_assert(!lock.try_lock(), "a lock that is held cannot be taken again");
  if constexpr (requires { lock.lock_shared(); }) {
    sym_assert(!lock.try_lock_shared(), "a lock that is held exclusively cannot be shared"); lock.unlock();
    lock.lock_shared(); sym_assert(lock.try_lock_shared(), "a shared lock can be shared again"); sym_assert(!lock.try_lock(), "a shared lock cannot be taken exclusively"); lock.unlock_shared(); sym_assert(!lock.try_lock(), "a lock is shared until the last reader leaves"); lock.unlock_shared(); sym_assert(lock.try_lock(), "a lock that is not held can be taken"); 
  }
  lock.unlock();
}
static int slot[OTHERS + 1];
extern "C" void harness() {
  if constexpr (MODE == 0) run<detail::spinlock>(2);
  if constexpr (MODE == 1) run<detail::shared_spinlock>(4);
  if constexpr (MODE == 2) {
    bool split = sym_choice("count by two", 2) == 0; detail::latch l(split ? 2 * OTHERS : OTHERS); std::vector<std::thread> ts;
    sym_assert(!l.try_wait(), "the latch is closed until it has been counted down"); detail::latch zero(0); sym_assert(zero.try_wait(), "a latch of zero is open"); zero.wait();
    for (int t = 0; t < OTHERS; t++) ts.emplace_back([&, t] { slot[t] = t + 1; l.count_down(split ? 2 : 1); });
    bool seen = sym_choice("poll first", 2) && l.try_wait(); if (!seen) l.wait();
    for (int t = 0; t < OTHERS; t++) sym_assert(slot[t] == t + 1, "everything before the count down is visible after the wait");
    for (auto& t : ts) t.join();
    sym_assert(l.try_wait(), "an open latch stays open");
  }
  sym_reach("end");
}
