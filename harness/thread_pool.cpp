// PROPERTY: P41
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: loops of 0..5 iterations in blocks of 1..3, pools of 1..3 threads, two loops in a row, a nested loop, a resize between loops, any subset of the iterations throwing; every interleaving within the preemption bound
// ASSUME: sequentially consistent memory, no spurious wakeups of condition variables; the number of threads is not changed during a loop (documented)
// REACH: end
// CONFIG: quick one_thread -DMODE=0 -DMAXN=5 hwc=1
// CONFIG: quick loop_2 -DMODE=0 -DMAXN=3 hwc=2 preempt=2
// CONFIG: quick loop_3 -DMODE=0 -DMAXN=4 -DFIXED=1 hwc=3 preempt=1
// CONFIG: quick throwing_2 -DMODE=1 -DMAXN=2 hwc=2 preempt=2
// CONFIG: quick throwing_3 -DMODE=1 -DMAXN=3 hwc=3 preempt=1
// CONFIG: quick nested -DMODE=2 -DMAXN=2 hwc=3 preempt=1
// CONFIG: quick resize -DMODE=3 -DMAXN=3 hwc=2 preempt=1
// CONFIG: quick loop_4 -DMODE=0 -DMAXN=5 -DFIXED=1 hwc=4 preempt=0
// CONFIG: quick loop_5 -DMODE=0 -DMAXN=5 -DFIXED=1 -DBRIEF=1 hwc=5 preempt=0
// CONFIG: quick nested_4 -DMODE=2 -DMAXN=3 hwc=4 preempt=0
// CONFIG: thorough loop_2_deep -DMODE=0 -DMAXN=4 hwc=2 preempt=4 heavy=1
// CONFIG: thorough loop_3_deep -DMODE=0 -DMAXN=4 -DFIXED=1 hwc=3 preempt=2 heavy=1
// CONFIG: thorough throwing_3_deep -DMODE=1 -DMAXN=3 hwc=3 preempt=2 heavy=1
// CONFIG: thorough nested_deep -DMODE=2 -DMAXN=2 hwc=3 preempt=2 heavy=1
// CONFIG: thorough resize_deep -DMODE=3 -DMAXN=3 hwc=2 preempt=2 heavy=1
#include "common.hpp"
#include "utility/thread_pool.hpp"
#include "utility/iterators.hpp"
#include <vector>
#include <atomic>
using namespace gapp; using namespace vh;
struct Fail { int i; };
extern "C" void harness() {
  if constexpr (MODE == 0) {
    size_t n = sym_choice("n", MAXN + 1); 
#ifdef FIXED
    n = MAXN;
#endif
    
#ifdef BRIEF
    size_t block = 1;
#else
    size_t block = 1 + sym_choice("block", 3);
#endif
    std::vector<int> hits(n, 0), in(n); for (size_t i = 0; i < n; i++) in[i] = int(i) * 7; std::vector<int> out(n, -1);
    detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(n), block, [&](size_t i) { hits[i]++; out[i] = in[i]; });
    for (size_t i = 0; i < n; i++) sym_assert(hits[i] == 1 && out[i] == int(i) * 7, "every iteration runs exactly once and its effect is visible afterwards");
#ifndef BRIEF
    detail::parallel_for(in.begin(), in.end(), [&](int& x) { x = x + 1; });
    for (size_t i = 0; i < n; i++) sym_assert(in[i] == int(i) * 7 + 1, "the elements of a range are visited exactly once");
#endif
  }
  if constexpr (MODE == 1) {
    size_t mask = sym_choice("throwing", size_t(1) << MAXN); std::vector<int> hits(MAXN, 0); bool thrown = false; int who = -1; static std::vector<int>* alive = nullptr;
    alive = &hits;
    try { std::vector<int> local(MAXN, 0); detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(MAXN)), [&](size_t i) { local[i]++; (*alive)[i]++; if ((mask >> i) & 1) throw Fail{ int(i) }; }); }
    catch (const Fail& f) { thrown = true; who = f.i; }
    sym_assert(thrown == (mask != 0), "an exception of an iteration reaches the caller, and only then is one thrown");
    if (thrown) sym_assert((mask >> who) & 1, "the exception is the one of an iteration that threw");
    for (size_t i = 0; i < MAXN; i++) sym_assert(mask ? hits[i] <= 1 : hits[i] == 1, "no iteration runs twice");
    if (thrown) sym_assert(hits[who] == 1, "the iteration that threw has run");
    std::vector<int> after(MAXN, 0); detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(MAXN)), [&](size_t i) { after[i]++; });
    for (int h : after) sym_assert(h == 1, "the pool works after an exception"); for (size_t i = 0; i < MAXN; i++) sym_assert(hits[i] <= 1, "no iteration of the failed loop runs later");
  }
  if constexpr (MODE == 2) {
    int hits[MAXN][2] = {}; int sums[MAXN] = {};
    detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(MAXN)), [&](size_t i) { detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(2_sz), [&](size_t j) { hits[i][j]++; }); sums[i] = hits[i][0] + hits[i][1]; });
    for (size_t i = 0; i < MAXN; i++) sym_assert(hits[i][0] == 1 && hits[i][1] == 1 && sums[i] == 2, "a nested loop has finished when it returns");
  }
  if constexpr (MODE == 3) {
    size_t c[2] = { sym_choice("threads", 4), 1 + sym_choice("threads", 2) };
    for (size_t count : c) {
      execution_threads(count); sym_assert(execution_threads() == (count ? count : 1), "the number of threads is what was set, and at least one");
      std::vector<int> hits(MAXN, 0); detail::parallel_for(detail::iota_iterator(0_sz), detail::iota_iterator(size_t(MAXN)), [&](size_t i) { hits[i]++; });
      for (int h : hits) sym_assert(h == 1, "every iteration runs exactly once whatever the number of threads");
    }
  }
  sym_reach("end");
}
