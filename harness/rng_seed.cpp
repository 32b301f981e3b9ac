// PROPERTY: P22
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: every 64 bit seed for the generator, the random bools and reals, three seeds for the other helpers; every number of draws of every kind between 0 and 2 before the seeds are set; one or two threads with every interleaving within the preemption bound
// ASSUME: sequentially consistent memory; no generator is used while the seed is set (documented); the threads stay alive between the two seedings
// STUB: gapp::rng::ConcurrentXoroshiro128p::operator\(\)\(\) const => -
// STUB: double gapp::rng::randomReal<double>\(\) => -
// STUB: gapp::rng::randomBool\(\) => -
// STUB: double gapp::rng::randomNormal<double>\(double, double\) => -
// STUB: int gapp::rng::randomInt<int>\(.*\) => -
// STUB: int gapp::rng::randomPoisson<int>\(double\) => -
// STUB: int gapp::rng::randomBinomial<int>\(int, double\) => -
// STUB: unsigned long std::uniform_int_distribution<unsigned long>::operator\(\)<gapp::rng::ConcurrentXoroshiro128p.*param_type const&\) => -
// REACH: end
// CONFIG: quick any_seed -DMODE=0
// CONFIG: quick helpers -DMODE=1
// CONFIG: quick threads -DMODE=2 hwc=2 preempt=1
// CONFIG: quick ended_thread -DMODE=3 hwc=2 preempt=2
// CONFIG: thorough threads_2 -DMODE=2 hwc=2 preempt=2 heavy=1
#include "common.hpp"
#include "utility/rng.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
using namespace gapp; using namespace vh;
static const uint64_t SEEDS[3] = { 0, 1, 0x9e3779b97f4a7c15ull };
static void history() { size_t b = sym_choice("bools", 3); while (b--) (void)rng::randomBool(); size_t p = sym_choice("draws", 2); while (p--) (void)rng::prng(); if (MODE == 1) { size_t n = sym_choice("normals", 3); while (n--) (void)rng::randomNormal(); if (sym_choice("poisson", 2)) (void)rng::randomPoisson<int>(3.0); } }
template<typename... A> static bool same(const std::vector<double>& a, const std::vector<double>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static std::vector<double> helpers() { std::vector<double> v; v.push_back(rng::randomNormal()); v.push_back(rng::randomBool()); v.push_back(rng::randomPoisson<int>(3.0)); v.push_back(rng::randomInt(1, 100)); v.push_back(rng::randomReal()); v.push_back(rng::randomBinomial(4, 0.5)); v.push_back(rng::randomNormal(1.0, 2.0)); v.push_back(rng::randomBinomial(30, 0.5)); v.push_back(rng::randomBinomial(100, 0.01)); return v; }
struct Draws { uint64_t w[2]; bool b[2]; double r; };
static Draws draws() { Draws d; d.w[0] = rng::prng(); d.b[0] = rng::randomBool(); d.r = MODE == 0 ? 0.0 : rng::randomReal(); d.b[1] = rng::randomBool(); d.w[1] = rng::prng(); return d; }
static void equal(const Draws& a, const Draws& b) { sym_assert(a.w[0] == b.w[0], "the generator repeats its sequence for the same seed"); sym_assert(a.w[1] == b.w[1], "the generator repeats its sequence for the same seed"); sym_assert(And(a.b[0] == b.b[0], a.b[1] == b.b[1]), "the random bools repeat for the same seed"); sym_assert(a.r == b.r, "the random reals repeat for the same seed"); }
extern "C" void harness() {
  if (MODE == 0) { uint64_t s = sym_bits("seed", 64); history(); rng::prng.seed(s); Draws a = draws(); history(); rng::prng.seed(s); equal(a, draws()); }
  if (MODE == 1) { uint64_t s = SEEDS[sym_choice("seed", 3)]; history(); rng::prng.seed(s); auto a = helpers(); history(); rng::prng.seed(s); sym_assert(same(a, helpers()), "the random helpers repeat for the same seed"); rng::prng.seed(s + 1); sym_assert(!same(a, helpers()), "another seed gives another sequence"); }
  if (MODE == 2) {
    uint64_t s = SEEDS[sym_choice("seed", 3)]; std::mutex m; std::condition_variable cv; int round = 0, done = 0; Draws mine[2], theirs[2];
    std::thread t([&] { for (int i = 1; i <= 3; i++) { { std::unique_lock l(m); cv.wait(l, [&] { return round >= i; }); } if (i == 1) (void)rng::randomBool(); else theirs[i - 2] = draws(); { std::unique_lock l(m); done = i; } cv.notify_all(); } });
    auto go = [&](int i, bool mainDraws) { { std::unique_lock l(m); round = i; } cv.notify_all(); if (mainDraws) mine[i - 2] = draws(); std::unique_lock l(m); cv.wait(l, [&] { return done >= i; }); };
    (void)rng::prng(); go(1, false); rng::prng.seed(s); go(2, true); rng::prng.seed(s); go(3, true); t.join();
    equal(mine[0], mine[1]); equal(theirs[0], theirs[1]); sym_assert(mine[0].w[0] != theirs[0].w[0] || mine[0].w[1] != theirs[0].w[1], "every thread has a sequence of its own");
  }
  if (MODE == 3) { // a thread which used the generator and ended plays no part in a later seeding
    uint64_t s = SEEDS[sym_choice("seed", 3)]; rng::prng.seed(s); Draws a = draws();
    { std::thread t([] { (void)rng::prng(); }); if (sym_choice("draw meanwhile", 2)) (void)rng::prng(); t.join(); }
    rng::prng.seed(s); equal(a, draws());
  }
  sym_reach("end");
}
