// PROPERTY: P02
// SOURCES: core/population.cpp utility/math.cpp utility/rng.cpp
// BOUNDS: two Pareto sets of up to 3+2 (quick) / 3+3 (thorough) candidates, 2..3 objectives, integer grid fitness of 4 levels; sequential run and every interleaving of two workers (preemption bound 2) on 2+2 candidates
// ASSUME: both arguments are Pareto sets; fitness on an integer grid
// REACH: end
// CONFIG: quick seq_3_2 -DNL=3 -DNR=2 -DCOLS=2
// CONFIG: quick seq_2_3 -DNL=2 -DNR=3 -DCOLS=2
// CONFIG: quick seq_2_2_3obj -DNL=2 -DNR=2 -DCOLS=3
// CONFIG: quick empty_0_2 -DNL=0 -DNR=2 -DCOLS=2
// CONFIG: quick empty_2_0 -DNL=2 -DNR=0 -DCOLS=2
// CONFIG: quick par_2_1 -DNL=2 -DNR=1 -DCOLS=2 hwc=3 preempt=2
// CONFIG: thorough seq_3_3 -DNL=3 -DNR=3 -DCOLS=2 heavy=1
// CONFIG: thorough par_2_2 -DNL=2 -DNR=2 -DCOLS=2 hwc=3 preempt=1 heavy=1 time=3000
#include "common.hpp"
using namespace gapp; using namespace vh;
extern "C" void harness() {
  constexpr size_t N = NL + NR; double f[N + 1][COLS];
  for (size_t i = 0; i < N; i++) for (size_t k = 0; k < COLS; k++) f[i][k] = sym_grid("f", 0, 3);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) if (i != j && (i < NL) == (j < NL)) sym_assume(!dominates(f[j], f[i], COLS));
  auto make = [&](size_t i) { Candidate<int> c{ int(i) }; c.fitness = FitnessVector(f[i], f[i] + COLS); c.is_evaluated = true; return c; };
  Candidates<int> lhs, rhs; for (size_t i = 0; i < N; i++) (i < NL ? lhs : rhs).push_back(make(i));
  Candidates<int> out = detail::mergeParetoSets(lhs, rhs);
  int count[N + 1] = {};
  for (auto& c : out) { size_t id = size_t(c.chromosome[0]); sym_assert(id < N, "merged candidates come from the inputs"); count[id]++; bool same = c.fitness.size() == COLS; for (size_t k = 0; k < COLS; k++) same = And(same, c.fitness[k] == f[id][k]); sym_assert(same, "merged candidates keep their fitness"); }
  for (size_t i = 0; i < N; i++) { bool d = false; for (size_t j = 0; j < N; j++) if (j != i) d = Or(d, dominates(f[j], f[i], COLS)); sym_assert(count[i] <= 1, "no candidate is duplicated"); sym_assert((count[i] == 1) == !d, "merge is the Pareto front of the union"); }
  sym_reach("end");
}
