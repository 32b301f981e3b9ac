// PROPERTY: P01
// SOURCES: core/population.cpp utility/math.cpp
// BOUNDS: up to 4 (quick) / 5 (thorough) points with 1..3 objectives, integer-valued fitness on a grid of 4 (1-D: 7) levels, duplicates allowed; every finder (sort, BEST, Kung, 1-D, dispatch)
// ASSUME: fitness values differ by more than the comparison tolerance or are equal (integer grid), so tolerant and exact dominance agree
// REACH: front end
// CONFIG: quick auto_4x2 -DROWS=4 -DCOLS=2 -DALG=0
// CONFIG: quick auto_5x1 -DROWS=5 -DCOLS=1 -DALG=0
// CONFIG: quick auto_3x3 -DROWS=3 -DCOLS=3 -DALG=0
// CONFIG: quick sort_4x2 -DROWS=4 -DCOLS=2 -DALG=1
// CONFIG: quick best_1x2 -DROWS=1 -DCOLS=2 -DALG=2
// CONFIG: quick best_4x3 -DROWS=4 -DCOLS=3 -DALG=2 heavy=1
// CONFIG: quick sort_3x3 -DROWS=3 -DCOLS=3 -DALG=1
// CONFIG: quick kung_3x3 -DROWS=3 -DCOLS=3 -DALG=3
// CONFIG: quick kung_4x2 -DROWS=4 -DCOLS=2 -DALG=3
// CONFIG: quick pop_3x2 -DROWS=3 -DCOLS=2 -DALG=4
// CONFIG: thorough best_5x2 -DROWS=5 -DCOLS=2 -DALG=2 heavy=1
// CONFIG: thorough best_5x3 -DROWS=5 -DCOLS=3 -DALG=2 heavy=1 time=3000
// CONFIG: thorough kung_5x2 -DROWS=5 -DCOLS=2 -DALG=3 heavy=1
// CONFIG: thorough kung_4x3 -DROWS=4 -DCOLS=3 -DALG=3 heavy=1
// CONFIG: thorough sort_5x2 -DROWS=5 -DCOLS=2 -DALG=1 heavy=1
#include "common.hpp"
using namespace gapp; using namespace vh;
extern "C" void harness() {
  FitnessMatrix m = gridMatrix(ROWS, COLS, COLS == 1 ? -3 : 0, 3);
  bool nd[ROWS]; nondominated(m, ROWS, COLS, nd);
  small_vector<size_t> front;
#if ALG == 0
  front = detail::findParetoFront(m);
#elif ALG == 1
  front = detail::findParetoFrontSort(m);
#elif ALG == 2
  front = detail::findParetoFrontBest(m);
#elif ALG == 3
  front = detail::findParetoFrontKung(m);
#else
  Population<int> pop; for (size_t i = 0; i < ROWS; i++) { Candidate<int> c{ int(i) }; c.fitness = FitnessVector(m[i].begin(), m[i].end()); c.is_evaluated = true; pop.push_back(c); }
  auto opt = detail::findParetoFront(pop); for (auto& c : opt) { front.push_back(size_t(c.chromosome[0])); bool same = true; for (size_t k = 0; k < COLS; k++) same = And(same, c.fitness[k] == m[c.chromosome[0]][k]); sym_assert(same, "candidates keep their fitness"); }
#endif
  int count[ROWS] = {};
  for (size_t i : front) { sym_assert(i < ROWS, "front index in range"); count[i]++; }
  sym_reach("front");
  for (size_t i = 0; i < ROWS; i++) { sym_assert(count[i] <= 1, "no point is listed twice"); sym_assert((count[i] == 1) == nd[i], "front is exactly the non-dominated set"); }
  sym_reach("end");
}
