// PROPERTY: P03
// SOURCES: algorithm/nd_sort.cpp core/population.cpp utility/math.cpp utility/rng.cpp
// BOUNDS: populations of 3..4 (quick) / 5 (thorough) points, 2..3 objectives, integer grid fitness of 4 levels; the three sorting algorithms and the public entry, the first also on state left over from an earlier larger or smaller call; the dominance degree sort also with two and three worker threads; fronts(), ranks(), partialFront() and resize() for every cut size
// ASSUME: fitness on an integer grid (points equal or farther apart than the tolerance)
// REACH: end
// CONFIG: quick fnds_4x2 -DROWS=4 -DCOLS=2 -DALG=0 -DPRE=0
// CONFIG: quick fnds_3x2_after5 -DROWS=3 -DCOLS=2 -DALG=0 -DPRE=5
// CONFIG: quick fnds_4x2_after2 -DROWS=4 -DCOLS=2 -DALG=0 -DPRE=2
// CONFIG: quick fnds_3x3_after3 -DROWS=3 -DCOLS=3 -DALG=0 -DPRE=3
// CONFIG: quick dds_4x2 -DROWS=4 -DCOLS=2 -DALG=1 -DPRE=0 -DLV=2 heavy=1
// CONFIG: quick dds_3x2 -DROWS=3 -DCOLS=2 -DALG=1 -DPRE=0
// CONFIG: quick dds_3x3 -DROWS=3 -DCOLS=3 -DALG=1 -DPRE=0 -DLV=2
// CONFIG: quick ens_4x2 -DROWS=4 -DCOLS=2 -DALG=2 -DPRE=0 
// CONFIG: quick ens_3x3 -DROWS=3 -DCOLS=3 -DALG=2 -DPRE=0
// CONFIG: quick public_4x2 -DROWS=4 -DCOLS=2 -DALG=3 -DPRE=0
// CONFIG: thorough fnds_5x2 -DROWS=5 -DCOLS=2 -DALG=0 -DPRE=4 heavy=1
// CONFIG: thorough dds_4x2_4lv -DROWS=4 -DCOLS=2 -DALG=1 -DPRE=0 heavy=1 time=3000
// CONFIG: thorough ens_5x2 -DROWS=5 -DCOLS=2 -DALG=2 -DPRE=0 heavy=1
// CONFIG: thorough ens_4x3 -DROWS=4 -DCOLS=3 -DALG=2 -DPRE=0 heavy=1
// CONFIG: quick dds_par_3x2 -DROWS=3 -DCOLS=2 -DALG=1 -DPRE=0 -DLV=1 hwc=3 preempt=1
// CONFIG: thorough dds_par_3x3 -DROWS=3 -DCOLS=3 -DALG=1 -DPRE=0 -DLV=1 hwc=4 preempt=0 heavy=1
#include "common.hpp"
#include "algorithm/nd_sort.hpp"
using namespace gapp; using namespace vh; using namespace gapp::algorithm::dtl;
#ifndef LV
#define LV 3
#endif
extern "C" void harness() {
  if (PRE) { FitnessMatrix p(PRE, COLS); for (size_t i = 0; i < PRE; i++) for (size_t j = 0; j < COLS; j++) p(i, j) = double((i * 7 + j * 3) % 4); fastNonDominatedSort(p.begin(), p.end()); }
  FitnessMatrix m = gridMatrix(ROWS, COLS, 0, LV);
  ParetoFronts pf = ALG == 0 ? ParetoFronts(fastNonDominatedSort(m.begin(), m.end())) : ALG == 1 ? ParetoFronts(dominanceDegreeSort(m.begin(), m.end())) : ALG == 2 ? ParetoFronts(efficientNonDominatedSort(m.begin(), m.end())) : nonDominatedSort(m);
  sym_assert(size_t(pf.end() - pf.begin()) == ROWS, "every point is assigned to a front");
  int count[ROWS] = {}; size_t rank[ROWS] = {}; size_t prev = 0, last = 0; bool sorted = true;
  for (auto it = pf.begin(); it != pf.end(); ++it) { sym_assert(it->idx < ROWS, "index in range"); count[it->idx]++; rank[it->idx] = it->rank; if (it->rank < prev) sorted = false; prev = it->rank; if (it->rank > last) last = it->rank; }
  sym_assert(sorted, "fronts are listed best first");
  for (size_t i = 0; i < ROWS; i++) sym_assert(count[i] == 1, "every point appears exactly once");
  for (size_t i = 0; i < ROWS; i++) {
    bool lower = true, witness = rank[i] == 0;
    for (size_t j = 0; j < ROWS; j++) if (j != i) { bool d = dominates(m[j], m[i], COLS); if (!(rank[j] < rank[i])) lower = And(lower, !d); if (rank[j] + 1 == rank[i]) witness = Or(witness, d); }
    sym_assert(lower, "a dominating point has a strictly better rank"); sym_assert(witness, "every rank is the smallest possible");
  }
  // derived views
  auto ranks = pf.ranks(); sym_assert(ranks.size() == ROWS, "ranks size"); for (size_t i = 0; i < ROWS; i++) sym_assert(ranks[i] == rank[i], "ranks() agrees with the fronts");
  auto fronts = pf.fronts(); sym_assert(fronts.size() == last + 1, "number of fronts"); size_t total = 0;
  for (size_t r = 0; r < fronts.size(); r++) for (auto& e : fronts[r]) { sym_assert(e.rank == r, "fronts() groups equal ranks"); total++; }
  sym_assert(total == ROWS, "fronts() covers everything");
  for (size_t k = 1; k <= ROWS; k++) {
    auto part = pf.partialFront(k); bool split = k < ROWS && pf[k - 1].rank == pf[k].rank; size_t n = size_t(part.end() - part.begin());
    if (!split) sym_assert(n == 0, "no partial front when the cut is between fronts");
    else { size_t sz = 0; for (size_t i = 0; i < ROWS; i++) sz += rank[i] == pf[k].rank; sym_assert(n == sz, "partial front is the whole split front"); for (auto& e : part) sym_assert(e.rank == pf[k].rank, "partial front has one rank"); }
  }
  ParetoFronts cut = pf; cut.resize(ROWS - 1); sym_assert(cut.size() == ROWS - 1, "resize"); for (size_t i = 0; i + 1 < ROWS; i++) sym_assert(cut[i] == pf[i], "resize keeps the best");
  sym_reach("end");
}
