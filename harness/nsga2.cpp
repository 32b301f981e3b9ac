// PROPERTY: P05
// SOURCES: algorithm/nsga2.cpp algorithm/nd_sort.cpp core/population.cpp core/ga_info.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI crossover mutation selection replacement
// BOUNDS: 2 of 4 survivors on the grid 0..2 with 2 objectives (any ties); 3 of 4 survivors for every order of the objective values with gaps 1 or 3; 4 of 5 survivors of one front with every order and any inner values on a grid of 1/8 between the extremes (4 in one front); one parent selection from the survivors and one from the initial population
// ASSUME: the crowding distances are compared for fronts without equal values of an objective (the order of equal values is unspecified)
// STUB: unsigned long gapp::rng::randomInt<unsigned long>\(.*\) => h_draw
// REACH: end
// CONFIG: quick ties_2of4 -DPOP=2 -DROWS=4 -DHI=2 -DDISTINCT=0
// CONFIG: quick crowd_3of4 -DPOP=3 -DROWS=4 -DDISTINCT=1
// CONFIG: quick select_4of5 -DPOP=4 -DROWS=5 -DDISTINCT=1 -DFRONT=1 -DTOURNEY=1
// CONFIG: quick symbolic_4 -DPOP=4 -DROWS=4 -DDISTINCT=1 -DFRONT=1 -DSYMV=1 -DTOURNEY=1 -DINIT=1
// CONFIG: quick initial_4 -DPOP=4 -DROWS=4 -DDISTINCT=1 -DFRONT=1 -DTOURNEY=1 -DINIT=1
// CONFIG: quick fronts_4 -DPOP=4 -DROWS=4 -DDISTINCT=1 -DTOURNEY=1 -DINIT=1 -DNOGAP=1
// CONFIG: thorough crowd_3of5 -DPOP=3 -DROWS=5 -DDISTINCT=1 heavy=1
// CONFIG: thorough ties_3of5 -DPOP=3 -DROWS=5 -DHI=2 -DDISTINCT=0 heavy=1
// CONFIG: thorough select_4of6 -DPOP=4 -DROWS=6 -DDISTINCT=1 -DFRONT=1 -DTOURNEY=1 heavy=1
#include "ga_stub.hpp"
#include "algorithm/nsga2.hpp"
#ifndef HI
#define HI 1
#endif
#ifndef SYMV
#define SYMV 0
#endif
#ifndef FRONT
#define FRONT 0
#endif
#ifndef TOURNEY
#define TOURNEY 0
#endif
#ifndef NOGAP
#define NOGAP 0
#endif
#ifndef INIT
#define INIT 0
#endif
using namespace gapp; using namespace vh;
static size_t g_draw[4], g_n = 0;
extern "C" uint64_t h_draw(uint64_t lo, uint64_t hi) { uint64_t r = lo + sym_choice("draw", hi - lo + 1); if (g_n < 4) g_draw[g_n] = r; g_n++; return r; }
struct Sols { double f[8][2]; size_t n; size_t rank[8]; };
static void ranks(Sols& s) { bool d[8][8]; for (size_t i = 0; i < s.n; i++) for (size_t j = 0; j < s.n; j++) { d[i][j] = false; if (dominates(s.f[i], s.f[j], 2)) d[i][j] = true; }
  for (size_t i = 0; i < s.n; i++) s.rank[i] = 0; for (size_t r = 0; r < s.n; r++) for (size_t i = 0; i < s.n; i++) for (size_t j = 0; j < s.n; j++) if (i != j && d[j][i] && s.rank[j] + 1 > s.rank[i]) s.rank[i] = s.rank[j] + 1; }
// the crowding distance of solution i inside its front, scaled by the product of the front's ranges; infinite for the extreme solutions
struct Crowd { bool inf; double num; };
static Crowd crowd(const Sols& s, size_t i) { double gap[2], range[2]; bool inf = false;
  for (size_t k = 0; k < 2; k++) { double mx = s.f[i][k], mn = mx, up = mx, dn = mx; bool hasUp = false, hasDn = false;
    for (size_t j = 0; j < s.n; j++) if (j != i && s.rank[j] == s.rank[i]) { double v = s.f[j][k]; if (v > mx) mx = v; if (v < mn) mn = v; if (v > s.f[i][k]) { if (!hasUp || v < up) up = v; hasUp = true; } if (v < s.f[i][k]) { if (!hasDn || v > dn) dn = v; hasDn = true; } }
    gap[k] = up - dn; range[k] = mx - mn; inf = inf || !hasUp || !hasDn; }
  return { inf, gap[0] * range[1] + gap[1] * range[0] }; }
static bool crowdLess(const Crowd& a, const Crowd& b) { return And(!a.inf, Or(b.inf, a.num < b.num)); }
extern "C" void harness() {
  TestGA<int> ga(POP); ga.problem(1, 2); Sols s; s.n = ROWS; FitnessMatrix m(ROWS, 2);
  if (!DISTINCT) for (size_t i = 0; i < ROWS; i++) for (size_t k = 0; k < 2; k++) s.f[i][k] = m(i, k) = (double)sym_choice("f", HI + 1);
  else { size_t pos[2][ROWS]; double val[2][ROWS]; // the position of every solution in the order of the objective, and the values in ascending order
    for (size_t k = 0; k < 2; k++) {
      if (k && FRONT) for (size_t i = 0; i < ROWS; i++) pos[1][i] = ROWS - 1 - pos[0][i];
      else { size_t left[ROWS], n = ROWS; for (size_t i = 0; i < ROWS; i++) left[i] = i; for (size_t i = 0; i < ROWS; i++) { size_t c = sym_choice("order", n); pos[k][i] = left[c]; for (size_t j = c; j + 1 < n; j++) left[j] = left[j + 1]; n--; } }
      val[k][0] = 0;
      if (FRONT && SYMV) { for (size_t p = 1; p < ROWS; p++) { val[k][p] = p + 1 < ROWS ? sym_grid("f", 1, 7) * 0.125 : 1.0; if (p + 1 < ROWS) sym_assume(val[k][p - 1] < val[k][p]); } }
      else for (size_t p = 1; p < ROWS; p++) val[k][p] = val[k][p - 1] + (!NOGAP && sym_choice("gap", 2) ? 3 : 1);
    }
    for (size_t i = 0; i < ROWS; i++) for (size_t k = 0; k < 2; k++) s.f[i][k] = m(i, k) = val[k][pos[k][i]] * (k ? 0.0625 : 1.0); }
  ranks(s); algorithm::NSGA2 alg; FitnessMatrix pm(POP, 2); for (size_t i = 0; i < POP; i++) for (size_t k = 0; k < 2; k++) pm(i, k) = m(i, k);
  ga.population_ = Population<int>(POP, Candidate<int>(1)); ga.fitness_matrix_ = pm; alg.initializeImpl(ga); Sols q; q.n = POP;
  if (!INIT) {
    auto next = alg.nextPopulationImpl(ga, m); sym_assert(next.size() == POP, "the next population has the population size"); bool in[ROWS] = {};
    for (size_t i = 0; i < POP; i++) { size_t x = next[i]; sym_assert(x < ROWS && !in[x], "every survivor is a different solution"); in[x] = true; }
    for (size_t i = 0; i < ROWS; i++) for (size_t j = 0; j < ROWS; j++) if (in[i] && !in[j]) { sym_assert(s.rank[i] <= s.rank[j], "no solution of a better front is left out"); if (DISTINCT) sym_assert(Implies(s.rank[i] == s.rank[j], !crowdLess(crowd(s, i), crowd(s, j))), "within the last front the less crowded solutions survive"); }
    for (size_t i = 0; i < POP; i++) for (size_t k = 0; k < 2; k++) q.f[i][k] = pm(i, k) = m(next[i], k);
  } else for (size_t i = 0; i < POP; i++) for (size_t k = 0; k < 2; k++) q.f[i][k] = pm(i, k);
  ranks(q); ga.fitness_matrix_ = pm; g_n = 0; size_t w = alg.selectImpl(ga, pm); sym_assert(w < POP, "a parent is a member of the population");
  if (g_n == 2) { size_t a = g_draw[0], b = g_draw[1], l = w == a ? b : a; sym_assert(w == a || w == b, "the parent is one of the two drawn candidates"); sym_assert(q.rank[w] <= q.rank[l], "the parent is not from a worse front than its opponent");
    if (DISTINCT && TOURNEY) sym_assert(Implies(q.rank[w] == q.rank[l], !crowdLess(crowd(q, w), crowd(q, l))), "of two candidates of the same front the less crowded one is selected"); }
  auto opt = alg.optimalSolutionsImpl(ga); bool is[POP] = {}; for (size_t i : opt) { sym_assert(i < POP && !is[i], "optimal solutions are distinct members of the population"); is[i] = true; } for (size_t i = 0; i < POP; i++) sym_assert(is[i] == (q.rank[i] == 0), "the optimal solutions are the first front of the population");
  sym_reach("end");
}
