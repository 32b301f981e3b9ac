// PROPERTY: P46
// SOURCES: problems/travelling_salesman.cpp problems/integer.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: every tour of 2..5 cities in 4 listed arrangements (with coinciding cities); strings of up to 4 characters with symbolic targets and genes
// REACH: end
// CONFIG: quick tour_2 -DNC=2
// CONFIG: quick tour_3 -DNC=3
// CONFIG: quick tour_4 -DNC=4
// CONFIG: quick tour_5 -DNC=5
// CONFIG: quick strings -DSTR=1
// CONFIG: thorough tour_6 -DNC=6 heavy=1
#include "common.hpp"
#include "problems/travelling_salesman.hpp"
#include "problems/integer.hpp"
#include <cmath>
#include <string>
using namespace gapp; using namespace gapp::problems; using namespace vh;
static bool near(double a, double b) { double t = 1e-9 * (1 + std::abs(b)); return And(a - b <= t, b - a <= t); }
extern "C" void harness() {
#ifdef STR
  size_t n = sym_choice("length", 4) + 1; std::string target(n, 'a'); Chromosome<IntegerGene> c(n, 0); for (size_t i = 0; i < n; i++) { target[i] = char(32 + sym_range("t", 0, 95)); c[i] = IntegerGene(sym_range("g", 32, 127)); }
  StringFinder f(target); sym_assert(f.num_vars() == n && f.num_objectives() == 1 && f.optimal_value()[0] == double(n), "the problem has one variable per character");
  double hits = 0; for (size_t i = 0; i < n; i++) hits += double(sym_ite(c[i] == IntegerGene((unsigned char)target[i]), 1, 0)); FitnessVector v = f(c); sym_assert(v.size() == 1, "there is one objective"); sym_assert(v[0] == hits, "the fitness is the number of matching characters");
  for (size_t i = 0; i < n; i++) sym_assert(f.bounds()[i].lower() <= IntegerGene((unsigned char)target[i]) && IntegerGene((unsigned char)target[i]) <= f.bounds()[i].upper(), "every character can be represented");
#else
  TSP::Coords sets[4][6] = { { { 0, 0 }, { 3, 4 }, { 6, 0 }, { 3, 9 }, { -5, 2 }, { 1, 1 } }, { { 0, 0 }, { 1, 0 }, { 2, 0 }, { 3, 0 }, { 4, 0 }, { 5, 0 } }, { { 1, 1 }, { 1, 1 }, { 4, 5 }, { 4, 5 }, { 1, 1 }, { 7, 9 } }, { { 1e6, -2.5 }, { 0.001, 3 }, { -1e6, 7 }, { 12.5, 0.25 }, { 99, 98 }, { 0, -1e5 } } };
  auto& s = sets[sym_choice("cities", 4)]; TSP f(std::span<const TSP::Coords>(s, NC), -1.0); sym_assert(f.num_vars() == NC - 1 && f.num_objectives() == 1 && f.optimal_value()[0] == -1.0, "there is one variable for every city but the last one");
  Chromosome<PermutationGene> tour(NC - 1, 0), rev; for (size_t i = 0; i < NC - 1; i++) tour[i] = PermutationGene(sym_range("city", 0, NC - 2));
  for (size_t i = 0; i < NC - 1; i++) for (size_t j = 0; j < i; j++) sym_assume(tour[i] != tour[j]);
  for (size_t i = 0; i < NC - 1; i++) sym_assert(f.bounds()[i].lower() == 0 && f.bounds()[i].upper() == NC - 2, "the cities are numbered from 0");
  auto d = [&](size_t a, size_t b) { double r = 0; for (size_t i = 0; i < NC; i++) for (size_t j = 0; j < NC; j++) { double x = std::sqrt((s[i][0] - s[j][0]) * (s[i][0] - s[j][0]) + (s[i][1] - s[j][1]) * (s[i][1] - s[j][1])); union { double f; uint64_t u; } p, q; p.f = x; q.f = r; q.u = sym_ite(And(a == i, b == j), p.u, q.u); r = q.f; } return r; };
  double len = d(NC - 1, tour[0]); for (size_t i = 1; i < NC - 1; i++) len += d(tour[i - 1], tour[i]); len += d(tour[NC - 2], NC - 1);
  double v = f(tour)[0]; sym_assert(near(v, -len), "the fitness is the negative length of the closed tour through the last city"); sym_assert(v <= 0, "the fitness is not positive");
  for (size_t i = NC - 1; i--;) rev.push_back(tour[i]); sym_assert(near(f(rev)[0], v), "a tour and its reverse are equally long");
#endif
  sym_reach("end");
}
