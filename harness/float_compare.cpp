// PROPERTY: P04
// SOURCES: utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: one pair of values on a grid of step 1/4 between -4 and 4, or infinite, with any absolute and relative tolerance on a grid of step 1/8 between 0 and 1; all pairs of doubles with zero tolerances; Pareto comparison of vectors of 1..3 components; up to 3 nested tolerance scopes
// ASSUME: the relative tolerance is at most 1; no NaN values
// REACH: end
// CONFIG: quick laws -DMODE=0
// CONFIG: quick exact -DMODE=1
// CONFIG: quick pareto1 -DMODE=2 -DNC=1
// CONFIG: quick pareto2 -DMODE=2 -DNC=2
// CONFIG: quick scopes -DMODE=3
// CONFIG: thorough pareto3 -DMODE=2 -DNC=3 heavy=1
#include "common.hpp"
#include "utility/math.hpp"
#include <compare>
#include <limits>
using namespace gapp; using namespace vh; using math::ScopedTolerances; using math::Tolerances;
static double value(const char* n) { const double inf = std::numeric_limits<double>::infinity(); switch (sym_choice("inf", 3)) { case 1: return inf; case 2: return -inf; default: return sym_grid(n, -16, 16) / 4; } }
static bool eq(double a, double b) { return math::floatIsEqual(a, b); }
static bool lt(double a, double b) { return math::floatIsLess(a, b); }
static bool gt(double a, double b) { return math::floatIsGreater(a, b); }
extern "C" void harness() {
#if MODE == 0
  double at = sym_grid("abs", 0, 8) / 8, rt = sym_grid("rel", 0, 8) / 8; ScopedTolerances scope(at, rt); double a = value("a"), b = value("b");
  bool l = lt(a, b), g = gt(a, b), e = eq(a, b);
  sym_assert(And(Or(l, Or(g, e)), And(!And(l, g), And(!And(l, e), !And(g, e)))), "exactly one of less, equal and greater holds");
  sym_assert(And(eq(b, a) == e, And(gt(b, a) == l, lt(b, a) == g)), "the comparisons agree when the operands are swapped");
  sym_assert(And(math::floatIsLessEq(a, b) == !g, math::floatIsGreaterEq(a, b) == !l), "the non-strict comparisons complement the strict ones");
  auto c = math::floatCompare(a, b); sym_assert(And((c < 0) == l, And((c > 0) == g, (c == 0) == e)), "the three-way comparison agrees with the others");
  sym_assert(And(Implies(l, a < b), And(Implies(g, a > b), Implies(a == b, e))), "a definite difference is a difference");
  sym_assert(And(eq(a, a), And(!lt(a, a), !gt(a, a))), "a value is equal to itself");
  sym_assert(Implies(!(a > b), math::floatIsLessAssumeNotGreater(a, b) == l), "the shortcut comparison agrees with the plain one");
  if (a - a == 0 && b - b == 0) { double m = std::max(std::abs(a), std::abs(b)), t = std::max(at, rt * m); sym_assert(And(e == (std::abs(a - b) <= t), l == (b - a > t)), "values within the larger of the two tolerances are equal"); }
  else sym_assert(e == (a == b), "an infinite value is only equal to itself");
#elif MODE == 1
  ScopedTolerances scope(0.0, 0.0); double a = sym_double("a"), b = sym_double("b"); sym_assume(And(a == a, b == b));
  sym_assert(lt(a, b) == (a < b), "without tolerances less is exact"); sym_assert(eq(a, b) == (a == b), "without tolerances equal is exact"); sym_assert(gt(a, b) == (a > b), "without tolerances greater is exact");
  auto c = math::floatCompare(a, b); sym_assert(And((c < 0) == (a < b), (c > 0) == (a > b)), "without tolerances the three-way comparison is exact");
#elif MODE == 2
  double at = sym_grid("abs", 0, 4) / 4, rt = sym_grid("rel", 0, 2) / 4; ScopedTolerances scope(at, rt); double a[NC], b[NC]; bool anyl = false, anyg = false, alle = true;
  for (int i = 0; i < NC; i++) { a[i] = sym_grid("a", -6, 6) / 2; b[i] = sym_grid("b", -6, 6) / 2; anyl = Or(anyl, lt(a[i], b[i])); anyg = Or(anyg, gt(a[i], b[i])); alle = And(alle, eq(a[i], b[i])); }
  std::span<const double> x(a, NC), y(b, NC); int c = math::paretoCompare(x, y);
  sym_assert(c == (int64_t)sym_ite(And(anyg, !anyl), 1, sym_ite(And(anyl, !anyg), (uint64_t)-1, 0)), "the Pareto comparison reports domination in either direction");
  sym_assert(math::paretoCompareLess(x, y) == And(anyl, !anyg), "the Pareto less comparison agrees with the component comparisons");
  sym_assert(math::paretoCompareLess(y, x) == And(anyg, !anyl), "the Pareto less comparison agrees with the component comparisons in the other direction");
  sym_assert(math::paretoCompare(y, x) == -c, "the Pareto comparison is antisymmetric"); sym_assert(!math::paretoCompareLess(x, x), "nothing dominates itself");
  sym_assert(math::floatVecIsEqual<double>(x, y) == alle, "vectors are equal when all of their components are"); sym_assert(!math::floatVecIsEqual<double>(x, y.first(NC - 1)), "vectors of different lengths are not equal");
#else
  double a0 = Tolerances::abs(), r0 = Tolerances::rel(1.0); size_t depth = sym_choice("depth", 4); bool thrown = sym_choice("throw", 2); double va[3], vr[3]; for (int i = 0; i < 3; i++) { va[i] = sym_double_in("abs", 0, 1e300); vr[i] = sym_double_in("rel", 0, 1e300); }
  auto nest = [&](auto& self, size_t d) -> void { if (d == depth) { if (thrown) throw 1; return; } double pa = Tolerances::abs(), pr = Tolerances::rel(1.0); try { ScopedTolerances s(va[d], vr[d]); sym_assert(And(Tolerances::abs() == va[d], Tolerances::rel(1.0) == vr[d]), "a scope sets the tolerances"); self(self, d + 1); sym_assert(And(Tolerances::abs() == va[d], Tolerances::rel(1.0) == vr[d]), "an inner scope restores the tolerances"); } catch (int) { sym_assert(And(Tolerances::abs() == pa, Tolerances::rel(1.0) == pr), "a scope left by an exception restores the tolerances"); throw; } sym_assert(And(Tolerances::abs() == pa, Tolerances::rel(1.0) == pr), "a scope restores the tolerances"); };
  try { nest(nest, 0); } catch (int) { sym_assert(thrown, "only the thrown exception arrives"); }
  sym_assert(And(Tolerances::abs() == a0, Tolerances::rel(1.0) == r0), "the tolerances are the initial ones after all scopes");
#endif
  sym_reach("end");
}
