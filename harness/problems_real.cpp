// PROPERTY: P40
// SOURCES: problems/single_objective.cpp problems/multi_objective.cpp problems/many_objective.cpp problems/benchmark_function.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: 2 and 3 variables (many-objective: 2 and 3 objectives, the position variables and one distance variable symbolic) on a grid of 9 values over the whole domain; ZDT5: 9 symbolic bits; the binary encoding: 2 variables of 1..4 symbolic bits, and 32 bits of which 8 are symbolic
// ASSUME: results are compared with the published formulas up to a relative error of 1e-9
// REACH: end
// CONFIG: quick single2 -DSINGLE=1 -DNV=2
// CONFIG: quick multi2 -DMULTI=1 -DNV=2
// CONFIG: quick multi3 -DMULTI=1 -DNV=3 -DFEW=1
// CONFIG: quick many2 -DMANY=2
// CONFIG: quick many3 -DMANY=3
// CONFIG: quick zdt5 -DBITS5=1
// CONFIG: quick decode -DDECODE=1
// CONFIG: thorough single3 -DSINGLE=1 -DNV=3 heavy=1
#include "common.hpp"
#include "problems/single_objective.hpp"
#include "problems/multi_objective.hpp"
#include "problems/many_objective.hpp"
#include <cmath>
#include <numbers>
#include <memory>
using namespace gapp; using namespace gapp::problems; using namespace vh;
typedef std::vector<double> Vec; static const double pi = std::numbers::pi;
static bool near(double a, double b) { double t = 1e-9 * (1 + std::abs(b)); return And(a - b <= t, b - a <= t); }
using Real = BenchmarkFunction<RealGene>;
// an arbitrary point of a grid over the domain
static double coord(const Real& f, size_t i) { double l = f.bounds()[i].lower(), u = f.bounds()[i].upper(); return l + (u - l) * sym_grid("x", 0, 8) / 8; }
static void agree(const Real& f, const Chromosome<RealGene>& x, const Vec& want, const char* label) {
  FitnessVector v = f(x); sym_assert(v.size() == f.num_objectives() && v.size() == want.size(), "the fitness vector has one value per objective");
  for (size_t k = 0; k < want.size(); k++) { sym_assert(near(v[k], want[k]), label); sym_assert(v[k] <= f.ideal_point()[k] + 1e-6 * (1 + std::abs(f.ideal_point()[k])), "no point of the domain is better than the ideal point"); }
}
static void optimum(const Real& f, double tol) { FitnessVector v = f(f.optimum()); sym_assert(f.optimum().size() == f.num_vars() && f.bounds().size() == f.num_vars(), "the optimum has one value per variable"); for (size_t k = 0; k < v.size(); k++) sym_assert(std::abs(v[k] - f.optimal_value()[k]) <= tol, "the optimal value is reached at the optimum"); for (size_t i = 0; i < f.num_vars(); i++) sym_assert(f.bounds()[i].lower() <= f.optimum()[i] && f.optimum()[i] <= f.bounds()[i].upper(), "the optimum is in the domain"); }
extern "C" void harness() {
#ifdef SINGLE
  size_t which = sym_choice("problem", 7); std::unique_ptr<Real> f; const size_t n = NV;
  switch (which) { case 0: f = std::make_unique<Sphere>(n); break; case 1: f = std::make_unique<Rastrigin>(n); break; case 2: f = std::make_unique<Rosenbrock>(n); break; case 3: f = std::make_unique<Schwefel>(n); break; case 4: f = std::make_unique<Griewank>(n); break; case 5: f = std::make_unique<Ackley>(n); break; default: f = std::make_unique<Levy>(n); }
  optimum(*f, which == 3 ? 1e-3 : 1e-9); Chromosome<RealGene> x; for (size_t i = 0; i < n; i++) x.push_back(coord(*f, i));
  double r = 0, q = 0, p = 1;
  switch (which) {
  case 0: for (double v : x) r -= v * v; break;
  case 1: for (double v : x) r -= 10 + v * v - 10 * std::cos(2 * pi * v); break;
  case 2: for (size_t i = 0; i + 1 < n; i++) { double d = x[i + 1] - x[i] * x[i]; r -= 100 * d * d + (1 - x[i]) * (1 - x[i]); } break;
  case 3: for (double v : x) r -= 418.98288727215591 - v * std::sin(std::sqrt(std::abs(v))); break;
  case 4: for (size_t i = 0; i < n; i++) { q += x[i] * x[i] / 4000; p *= std::cos(x[i] / std::sqrt(double(i + 1))); } r = -(1 + q - p); break;
  case 5: for (double v : x) { q += v * v / n; p += std::cos(2 * pi * v) / n; } r = 20 * std::exp(-0.2 * std::sqrt(q)) + std::exp(p - 1) - 20 - std::numbers::e; break;
  default: { auto w = [&](size_t i) { return 1 + (x[i] - 1) / 4; }; auto sq = [](double v) { return v * v; }; r = -sq(std::sin(pi * w(0))); for (size_t i = 0; i + 1 < n; i++) r -= sq(w(i) - 1) * (1 + 10 * sq(std::sin(pi * w(i) + 1))); r -= sq(w(n - 1) - 1) * (1 + sq(std::sin(2 * pi * w(n - 1)))); }
  }
  agree(*f, x, { r }, "a single-objective problem agrees with its formula");
#elif defined(MULTI)
  size_t which = sym_choice("problem", 6); std::unique_ptr<Real> f; const size_t n = NV;
  switch (which) { case 0: f = std::make_unique<Kursawe>(n); break; case 1: f = std::make_unique<ZDT1>(n); break; case 2: f = std::make_unique<ZDT2>(n); break; case 3: f = std::make_unique<ZDT3>(n); break; case 4: f = std::make_unique<ZDT4>(n); break; default: f = std::make_unique<ZDT6>(n); }
  optimum(*f, 1e-9); Chromosome<RealGene> x; for (size_t i = 0; i < n; i++) x.push_back(coord(*f, i));
#ifdef FEW
  x[0] = f->bounds()[0].lower() + (f->bounds()[0].upper() - f->bounds()[0].lower()) * double(sym_choice("x0", 4)) / 4;
#endif
  double f1 = x[0], f2, g = 0; for (size_t i = 1; i < n; i++) g += x[i]; g = 1 + 9 * g / double(n - 1);
  switch (which) {
  case 0: { f1 = f2 = 0; for (size_t i = 0; i + 1 < n; i++) f1 -= 10 * std::exp(-0.2 * std::sqrt(x[i] * x[i] + x[i + 1] * x[i + 1])); for (double v : x) f2 += std::pow(std::abs(v), 0.8) + 5 * std::sin(v * v * v); break; }
  case 1: f2 = g * (1 - std::sqrt(f1 / g)); break;
  case 2: f2 = g * (1 - (f1 / g) * (f1 / g)); break;
  case 3: f2 = g * (1 - std::sqrt(f1 / g) - f1 / g * std::sin(10 * pi * f1)); break;
  case 4: g = 1 + 10 * double(n - 1); for (size_t i = 1; i < n; i++) g += x[i] * x[i] - 10 * std::cos(4 * pi * x[i]); f2 = g * (1 - std::sqrt(f1 / g)); break;
  default: { double s = 0; for (size_t i = 1; i < n; i++) s += x[i]; g = 1 + 9 * std::pow(s / double(n - 1), 0.25); double t = std::sin(6 * pi * x[0]); f1 = 1 - std::exp(-4 * x[0]) * t * t * t * t * t * t; f2 = g * (1 - (f1 / g) * (f1 / g)); }
  }
  agree(*f, x, { -f1, -f2 }, "a two-objective problem agrees with its formula");
#elif defined(MANY)
  const size_t m = MANY; size_t which = sym_choice("problem", 7); std::unique_ptr<Real> f;
  switch (which) { case 0: f = std::make_unique<DTLZ1>(m); break; case 1: f = std::make_unique<DTLZ2>(m); break; case 2: f = std::make_unique<DTLZ3>(m); break; case 3: f = std::make_unique<DTLZ4>(m); break; case 4: f = std::make_unique<DTLZ5>(m); break; case 5: f = std::make_unique<DTLZ6>(m); break; default: f = std::make_unique<DTLZ7>(m); }
  optimum(*f, 1e-9); Chromosome<RealGene> x = f->optimum(); const size_t k = f->num_vars() - m + 1; size_t d = m - 1 + sym_choice("distance variable", 2) * (k - 1);
  for (size_t i = 0; i < m - 1; i++) x[i] = m == 2 ? coord(*f, i) : sym_grid("x", 0, 4) / 4; x[d] = m == 2 ? coord(*f, d) : sym_grid("x", 0, 4) / 4;
  if (which == 3) for (size_t i = 0; i < m - 1; i++) x[i] = 1 - x[i] / 50; // the mapping is only sensitive near 1
  double g = 0; Vec y(m, 0.0), th; auto c2 = [](double v) { return std::cos(v * pi / 2); }; auto s2 = [](double v) { return std::sin(v * pi / 2); };
  for (size_t i = m - 1; i < f->num_vars(); i++) { double v = x[i]; if (which == 0 || which == 2) g += 100 * (1 + (v - 0.5) * (v - 0.5) - std::cos(20 * pi * (v - 0.5))); else if (which == 5) g += std::pow(v, 0.1); else if (which == 6) g += 9.0 / double(k) * v; else g += (v - 0.5) * (v - 0.5); }
  if (which == 6) { g += 1; double h = double(m); for (size_t i = 0; i + 1 < m; i++) { y[i] = x[i]; h -= x[i] / (1 + g) * (1 + std::sin(3 * pi * x[i])); } y[m - 1] = (1 + g) * h; }
  else if (which == 0) for (size_t i = 0; i < m; i++) { double p = 0.5 * (1 + g); for (size_t j = 0; j + 1 + i < m; j++) p *= x[j]; if (i) p *= 1 - x[m - 1 - i]; y[i] = p; }
  else {
    for (size_t i = 0; i + 1 < m; i++) th.push_back(which == 3 ? std::pow(x[i], 100) : which >= 4 && i ? (1 + 2 * g * x[i]) / (2 * (1 + g)) : x[i]);
    for (size_t i = 0; i < m; i++) { double p = 1 + g; for (size_t j = 0; j + 1 + i < m; j++) p *= c2(th[j]); if (i) p *= s2(th[m - 1 - i]); y[i] = p; }
  }
  for (double& v : y) v = -v; agree(*f, x, y, "a many-objective problem agrees with its formula");
#elif defined(BITS5)
  size_t n = 2 + sym_choice("vars", 2); ZDT5 f(n); sym_assert(f.num_vars() == 30 + 5 * (n - 1) && f.num_objectives() == 2, "the chromosome holds the bits of all variables");
  { FitnessVector v = f(f.optimum()); sym_assert(near(v[0], f.optimal_value()[0]) && near(v[1], f.optimal_value()[1]), "the optimal value is reached at the optimum"); }
  Chromosome<BinaryGene> x(f.num_vars()); size_t fill = sym_choice("fill", 2); for (auto& b : x) b = BinaryGene(fill); size_t at[9] = { 0, 29, 7, 30, 31, 32, 33, 34, f.num_vars() - 1 }; for (size_t i : at) x[i] = BinaryGene(sym_bits("b", 1));
  double ones = 0, g = 0; for (size_t i = 0; i < 30; i++) ones += x[i] ? 1.0 : 0.0; for (size_t v = 0; v < n - 1; v++) { double u = 0; for (size_t i = 0; i < 5; i++) u += x[30 + 5 * v + i] ? 1.0 : 0.0; g += u == 5 ? 1.0 : 2 + u; }
  FitnessVector v = f(x); sym_assert(And(near(v[0], -(1 + ones)), near(v[1], -g / (1 + ones))), "the bit string problem agrees with its formula");
#else
  struct Probe : Real { Probe(size_t b) : Real("probe", 2, 1, Bounds<RealGene>{ -5.12, 5.12 }, b) { bounds_[1] = Bounds<RealGene>{ 0.0, 3.0 }; } mutable Vec seen; FitnessVector invoke(const Chromosome<RealGene>& c) const override { seen.assign(c.begin(), c.end()); return { 1.0 }; } };
  size_t bits = 1 + sym_choice("bits", 5); if (bits == 5) bits = 32; Probe f(bits); Chromosome<BinaryGene> x(2 * bits); double val[2] = { 0, 0 };
  for (size_t i = 0; i < x.size(); i++) { size_t j = i % bits; x[i] = bits < 32 || j < 1 || j == 16 || j > 29 ? BinaryGene(sym_bits("b", 1)) : BinaryGene(1); val[i / bits] = 2 * val[i / bits] + double(x[i]); }
  FitnessFunctionBase<BinaryGene>& b = f; sym_assert(b.chrom_len() == 2 * bits && f.num_vars() == 2, "the binary chromosome holds the bits of every variable"); (void)b(x);
  sym_assert(f.seen.size() == 2, "every variable is decoded"); double top = std::pow(2.0, double(bits)) - 1;
  for (size_t i = 0; i < 2; i++) { double l = f.bounds()[i].lower(), u = f.bounds()[i].upper(), v = f.seen[i]; sym_assert(And(v >= l, v <= u), "a decoded variable is within its bounds"); sym_assert(near(v, l + (u - l) * (val[i] / top)), "the bits are decoded as a binary number scaled to the bounds"); sym_assert(And(Implies(val[i] == 0, v == l), Implies(val[i] == top, v == u)), "both bounds can be represented"); }
#endif
  sym_reach("end");
}
