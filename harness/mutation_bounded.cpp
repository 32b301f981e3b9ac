// PROPERTY: P15
// SOURCES: mutation/real.cpp mutation/integer.cpp mutation/binary.cpp core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI crossover mutation4real mutation7integer mutation6binary selection replacement
// BOUNDS: chromosomes of 1..3 genes (real), 2..3 (integer), 4 (binary); symbolic gene values inside the bounds, bounds symbolic integers in -2..2 including lower == upper; symbolic mutation rate; non-uniform mutation at every generation of a run of up to 3; beta, eta from {0, default, 1e6}
// ASSUME: gene bounds are finite and their width does not overflow; random helpers return any value of their documented range; pow returns any multiple of 1/64 within its range; the rejection loop of the integer mutation is cut after a few draws
// REACH: end
// STUB: pow => h_pow
// STUB: long gapp::rng::randomInt<long>\(.*\) => h_draw
// STUB: double gapp::rng::randomNormal<double>\(double, double\) => h_normal
// STUB: unsigned long gapp::rng::randomBinomial<unsigned long>\(.*\) => h_binomial
// CONFIG: quick real_uniform_2 -DOP=0 -DLEN=2
// CONFIG: quick real_gauss_1 -DOP=2 -DLEN=1
// CONFIG: quick real_gauss_2 -DOP=2 -DLEN=2
// CONFIG: quick real_poly_1 -DOP=3 -DLEN=1
// CONFIG: quick real_boundary_3 -DOP=4 -DLEN=3
// CONFIG: quick int_uniform_2 -DOP=5 -DLEN=2
// CONFIG: thorough int_uniform_3 -DOP=5 -DLEN=3 heavy=1
// CONFIG: quick real_nonuniform_1 -DOP=1 -DLEN=1
// CONFIG: quick real_nonuniform_fix2 -DOP=1 -DLEN=2 -DFIXED=1
// CONFIG: quick real_poly_fix2 -DOP=3 -DLEN=2 -DFIXED=1
// CONFIG: thorough real_nonuniform_2 -DOP=1 -DLEN=2
// CONFIG: thorough real_poly_2 -DOP=3 -DLEN=2
// CONFIG: quick flip_4 -DOP=6 -DLEN=4
#include "ga_stub.hpp"
#include "mutation/real.hpp"
#include "mutation/integer.hpp"
#include "mutation/binary.hpp"
using namespace gapp; using namespace vh;
static size_t g_count = 0; static bool g_called = false;
static double g_z; static size_t g_nz = 0;
// a normal value: m + s * z, where z is anything, or a power of 2 (then the result is exact and can be checked)
extern "C" double h_normal(double m, double s) { size_t k = LEN > 1 ? 0 : sym_choice("z", 4); if (k == 0 || g_nz++) { g_nz = 2; return sym_double_in("normal", -1e6, 1e6); } g_z = (const double[]){-2.0, 0.5, 64.0}[k - 1]; return m == 0.0 ? s * g_z : m + s * g_z; }
extern "C" uint64_t h_binomial(uint64_t n, double p) { sym_assert(And(0.0 <= p, p <= 1.0), "probability passed to the binomial generator"); uint64_t x = sym_range("count", 0, (int64_t)n); sym_assume(Or(p > 0.0, x == 0)); sym_assume(Or(p < 1.0, x == n)); g_count = x; g_called = true; return x; }
// pow: any multiple of 1/64 its range allows
extern "C" double h_pow(double x, double y) { sym_assert(And(x >= 0.0, y >= 0.0), "non-negative base and exponent"); double r = sym_grid("pow", 0, 256) * 0x1p-6; sym_assume(Or(x > 1.0, r <= 1.0)); sym_assume(Or(x < 1.0, r >= 1.0)); sym_assume(Or(y > 0.0, r == 1.0)); return r; }
// draws of a gene value; a run that needs more than LEN + 2 draws is only possible if no draw can succeed or by bad luck (cut off)
extern "C" int64_t h_draw(int64_t lo, int64_t hi) { static size_t n = 0; sym_assert(lo <= hi, "randomInt-precondition"); sym_assert(Or(n < LEN + 2, lo < hi), "the mutation terminates for a gene with a single possible value"); sym_assume(++n <= LEN + 2); int64_t x = (int64_t)sym_bits("draw", 64); sym_assume(And(lo <= x, x <= hi)); return x; }
#ifdef FIXED
#define GENE lo[i] + (hi[i] - lo[i]) * 0.5 * sym_choice("gene", 3)
#else
#define GENE sym_double_in("gene", -2, 2)
#endif
#if OP <= 4
using Gene = double;
#elif OP == 5
using Gene = IntegerGene;
#else
using Gene = BinaryGene;
#endif
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, 1); double p = sym_double_in("rate", 0.0, 1.0);
  ga.max_gen_ = 3; if (OP == 1) { ga.max_gen_ = 1 + sym_choice("max_gen", 3); ga.generation_cntr_ = sym_choice("gen", 4); sym_assume(ga.generation_cntr_ <= ga.max_gen_); }
  Candidate<Gene> c(LEN); Gene lo[LEN], hi[LEN], old[LEN];
  for (size_t i = 0; i < LEN; i++) {
#if OP <= 4
    if (OP == 2 && LEN == 1) { lo[i] = (double)sym_choice("lo", 3) - 2; hi[i] = lo[i] + 2.0 * sym_choice("width", 3); }
#ifdef FIXED
    else if (1) { lo[i] = i ? 1 : -2; hi[i] = lo[i] + (i ? 1.0 : 0.5); }
#endif
    else { lo[i] = sym_grid("lo", -2, 2); hi[i] = sym_grid("hi", -2, 2); }
    sym_assume(lo[i] <= hi[i]); double g = GENE; sym_assume(And(lo[i] <= g, g <= hi[i])); ga.bounds_.emplace_back(lo[i], hi[i]); c.chromosome[i] = g;
#elif OP == 5
    lo[i] = sym_bits("lo", 64); hi[i] = sym_bits("hi", 64); sym_assume(lo[i] <= hi[i]); Gene g = sym_bits("gene", 64); sym_assume(And(lo[i] <= g, g <= hi[i])); ga.bounds_.emplace_back(lo[i], hi[i]); c.chromosome[i] = g;
#else
    lo[i] = 0; hi[i] = 1; c.chromosome[i] = (Gene)sym_bits("gene", 1);
#endif
    old[i] = c.chromosome[i];
  }
#if OP == 0
  mutation::real::Uniform m(p);
#elif OP == 1
  mutation::real::NonUniform m(p, (const double[]){0.0, 2.0, 1e6}[sym_choice("beta", 3)]);
#elif OP == 2
  double sg = LEN > 1 ? sym_double_in("sigma", 0.01, 1e6) : (const double[]){0.01, 6.0, 1e6}[sym_choice("sigma", 3)]; mutation::real::Gauss m(p, sg);
#elif OP == 3
  mutation::real::Polynomial m(p, (const double[]){0.0, 40.0, 1e6}[sym_choice("eta", 3)]);
#elif OP == 4
  mutation::real::Boundary m(p);
#elif OP == 5
  mutation::integer::Uniform m(p);
#else
  mutation::binary::Flip m(p);
#endif
  m(ga, c);
  sym_assert(c.chromosome.size() == LEN, "the mutation keeps the chromosome length");
  size_t changed = 0;
  for (size_t i = 0; i < LEN; i++) { Gene g = c.chromosome[i]; sym_assert(And(lo[i] <= g, g <= hi[i]), "every gene stays inside its bounds"); changed += sym_ite(g != old[i], 1, 0); }
  sym_assert(changed <= g_count, "at most the drawn number of genes changes");
  sym_assert(Or(p > 0.0, changed == 0), "rate 0 leaves the chromosome unchanged");
  // every outcome the documentation allows has to be possible
  static const char* L[4][3] = {{"gene 0 moves to its lower bound", "gene 0 moves to its upper bound", "gene 0 moves inside"}, {"gene 1 moves to its lower bound", "gene 1 moves to its upper bound", "gene 1 moves inside"}, {"gene 2 moves to its lower bound", "gene 2 moves to its upper bound", "gene 2 moves inside"}, {"gene 3 is set to 0", "gene 3 is set to 1", ""}};
  if (OP != 6) for (size_t i = 0; i < LEN; i++) { Gene g = c.chromosome[i]; bool mv = And(g != old[i], g_count == 1); for (size_t j = 0; j < LEN; j++) if (j != i) mv = And(mv, c.chromosome[j] == old[j]); if (OP != 1 && OP != 3 && OP != 2) { sym_possible(And(mv, g == lo[i]), L[i][0]); sym_possible(And(mv, g == hi[i]), L[i][1]); } else { sym_possible(And(mv, g < old[i]), L[i][0]); sym_possible(And(mv, g > old[i]), L[i][1]); } if (OP != 4) sym_possible(And(mv, And(g > lo[i], g < hi[i])), L[i][2]); }
  if (OP == 6) { sym_assert(changed == g_count, "exactly the drawn number of bits is flipped"); sym_assert(g_called, "binomial"); }
  if (OP == 5) { size_t single = 0; for (size_t i = 0; i < LEN; i++) single += sym_ite(lo[i] == hi[i], 1, 0); sym_assert(changed + single >= g_count, "a selected integer gene with more than one possible value changes"); }
  if (OP == 4) for (size_t i = 0; i < LEN; i++) { Gene g = c.chromosome[i]; sym_assert(Or(g == old[i], Or(g == lo[i], g == hi[i])), "boundary mutation moves genes to a bound"); }
#if OP == 2
  if (g_nz == 1) for (size_t i = 0; i < LEN; i++) { Gene g = c.chromosome[i]; sym_assert(Or(g == old[i], g == std::clamp(old[i] + (hi[i] - lo[i]) / sg * g_z, lo[i], hi[i])), "the step has the documented standard deviation, the width of the bounds over sigma"); }
#endif
  sym_reach("end");
}
