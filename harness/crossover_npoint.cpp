// PROPERTY: P12
// SOURCES: crossover/binary.cpp crossover/integer.cpp core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI mutation selection replacement
// BOUNDS: chromosomes of 1..4 (quick) / 5 (thorough) genes (symbolic bits, or pairwise different integers), every number of crossover points 1..len+1, symbolic swap probability
// ASSUME: random helpers return any value of their documented range
// REACH: end
// STUB: unsigned long gapp::rng::randomBinomial<unsigned long>\(.*\) => h_binomial
// CONFIG: quick bin_4 -DENC=0 -DLEN=4
// CONFIG: quick bin_1 -DENC=0 -DLEN=1
// CONFIG: quick int_4 -DENC=1 -DLEN=4
// CONFIG: quick int_3 -DENC=1 -DLEN=3
// CONFIG: quick impl_4 -DENC=2 -DLEN=4
// CONFIG: thorough bin_5 -DENC=0 -DLEN=5
// CONFIG: thorough int_5 -DENC=1 -DLEN=5
// CONFIG: thorough impl_5 -DENC=2 -DLEN=5
#include "ga_stub.hpp"
#include "crossover/binary.hpp"
#include "crossover/integer.hpp"
#include "crossover/crossover_impl.hpp"
using namespace gapp; using namespace vh;
static size_t g_count = 0;
extern "C" uint64_t h_binomial(uint64_t n, double p) { sym_assert(And(0.0 <= p, p <= 1.0), "probability passed to the binomial generator"); uint64_t x = sym_range("count", 0, (int64_t)n); sym_assume(Or(p > 0.0, x == 0)); sym_assume(Or(p < 1.0, x == n)); g_count = x; return x; }
#if ENC == 0
using Gene = BinaryGene; namespace cxn = crossover::binary;
#else
using Gene = IntegerGene; namespace cxn = crossover::integer;
#endif
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, 1); Candidate<Gene> a(LEN), b(LEN); Gene x[LEN], y[LEN];
  for (size_t i = 0; i < LEN; i++) { if (ENC) { x[i] = (Gene)(2 * i); y[i] = (Gene)(2 * i + 1); } else { x[i] = (Gene)sym_bits("a", 1); y[i] = x[i] ^ 1; } a.chromosome[i] = x[i]; b.chromosome[i] = y[i]; }
  for (auto* c : {&a, &b}) { c->is_evaluated = true; c->fitness = {1.0}; }
  size_t op = sym_choice("operator", 4), n = 0; double ps = 0.5; CandidatePair<Gene> r;
  if (ENC == 2) {
    size_t pt[3]; for (auto& p : pt) p = sym_choice("point", LEN + 1);
    r = op == 0 ? crossover::dtl::singlePointCrossoverImpl(a, b, pt[0]) : op == 1 ? crossover::dtl::twoPointCrossoverImpl(a, b, {pt[0], pt[1]}) : op == 2 ? crossover::dtl::nPointCrossoverImpl(a, b, {pt[0], pt[1], pt[2]}) : crossover::dtl::nPointCrossoverImpl(a, b, {pt[0], pt[1]});
    size_t k = op == 0 ? 1 : op == 2 ? 3 : 2;
    for (size_t i = 0; i < LEN; i++) { size_t c = 0; for (size_t j = 0; j < k; j++) c += pt[j] <= i; bool flip = (c + (op == 0 ? 1 : 0)) % 2; bool first = r.first.chromosome[i] == x[i]; if (op >= 2) flip = !flip; sym_assert(first == !flip || (r.first.chromosome[i] == y[i] && flip), "genes are exchanged between the crossover points"); }
  } else {
    std::unique_ptr<crossover::Crossover<Gene>> m;
    if (op == 0) { m = std::make_unique<cxn::SinglePoint>(1.0); n = 1; } else if (op == 1) { m = std::make_unique<cxn::TwoPoint>(1.0); n = 2; } else if (op == 2) { n = 1 + sym_choice("points", LEN + 1); m = std::make_unique<cxn::NPoint>(1.0, n); } else { ps = sym_double_in("swap_prob", 0.0, 1.0); m = std::make_unique<cxn::Uniform>(1.0, ps); }
    r = m->crossover(ga, a, b);
  }
  sym_assert(r.first.chromosome.size() == LEN && r.second.chromosome.size() == LEN, "children have the length of the parents");
  // every exchange the documentation allows has to be possible
  if (ENC != 2) for (size_t m = 0; m < (1u << LEN); m++) {
    size_t seg = 0; bool in = false; for (size_t i = 0; i < LEN; i++) { bool b = m >> i & 1; seg += b && !in; in = b; } static char t[24]; size_t k = 0; auto put = [&](const char* w) { while (*w) t[k++] = *w++; };
    if (op == 0) { if (m & (m + 1)) continue; if (m + 1 == 1u << LEN) continue; put("one point "); } else if (op == 1) { if (seg > 1 || m + 1 == 1u << LEN) continue; put("two points "); } else if (op == 3) put("uniform "); else { if (n != 2 || seg != 1 || (m >> (LEN - 1) & 1)) continue; put("two of n "); }
    for (size_t i = 0; i < LEN; i++) t[k++] = m >> i & 1 ? '1' : '0'; t[k] = 0; bool s1 = true, s2 = true; for (size_t i = 0; i < LEN; i++) { bool b = m >> i & 1, w = r.first.chromosome[i] == y[i]; s1 = And(s1, w == b); s2 = And(s2, w != b); } sym_possible(op == 1 || op == 0 ? s1 : Or(s1, s2), t); }
  size_t sw = 0, count = 0; bool prev = false;
  for (size_t i = 0; i < LEN; i++) {
    Gene p = r.first.chromosome[i], q = r.second.chromosome[i]; bool keep = And(p == x[i], q == y[i]), swap = And(p == y[i], q == x[i]);
    sym_assert(Or(keep, swap), "every position holds the genes of the two parents at that position"); count += sym_ite(swap, 1, 0); if (i) sw += sym_ite(swap != prev, 1, 0); prev = swap;
  }
  if (ENC != 2 && op < 3) sym_assert(sw <= n, "genes are exchanged in at most as many segments as the number of points allows");
  if (ENC != 2 && op == 2) sym_assert(sw + 1 >= (n < LEN ? n : LEN), "N distinct points are used, up to the length of the chromosome");
  if (ENC != 2 && op == 3) { sym_assert(Or(count == g_count, count == LEN - g_count), "the drawn number of genes is swapped"); sym_assert(Or(ps > 0.0, Or(count == 0, count == LEN)), "swap probability 0 gives copies of the parents"); }
  sym_reach("end");
}
