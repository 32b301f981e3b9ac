// PROPERTY: P16
// SOURCES: mutation/permutation.cpp core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI crossover selection replacement
// BOUNDS: chromosomes of 1..4 (quick) / 5 (thorough) symbolic genes, symbolic mutation rate and maximum range
// ASSUME: random helpers return any value of their documented range
// REACH: end
// CONFIG: quick inversion_4 -DOP=0 -DLEN=4
// CONFIG: quick inversion_2 -DOP=0 -DLEN=2
// CONFIG: quick swap2_4 -DOP=1 -DLEN=4
// CONFIG: quick swap3_4 -DOP=2 -DLEN=4
// CONFIG: quick swap3_3 -DOP=2 -DLEN=3
// CONFIG: quick shuffle_3 -DOP=3 -DLEN=3
// CONFIG: quick shift_4 -DOP=4 -DLEN=4
// CONFIG: quick shift_2 -DOP=4 -DLEN=2
// CONFIG: quick any_1 -DOP=5 -DLEN=1
// CONFIG: quick any_2 -DOP=5 -DLEN=2
// CONFIG: thorough inversion_5 -DOP=0 -DLEN=5
// CONFIG: thorough swap3_5 -DOP=2 -DLEN=5
// CONFIG: thorough shuffle_4 -DOP=3 -DLEN=4 heavy=1
// CONFIG: thorough shift_5 -DOP=4 -DLEN=5
#include "ga_stub.hpp"
#include "mutation/permutation.hpp"
using namespace gapp; using namespace vh; using Gene = PermutationGene;
// every outcome of a random operator that its documentation allows has to be possible
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, 1); double p = sym_double_in("rate", 0.0, 1.0), rm = sym_double_in("range_max", 0.0, 1.0);
  Candidate<Gene> c(LEN); Gene old[LEN];
  for (size_t i = 0; i < LEN; i++) { old[i] = c.chromosome[i] = (Gene)sym_range("gene", 0, LEN - 1); for (size_t j = 0; j < i; j++) sym_assume(old[i] != old[j]); }
  std::unique_ptr<mutation::Mutation<Gene>> m; size_t op = OP; if (op == 5) op = sym_choice("operator", 5);
  if (op == 0) m = std::make_unique<mutation::perm::Inversion>(p, rm); else if (op == 1) m = std::make_unique<mutation::perm::Swap2>(p); else if (op == 2) m = std::make_unique<mutation::perm::Swap3>(p);
  else if (op == 3) m = std::make_unique<mutation::perm::Shuffle>(p, rm); else m = std::make_unique<mutation::perm::Shift>(p, rm);
  (*m)(ga, c);
  sym_assert(c.chromosome.size() == LEN, "the mutation keeps the chromosome length");
  Gene x[LEN]; for (size_t i = 0; i < LEN; i++) x[i] = c.chromosome[i];
  bool same = true; for (size_t i = 0; i < LEN; i++) { bool in = false; for (size_t j = 0; j < LEN; j++) in = Or(in, x[j] == old[i]); sym_assert(in, "the mutated chromosome is a permutation of the same genes"); same = And(same, x[i] == old[i]); }
  sym_assert(Or(p > 0.0, same), "rate 0 leaves the chromosome unchanged");
  size_t moved = 0; for (size_t i = 0; i < LEN; i++) moved += sym_ite(x[i] != old[i], 1, 0);
  if (op == 1) sym_assert(Or(moved == 0, moved == 2), "swap2 exchanges two genes");
  if (op == 2) sym_assert(Or(moved == 0, moved == 3), "swap3 moves three genes");
  if (op == 1 && LEN >= 2) sym_assert(Or(p < 1.0, moved == 2), "rate 1 always mutates");
  if (op == 2 && LEN >= 3) sym_assert(Or(p < 1.0, moved == 3), "rate 1 always mutates");
  if (op == 1) for (size_t a = 0; a < LEN; a++) for (size_t b = 0; b < a; b++) { bool e = true; for (size_t i = 0; i < LEN; i++) e = And(e, x[i] == old[i == a ? b : i == b ? a : i]); sym_possible(e, named("swap of", b, a)); }
  if (op == 2) for (size_t a = 0; a < LEN; a++) for (size_t b = 0; b < a; b++) for (size_t d = 0; d < b; d++) { bool e = true; for (size_t i = 0; i < LEN; i++) { bool s = x[i] == old[i]; e = And(e, i == a || i == b || i == d ? !s : s); } sym_possible(e, named("reordering of", d, b, a)); }
  if (op == 3 && LEN == 3) for (size_t a = 0; a < LEN; a++) for (size_t b = 0; b < LEN; b++) for (size_t d = 0; d < LEN; d++) if (a != b && a != d && b != d) sym_possible(And(x[0] == old[a], And(x[1] == old[b], x[LEN - 1] == old[d])), named("shuffle to", a, b, d));
  if (op == 0) { bool ok = same; for (size_t a = 0; a < LEN; a++) for (size_t b = a + 2; b <= LEN; b++) { bool e = Or(b - a == 2, double(b - a) <= rm * LEN); for (size_t i = 0; i < LEN; i++) e = And(e, x[i] == (i >= a && i < b ? old[a + b - 1 - i] : old[i])); if (OP == 0) sym_possible(e, named("inversion of", a, b)); ok = Or(ok, e); } sym_assert(ok, "inversion reverses one range of at most the allowed length"); if (LEN >= 2) sym_assert(Or(p < 1.0, !same), "rate 1 always mutates"); }
  if (op == 3) { bool ok = same; for (size_t a = 0; a < LEN; a++) for (size_t b = a + 2; b <= LEN; b++) { bool e = Or(b - a == 2, double(b - a) <= rm * LEN); for (size_t i = 0; i < LEN; i++) if (i < a || i >= b) e = And(e, x[i] == old[i]); ok = Or(ok, e); } sym_assert(ok, "shuffle changes one range of at most the allowed length"); }
  if (op == 4) {
    bool ok = same;
    for (size_t a = 0; a < LEN; a++) for (size_t l = 1; a + l <= LEN; l++) for (size_t d = 0; d + l <= LEN; d++) if (d != a) {
      size_t r[LEN], k = 0; for (size_t i = 0; i < LEN; i++) if (i < a || i >= a + l) r[k++] = i; size_t q[LEN]; for (size_t i = 0, s = 0; i < LEN; i++) q[i] = i >= d && i < d + l ? a + (i - d) : r[s++];
      bool e = Or(l == 1, double(l) <= rm * LEN); for (size_t i = 0; i < LEN; i++) e = And(e, x[i] == old[q[i]]); if (OP == 4) sym_possible(e, named("shift of", a, l, d)); ok = Or(ok, e); }
    sym_assert(ok, "shift moves one range of at most the allowed length"); if (LEN >= 2) sym_assert(Or(p < 1.0, !same), "rate 1 always mutates"); }
  sym_reach("end");
}
