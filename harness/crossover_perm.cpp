// PROPERTY: P11
// SOURCES: crossover/permutation.cpp core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI mutation selection replacement
// BOUNDS: parents of 1..4 (quick) / 5 (thorough) genes: every pair of permutations (quick, and 5 genes: one parent is the identity and the other arbitrary; both children are checked, so that the arbitrary one is in either role), every random range, position set and choice
// ASSUME: random helpers return any value of their documented range; the generic-gene implementations are run on every pair of permutations of 3 genes
// REACH: end
// CONFIG: quick order1_4 -DOP=0 -DLEN=4 -DIDENT=1
// CONFIG: thorough order1_4_all -DOP=0 -DLEN=4 -DIDENT=2
// CONFIG: quick order2_4 -DOP=1 -DLEN=4 -DIDENT=1
// CONFIG: thorough order2_4_all -DOP=1 -DLEN=4 -DIDENT=2
// CONFIG: quick position_4 -DOP=2 -DLEN=4 -DIDENT=1 workers=3
// CONFIG: thorough position_4_all -DOP=2 -DLEN=4 -DIDENT=2
// CONFIG: quick cycle_4 -DOP=3 -DLEN=4
// CONFIG: quick edge_4_all -DOP=4 -DLEN=4 -DIDENT=2
// CONFIG: quick pmx_4 -DOP=5 -DLEN=4 -DIDENT=1
// CONFIG: thorough pmx_4_all -DOP=5 -DLEN=4 -DIDENT=2
// CONFIG: quick any_1 -DOP=6 -DLEN=1
// CONFIG: quick any_2 -DOP=6 -DLEN=2
// CONFIG: quick any_3 -DOP=6 -DLEN=3
// CONFIG: quick generic_3 -DOP=6 -DLEN=3 -DGENERIC=1
// CONFIG: thorough order1_5 -DOP=0 -DLEN=5 -DIDENT=1
// CONFIG: thorough order2_5 -DOP=1 -DLEN=5 -DIDENT=1
// CONFIG: thorough position_5 -DOP=2 -DLEN=5 -DIDENT=1
// CONFIG: quick cycle_5 -DOP=3 -DLEN=5 -DIDENT=1
// CONFIG: quick edge_5 -DOP=4 -DLEN=5 -DIDENT=1
// CONFIG: thorough pmx_5 -DOP=5 -DLEN=5 -DIDENT=1
#include "ga_stub.hpp"
#include "crossover/permutation.hpp"
#include "crossover/crossover_impl.hpp"
using namespace gapp; using namespace vh;
#ifdef GENERIC
using Gene = long;
#else
using Gene = PermutationGene;
#define GENERIC 0
#endif
#ifndef IDENT
#define IDENT 0
#endif
static Gene A[LEN], B[LEN];
// child of P and Q that keeps the genes of P at the positions of the mask and takes the others in the order of Q, starting at position s
static bool filled(const Gene* P, const Gene* Q, const Gene* c, unsigned mask, size_t s) {
  bool ok = true, kept[LEN];
  for (size_t j = 0; j < LEN; j++) { kept[j] = false; for (size_t i = 0; i < LEN; i++) if (mask >> i & 1) kept[j] = Or(kept[j], Q[j] == P[i]); }
  size_t t = 0; for (size_t o = 0; o < LEN; o++) { size_t p = (s + o) % LEN; if (mask >> p & 1) { ok = And(ok, c[p] == P[p]); continue; } size_t n = 0; for (size_t q = 0; q < LEN; q++) { size_t j = (s + q) % LEN; ok = And(ok, Or(kept[j], Or(n != t, c[p] == Q[j]))); n += sym_ite(kept[j], 0, 1); } t++; }
  return ok;
}
static bool pmx(const Gene* P, const Gene* Q, const Gene* c, size_t f, size_t l) {
  bool ok = true; for (size_t p = 0; p < LEN; p++) { if (p >= f && p < l) { ok = And(ok, c[p] == P[p]); continue; } Gene g = Q[p]; for (size_t k = 0; k < l - f; k++) { Gene h = g; for (size_t j = f; j < l; j++) h = (Gene)sym_ite(g == P[j], Q[j], h); g = h; } ok = And(ok, c[p] == g); }
  return ok;
}
extern "C" void harness() {
  Candidate<Gene> a(LEN), b(LEN); CandidatePair<Gene> r;
  size_t op = OP; if (op == 6) op = sym_choice("operator", 6);
  for (size_t i = 0; i < LEN; i++) { A[i] = IDENT == 1 ? (Gene)i : GENERIC || LEN == 3 || IDENT == 2 ? (Gene)sym_choice("a", LEN) : (Gene)sym_range("a", 0, LEN - 1); B[i] = GENERIC || OP == 4 || (OP == 6 && op == 4) ? (Gene)sym_choice("b", LEN) : (Gene)sym_range("b", 0, LEN - 1); for (size_t j = 0; j < i; j++) sym_assume(And(A[i] != A[j], B[i] != B[j])); a.chromosome[i] = A[i]; b.chromosome[i] = B[i]; }
  for (auto* c : {&a, &b}) { c->is_evaluated = true; c->fitness = {1.0}; }
#if GENERIC
  size_t f = sym_choice("first", LEN), l = sym_choice("last", LEN + 1); if (op == 0 || op == 1 || op == 5) sym_assume(f < l && l - f < LEN); using namespace crossover::dtl;
  unsigned mk = 1 + (unsigned)sym_choice("positions", (1u << LEN) - 2); std::vector<size_t> idx; for (size_t i = LEN; i-- > 0;) if (mk >> i & 1) idx.push_back(i);
  if (op == 0) r = {order1CrossoverImpl(a, b, f, l), order1CrossoverImpl(b, a, f, l)}; else if (op == 1) r = {order2CrossoverImpl(a, b, f, l), order2CrossoverImpl(b, a, f, l)}; else if (op == 2) r = {positionCrossoverImpl(a, b, idx), positionCrossoverImpl(b, a, idx)};
  else if (op == 3) r = cycleCrossoverImpl(a, b); else if (op == 4) r = {edgeCrossoverImpl(a, b), edgeCrossoverImpl(b, a)}; else r = {pmxCrossoverImpl(a, b, f, l), pmxCrossoverImpl(b, a, f, l)};
#else
  TestGA<Gene> ga(2); ga.problem(LEN, 1); std::unique_ptr<crossover::Crossover<Gene>> m; namespace cp = crossover::perm;
  if (op == 0) m = std::make_unique<cp::Order1>(1.0); else if (op == 1) m = std::make_unique<cp::Order2>(1.0); else if (op == 2) m = std::make_unique<cp::Position>(1.0); else if (op == 3) m = std::make_unique<cp::Cycle>(1.0); else if (op == 4) m = std::make_unique<cp::Edge>(1.0); else m = std::make_unique<cp::PMX>(1.0);
  r = m->crossover(ga, a, b);
#endif
  sym_assert(r.first.chromosome.size() == LEN && r.second.chromosome.size() == LEN, "children have the length of the parents");
  Gene x[LEN], y[LEN]; for (size_t i = 0; i < LEN; i++) { x[i] = r.first.chromosome[i]; y[i] = r.second.chromosome[i]; }
  for (size_t g = 0; g < LEN; g++) { bool in = false, in2 = false; for (size_t i = 0; i < LEN; i++) { in = Or(in, x[i] == (Gene)g); in2 = Or(in2, y[i] == (Gene)g); } sym_assert(And(in, in2), "both children are permutations of the genes"); }
  bool ok = LEN < 2;
  if (op == 0 || op == 1 || op == 5) { for (size_t f = 0; f < LEN; f++) for (size_t l = f + 1; l <= LEN; l++) if (l - f < LEN) { unsigned m = 0; for (size_t i = f; i < l; i++) m |= 1u << i; size_t s = op == 0 ? l % LEN : 0; ok = Or(ok, op == 5 ? And(pmx(A, B, x, f, l), pmx(B, A, y, f, l)) : And(filled(A, B, x, m, s), filled(B, A, y, m, s))); }
    sym_assert(ok, op == 0 ? "order1: one range of each parent is kept, the other genes follow in the order of the other parent after the range" : op == 1 ? "order2: one range of each parent is kept, the other genes follow in the order of the other parent" : "pmx: one range of each parent is kept, the other genes are mapped through the range"); }
  if (op == 2) { for (unsigned m = 1; m + 1 < 1u << LEN; m++) ok = Or(ok, And(filled(A, B, x, m, 0), filled(B, A, y, m, 0))); sym_assert(ok, "position: the genes at the same positions of each parent are kept, the others follow in the order of the other parent"); }
  if (op == 3) {
    bool pos = true; for (size_t i = 0; i < LEN; i++) pos = And(pos, Or(And(x[i] == A[i], y[i] == B[i]), And(x[i] == B[i], y[i] == A[i]))); sym_assert(pos, "cycle: every position holds the genes of the parents at that position");
    // cycles numbered by their smallest position; consecutive cycles are taken from different parents
    size_t lab[LEN]; for (size_t i = 0; i < LEN; i++) lab[i] = i; for (size_t k = 0; k < LEN; k++) for (size_t i = 0; i < LEN; i++) for (size_t j = 0; j < LEN; j++) if (i != j) { bool e = A[j] == B[i]; size_t mn = sym_ite(lab[i] < lab[j], lab[i], lab[j]); lab[i] = sym_ite(e, mn, lab[i]); lab[j] = sym_ite(e, mn, lab[j]); }
    size_t no[LEN]; for (size_t i = 0; i < LEN; i++) { no[i] = 0; for (size_t k = 0; k < LEN; k++) no[i] += sym_ite(And(lab[k] == k, k < lab[i]), 1, 0); }
    bool alt = true, alt2 = true; for (size_t i = 0; i < LEN; i++) { bool odd = no[i] & 1, fix = A[i] == B[i], sw = x[i] == B[i]; alt = And(alt, Or(fix, sw == odd)); alt2 = And(alt2, Or(fix, sw != odd)); } sym_assert(Or(alt, alt2), "cycle: consecutive cycles come from alternate parents");
  }
  if (op == 4 && LEN > 2) { // the same tour in both parents is kept
    bool same = true, kept = true; auto adj = [](const Gene* c, Gene g, Gene h) { bool r = false; for (size_t i = 0; i < LEN; i++) { size_t j = (i + 1) % LEN; r = Or(r, Or(And(c[i] == g, c[j] == h), And(c[i] == h, c[j] == g))); } return r; };
    for (size_t g = 0; g < LEN; g++) for (size_t h = 0; h < g; h++) { bool p = adj(A, g, h); same = And(same, p == adj(B, g, h)); kept = And(kept, And(p == adj(x, g, h), p == adj(y, g, h))); } sym_assert(Or(!same, kept), "edge: the edges are kept when both parents are the same tour"); }
  // every range or position set can be the one that is kept
  if (LEN == 4 && OP != 3 && OP != 4 && OP != 6) {
    unsigned ms[16]; size_t fs[16], ls[16], n = 0; bool match[16];
    for (unsigned m = 1; m + 1 < 1u << LEN; m++) { size_t f = 0, l = LEN; while (!(m >> f & 1)) f++; while (!(m >> (l - 1) & 1)) l--; bool range = m == (1u << l) - (1u << f); if (OP == 2 || range) { ms[n] = m; fs[n] = f; ls[n] = l; match[n] = OP == 5 ? pmx(A, B, x, f, l) : filled(A, B, x, m, OP == 0 ? l % LEN : 0); n++; } }
    for (size_t k = 0; k < n; k++) { size_t c = 0; for (size_t i = 0; i < LEN; i++) c += ms[k] >> i & 1; if (c + 2 > LEN) continue; bool only = match[k]; for (size_t o = 0; o < n; o++) if (o != k) only = And(only, !match[o]); sym_possible(only, named("kept positions", ms[k])); } }
  sym_reach("end");
}
