// PROPERTY: P14
// SOURCES: core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI mutation selection replacement
// BOUNDS: chromosomes of 1..2 (quick) / 3 (thorough) genes, genes in 0..2, 1..2 objectives with symbolic fitness; the operator returns any pair of children, with any stale fitness and evaluation flags; symbolic crossover rate and random draw
// ASSUME: the parents are evaluated (precondition); integer and real genes; operators that are the identity on equal parents (documented)
// STUB: double gapp::rng::randomReal<double>\(\) => h_real
// REACH: done
// CONFIG: quick int_1 -DLEN=1 -DNOBJ=1 -DGENE=IntegerGene
// CONFIG: quick int_2 -DLEN=2 -DNOBJ=2 -DGENE=IntegerGene
// CONFIG: quick real_1 -DLEN=1 -DNOBJ=2 -DGENE=RealGene
// CONFIG: quick var_2 -DLEN=2 -DNOBJ=1 -DGENE=IntegerGene -DVARLEN=1
// CONFIG: thorough int_3 -DLEN=3 -DNOBJ=2 -DGENE=IntegerGene
// CONFIG: thorough real_2 -DLEN=2 -DNOBJ=2 -DGENE=RealGene
#include "ga_stub.hpp"
using namespace gapp; using namespace vh; using Gene = GENE;
#ifndef VARLEN
#define VARLEN 0
#endif
static size_t g_draws = 0; static double g_u = 0.0;
extern "C" double h_real() { double r = sym_double_in("real", 0.0, 0x1.fffffffffffffp-1); if (!g_draws++) g_u = r; return r; }
static Gene gene() { return (Gene)(std::is_floating_point_v<Gene> ? sym_grid("gene", 0, 2) : sym_range("gene", 0, 2)); }
static Candidate<Gene> any(size_t len) { Candidate<Gene> c(len); for (auto& g : c.chromosome) g = gene(); return c; }
struct Probe : crossover::Crossover<Gene> {
  mutable size_t calls = 0; mutable Candidate<Gene> r1, r2; mutable const Candidate<Gene>*a = 0, *b = 0;
  using crossover::Crossover<Gene>::Crossover;
  bool allow_variable_chrom_length() const noexcept override { return VARLEN; }
  CandidatePair<Gene> crossover(const GA<Gene>&, const Candidate<Gene>& x, const Candidate<Gene>& y) const override { calls++; a = &x; b = &y; return {r1, r2}; }
};
static bool sameC(const Candidate<Gene>& x, const Candidate<Gene>& y) { if (x.chromosome.size() != y.chromosome.size()) return false; bool e = true; for (size_t i = 0; i < x.chromosome.size(); i++) e = And(e, x.chromosome[i] == y.chromosome[i]); return e; }
static bool sameF(const Candidate<Gene>& x, const Candidate<Gene>& y) { if (x.fitness.size() != y.fitness.size()) return false; bool e = true; for (size_t i = 0; i < x.fitness.size(); i++) e = And(e, x.fitness[i] == y.fitness[i]); return e; }
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, NOBJ); double pc = sym_double_in("rate", 0.0, 1.0);
  size_t l[4] = {LEN, LEN, LEN, LEN}; if (VARLEN) for (auto& x : l) x = 1 + sym_choice("len", 2);
  Candidate<Gene> p1 = any(l[0]), p2 = any(l[1]);
  for (auto* c : {&p1, &p2}) { c->is_evaluated = true; c->fitness = FitnessVector(NOBJ); for (size_t k = 0; k < NOBJ; k++) c->fitness[k] = sym_grid("f", -4, 4); }
  // a fitness function is a function of the chromosome
  sym_assume(Implies(sameC(p1, p2), sameF(p1, p2)));
  Probe x(pc); x.r1 = any(l[2]); x.r2 = any(l[3]);
  for (auto* c : {&x.r1, &x.r2}) { c->is_evaluated = sym_bits("stale", 1); c->fitness = FitnessVector(NOBJ); for (size_t k = 0; k < NOBJ; k++) c->fitness[k] = sym_grid("stale_f", 5, 9); }
  Candidate<Gene> o1 = p1, o2 = p2; size_t before = sym_heap_live(); (void)before;
  auto [c1, c2] = x(ga, p1, p2);
  sym_assert(And(And(sameC(o1, p1), sameC(o2, p2)), And(And(sameF(o1, p1), sameF(o2, p2)), p1.is_evaluated && p2.is_evaluated)), "the parents are not modified");
  sym_assert(x.calls <= 1, "the operator is invoked at most once");
  bool eq = sameC(p1, p2);
  if (x.calls == 0) {
    sym_assert(And(And(sameC(c1, p1), sameC(c2, p2)), And(sameF(c1, p1), sameF(c2, p2))), "without a crossover the children are copies of the parents"); sym_assert(c1.is_evaluated && c2.is_evaluated, "copies stay evaluated");
    sym_assert(Or(eq, pc < 1.0), "crossover rate 1 always performs the crossover"); if (g_draws == 1) sym_assert(Or(eq, g_u >= pc), "the crossover is performed with exactly the crossover rate");
  } else {
    sym_assert(pc > 0.0, "crossover rate 0 never performs the crossover"); if (g_draws == 1) sym_assert(g_u < pc, "the crossover is performed with exactly the crossover rate");
    sym_assert(x.a == &p1 && x.b == &p2, "the operator gets the parents");
    sym_assert(And(sameC(c1, x.r1), sameC(c2, x.r2)), "the children are the ones returned by the operator");
    for (auto* c : {&c1, &c2}) if (c->is_evaluated) sym_assert(Or(And(sameC(*c, p1), sameF(*c, p1)), And(sameC(*c, p2), sameF(*c, p2))), "a child counts as evaluated only with the fitness of a parent that has its chromosome");
  }
  sym_reach("done");
}
