// PROPERTY: P17
// SOURCES: core/ga_info.cpp utility/rng.cpp utility/math.cpp
// OPTIONAL: SingleObjective NoEarlyStop 3GAI crossover selection replacement
// BOUNDS: two candidates mutated one after the other; chromosomes of 1..2 (quick) / 3 (thorough) genes in 0..2, 1..2 objectives, any evaluation flag; the operator writes any genes (and any length when allowed)
// REACH: done
// CONFIG: quick int_1 -DLEN=1 -DGENE=IntegerGene
// CONFIG: quick int_2 -DLEN=2 -DGENE=IntegerGene
// CONFIG: quick real_2 -DLEN=2 -DGENE=RealGene
// CONFIG: quick var_2 -DLEN=2 -DGENE=IntegerGene -DVARLEN=1
// CONFIG: thorough int_3 -DLEN=3 -DGENE=IntegerGene
#include "ga_stub.hpp"
using namespace gapp; using namespace vh; using Gene = GENE;
#ifndef VARLEN
#define VARLEN 0
#endif
static Gene gene() { return (Gene)(std::is_floating_point_v<Gene> ? sym_grid("gene", 0, 2) : sym_range("gene", 0, 2)); }
struct Probe : mutation::Mutation<Gene> {
  mutable size_t calls = 0; mutable Chromosome<Gene> next; using mutation::Mutation<Gene>::Mutation;
  bool allow_variable_chrom_length() const noexcept override { return VARLEN; }
  void mutate(const GA<Gene>&, const Candidate<Gene>& c, Chromosome<Gene>& x) const override { calls++; sym_assert(&c.chromosome == &x, "the operator mutates the chromosome of the candidate"); x = next; }
};
extern "C" void harness() {
  TestGA<Gene> ga(2); ga.problem(LEN, 2);
  for (int round = 0; round < 2; round++) {
    Probe m(0.5); size_t l0 = VARLEN ? 1 + sym_choice("len", 2) : LEN, l1 = VARLEN ? 1 + sym_choice("len", 2) : LEN;
    Candidate<Gene> c(l0); for (auto& g : c.chromosome) g = gene(); m.next.resize(l1); for (auto& g : m.next) g = gene();
    c.is_evaluated = sym_choice("evaluated", 2); if (c.is_evaluated) { c.fitness = FitnessVector(2); for (size_t k = 0; k < 2; k++) c.fitness[k] = sym_grid("f", -4, 4); }
    Candidate<Gene> o = c; m(ga, c);
    sym_assert(m.calls == 1, "the operator is invoked once");
    sym_assert(c.chromosome.size() == l1, "the candidate has the mutated chromosome"); bool e = true; for (size_t i = 0; i < l1; i++) e = And(e, c.chromosome[i] == m.next[i]); sym_assert(e, "the candidate has the mutated chromosome");
    bool same = l0 == l1; for (size_t i = 0; i < l0 && i < l1; i++) same = And(same, o.chromosome[i] == c.chromosome[i]);
    if (c.is_evaluated) { sym_assert(o.is_evaluated, "an unevaluated candidate does not become evaluated"); sym_assert(same, "a candidate stays evaluated only if its chromosome did not change"); bool f = c.fitness.size() == 2; for (size_t k = 0; k < 2 && f; k++) f = And(f, c.fitness[k] == o.fitness[k]); sym_assert(f, "an evaluated candidate keeps its fitness"); }
  }
  sym_reach("done");
}
