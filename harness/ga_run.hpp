// Complete runs of GA<int> with recording operators. Genes are small integers, each gene has a fitness value from a table,
// every random decision of the operators is a symbolic choice.
#pragma once
#include "ga_stub.hpp"
#include "metrics/metrics.hpp"
#include "stop_condition/stop_condition.hpp"
namespace vh { struct RunCrossover; struct RunMutation; }
template<> struct gapp::GaTraits<int> { using DefaultCrossover = vh::RunCrossover; using DefaultMutation = vh::RunMutation; static Probability defaultMutationRate(size_t len) { return 1.0 / (double)(len + 1); } };
namespace vh {
  using namespace gapp;
  struct Run {
    static constexpr size_t MAXG = 6, NGENE = 4;
    double table[NGENE][2] = {}; size_t nobj = 1; bool dynamic = false;
    size_t calls = 0, gene_calls[NGENE] = {}, gens = 0, alg_init = 0, stop_init = 0, stop_calls = 0, prepares = 0, selects = 0, nexts = 0, repairs = 0, mutations = 0, crossovers = 0, metric_init = 0, metric_updates = 0;
    size_t stop_at = MAXG, generated = 0; bool mixed = false; size_t changed = 0; // changed: children that differ from both parents or are not evaluated
  };
  inline Run* g_run = nullptr;
  inline FitnessVector tableFitness(int gene) { FitnessVector f(g_run->nobj); for (size_t k = 0; k < g_run->nobj; k++) f[k] = g_run->table[gene][k]; return f; }
  struct RunFitness : FitnessFunctionBase<int> {
    RunFitness(bool dyn, size_t len = 1) : FitnessFunctionBase<int>(len, dyn ? Type::Dynamic : Type::Static) {}
    FitnessVector invoke(const Chromosome<int>& c) const override {
      sym_assert(c.size() == this->chrom_len(), "the fitness function gets chromosomes of the right length");
      g_run->calls++; g_run->gene_calls[c[0]]++; if (!g_run->dynamic) return tableFitness(c[0]);
      FitnessVector f(g_run->nobj); for (size_t k = 0; k < g_run->nobj; k++) f[k] = (double)g_run->calls; return f; }
  };
  struct RunAlgorithm : algorithm::Algorithm {
    size_t pop; explicit RunAlgorithm(size_t n) : pop(n) {}
    void initializeImpl(const GaInfo& ga) override { g_run->alg_init++; sym_assert(ga.fitness_matrix().size() == pop, "the algorithm is initialized after the first population was evaluated"); }
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix& f) override { g_run->prepares++; sym_assert(f.size() == pop, "the selection is prepared for the population"); }
    size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return g_run->selects++ % pop; }
    small_vector<size_t> nextPopulationImpl(const GaInfo&, const FitnessMatrix& f) override {
      g_run->nexts++; sym_assert(f.size() == 2 * pop, "the next population is chosen from the parents and the children");
      // all the children, or the last parent and the children after the first one
      small_vector<size_t> r; bool mixed = g_run->mixed && sym_choice("survivors", 2); for (size_t i = 0; i < pop; i++) r.push_back(mixed && i == 0 ? pop - 1 : pop + i); return r; }
  };
  struct RunStop : stopping::StopCondition {
    void initialize(const GaInfo&) override { g_run->stop_init++; g_run->stop_calls = 0; }
    bool stop_condition(const GaInfo& ga) override { sym_assert(ga.generation_cntr() == g_run->stop_calls, "the stop condition is checked once in every generation"); return g_run->stop_calls++ >= g_run->stop_at; }
  };
  struct RunCrossover : crossover::Crossover<int> { RunCrossover() : crossover::Crossover<int>(1.0) {} CandidatePair<int> crossover(const GA<int>&, const Candidate<int>& a, const Candidate<int>& b) const override { g_run->crossovers++; return {b, a}; } };
  struct RunMutation : mutation::Mutation<int> { size_t genes; explicit RunMutation(size_t n) : mutation::Mutation<int>(0.5), genes(n) {} void mutate(const GA<int>&, const Candidate<int>& s, Chromosome<int>& c) const override { g_run->mutations++; bool evaluated = s.is_evaluated; int old = c[0]; if (genes) c[0] = (int)sym_choice("gene", genes); g_run->changed += !evaluated || c[0] != old; } };
  struct RunGA : GA<int> {
    size_t genes; bool fixed = false;
    RunGA(size_t pop, size_t ngenes) : GA<int>(pop, std::make_unique<RunAlgorithm>(pop), std::make_unique<RunCrossover>(), std::make_unique<RunMutation>(ngenes), std::make_unique<RunStop>()), genes(ngenes) {}
    Candidate<int> generateCandidate() const override { g_run->generated++; Candidate<int> c(this->chrom_len()); c.chromosome[0] = fixed ? (int)(g_run->generated % genes) : (int)sym_choice("first", genes); return c; }
  };
}
