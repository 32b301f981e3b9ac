// A GA object whose algorithm, operators and fitness function are supplied by the harness (private members are set directly).
#pragma once
#include "common.hpp"
#include "core/ga_base.hpp"
#include "encoding/gene_types.hpp"
#include "algorithm/algorithm_base.hpp"
#include "stop_condition/stop_condition_base.hpp"
#include "crossover/crossover_base.hpp"
#include "mutation/mutation_base.hpp"
namespace vh {
  struct StubAlgorithm : algorithm::Algorithm {
    void initializeImpl(const GaInfo&) override {}
    void prepareSelectionsImpl(const GaInfo&, const FitnessMatrix&) override {}
    size_t selectImpl(const GaInfo&, const FitnessMatrix&) const override { return 0; }
    small_vector<size_t> nextPopulationImpl(const GaInfo&, const FitnessMatrix&) override { return {}; }
  };
  struct StubStop : stopping::StopCondition { bool stop_condition(const GaInfo&) override { return true; } };
  template<typename T> struct StubCrossover : crossover::Crossover<T> { StubCrossover() : crossover::Crossover<T>(0.5) {} CandidatePair<T> crossover(const GA<T>&, const Candidate<T>& a, const Candidate<T>& b) const override { return {a, b}; } };
  template<typename T> struct StubMutation : mutation::Mutation<T> { StubMutation() : mutation::Mutation<T>(0.5) {} void mutate(const GA<T>&, const Candidate<T>&, Chromosome<T>&) const override {} };
  template<typename T> struct TestGA : GA<T> {
    TestGA(size_t pop) : GA<T>(pop, std::make_unique<StubAlgorithm>(), std::make_unique<StubCrossover<T>>(), std::make_unique<StubMutation<T>>(), std::make_unique<StubStop>()) {}
    Candidate<T> generateCandidate() const override { return Candidate<T>(this->chrom_len()); }
    void problem(size_t len, size_t nobj) { this->fitness_function_ = std::make_unique<detail::FitnessLambda<T>>(len, [nobj](const Chromosome<T>&) { return FitnessVector(nobj); }); this->num_objectives_ = nobj; }
  };
}
