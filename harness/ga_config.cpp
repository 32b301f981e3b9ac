// PROPERTY: P32
// SOURCES: core/ga_info.cpp core/population.cpp algorithm/single_objective.cpp algorithm/soga_selection.cpp algorithm/soga_replacement.cpp algorithm/nsga3.cpp algorithm/nd_sort.cpp algorithm/reference_lines.cpp utility/cone_tree.cpp metrics/pop_stats.cpp stop_condition/stop_condition_base.cpp stop_condition/stop_condition.cpp metrics/metric_set.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: 3GAI crossover mutation hypervolume
// BOUNDS: every constructor, followed by every pair of the setters (of the algorithm, the mutation method and rate, the crossover method and rate, the stop condition and the metrics) and two runs of one generation with 1 or 2 objectives and different chromosome lengths
// ASSUME: a single worker thread
// REACH: end
// CONFIG: quick setters -DMODE=0 hwc=1
// CONFIG: quick runs -DMODE=1 hwc=1
// CONFIG: quick metrics -DMODE=2 hwc=1
// CONFIG: thorough setters2 -DMODE=3 hwc=1 heavy=1
#include "ga_run.hpp"
#include "algorithm/single_objective.hpp"
#include "algorithm/nsga3.hpp"
#include "crossover/lambda.hpp"
#include "mutation/lambda.hpp"
#include <typeinfo>
using namespace gapp; using namespace vh;
struct Alg2 : RunAlgorithm { Alg2() : RunAlgorithm(2) {} };
struct Cross2 : RunCrossover {}; struct Mut2 : RunMutation { Mut2() : RunMutation(0) {} };
struct CfgGA : GA<int> { using GA<int>::GA; mutable int n = 0; Candidate<int> generateCandidate() const override { Candidate<int> c(this->chrom_len()); c.chromosome[0] = n++ % 3; return c; } };
template<typename A, typename B> static bool isA(const B& b) { return typeid(b) == typeid(A); }
struct Expect { bool default_alg = false, default_rate = false; double rate = 0.5, cross_rate = 1.0; int mut = 0, cross = 0, stop = 0; }; // mut: 0 default type, 1 Mut2, 2 lambda; cross likewise; stop: 0 none, 1 RunStop, 2 lambda
static std::unique_ptr<CfgGA> construct(size_t which, Expect& e) {
  using std::make_unique; using std::unique_ptr; using Alg = algorithm::Algorithm; using Cr = crossover::Crossover<int>; using Mu = mutation::Mutation<int>; using St = stopping::StopCondition;
  switch (which) {
    case 0: e.default_alg = e.default_rate = true; return make_unique<CfgGA>(2);
    case 1: e.default_alg = e.default_rate = true; return make_unique<CfgGA>(2, unique_ptr<Alg>());
    case 2: e.default_rate = true; return make_unique<CfgGA>(2, unique_ptr<Alg>(new Alg2));
    case 3: e.default_rate = true; return make_unique<CfgGA>(2, Alg2());
    case 4: e.default_alg = true; e.mut = e.cross = 1; return make_unique<CfgGA>(2, unique_ptr<Cr>(new Cross2), unique_ptr<Mu>(new Mut2));
    case 5: e.default_alg = true; e.mut = e.cross = 1; e.stop = 1; return make_unique<CfgGA>(2, Cross2(), Mut2(), RunStop());
    case 6: e.default_alg = true; e.mut = e.cross = 1; return make_unique<CfgGA>(2, unique_ptr<Alg>(), unique_ptr<Cr>(new Cross2), unique_ptr<Mu>(new Mut2), unique_ptr<St>());
    case 7: e.mut = e.cross = 1; e.stop = 1; return make_unique<CfgGA>(2, unique_ptr<Alg>(new Alg2), unique_ptr<Cr>(new Cross2), unique_ptr<Mu>(new Mut2), unique_ptr<St>(new RunStop));
    case 8: e.mut = e.cross = 1; return make_unique<CfgGA>(2, Alg2(), Cross2(), Mut2());
    default: e.default_alg = true; e.mut = e.cross = 1; return make_unique<CfgGA>(2, unique_ptr<Cr>(new Cross2), unique_ptr<Mu>(new Mut2), unique_ptr<St>());
  }
}
static const size_t CTORS = 10, SETTERS = 15;
static bool g_stopcall;
static void set(CfgGA& ga, size_t which, Expect& e) {
  switch (which) {
    case 0: break;
    case 1: ga.algorithm(nullptr); e.default_alg = true; break;
    case 2: ga.algorithm(std::unique_ptr<algorithm::Algorithm>()); e.default_alg = true; break;
    case 3: ga.algorithm(Alg2()); e.default_alg = false; break;
    case 4: ga.algorithm(std::unique_ptr<algorithm::Algorithm>(new Alg2)); e.default_alg = false; break;
    case 5: ga.mutation_rate(0.25); e.default_rate = false; e.rate = 0.25; break;
    case 6: ga.mutation_method(Mut2()); e.default_rate = false; e.rate = 0.5; e.mut = 1; break;
    case 7: ga.mutation_method(std::unique_ptr<mutation::Mutation<int>>(new Mut2)); e.default_rate = false; e.rate = 0.5; e.mut = 1; break;
    case 8: ga.mutation_method([](const GA<int>&, const Candidate<int>&, Chromosome<int>&) {}); e.default_rate = true; e.mut = 2; break;
    case 9: ga.crossover_rate(0.75); e.cross_rate = 0.75; break;
    case 10: ga.crossover_method(Cross2()); e.cross_rate = 1.0; e.cross = 1; break;
    case 11: ga.crossover_method([](const GA<int>&, const Candidate<int>& a, const Candidate<int>& b) { return CandidatePair<int>{ a, b }; }); e.cross_rate = 0.8; e.cross = 2; break;
    case 12: ga.stop_condition(nullptr); e.stop = 0; break;
    case 13: ga.stop_condition(RunStop()); e.stop = 1; break;
    default: ga.stop_condition([](const GaInfo&) { g_stopcall = true; return true; }); e.stop = 2;
  }
}
static void run(CfgGA& ga, Run& r, Expect& e, size_t nobj, size_t len) {
  r = Run(); r.nobj = nobj; r.stop_at = 0; for (size_t g = 0; g < 3; g++) { r.table[g][0] = (double)g; r.table[g][1] = -(double)(g * g); }
  g_stopcall = false; size_t gens = 0; ga.on_generation_end([&](const GaInfo&) { gens++; }); ga.solve(std::make_unique<RunFitness>(false, len), e.stop ? 2 : 1);
  if (e.default_alg) { sym_assert(isA<algorithm::SingleObjective>(ga.algorithm()) == (nobj == 1) && isA<algorithm::NSGA3>(ga.algorithm()) == (nobj > 1), "the default algorithm fits the number of objectives"); }
  else sym_assert(isA<Alg2>(ga.algorithm()), "the algorithm that was set is used");
  if (e.default_rate) e.rate = 1.0 / (double)(len + 1);
  sym_assert(ga.mutation_rate() == e.rate, e.default_rate ? "the default mutation rate is the one for the chromosome length of the run" : "the mutation rate that was set is used"); sym_assert(ga.crossover_rate() == e.cross_rate, "the crossover rate that was set is used");
  sym_assert(isA<Mut2>(ga.mutation_method()) == (e.mut == 1) && isA<mutation::Lambda<int>>(ga.mutation_method()) == (e.mut == 2), "the mutation method that was set is used");
  sym_assert(isA<Cross2>(ga.crossover_method()) == (e.cross == 1) && isA<crossover::Lambda<int>>(ga.crossover_method()) == (e.cross == 2), "the crossover method that was set is used");
  sym_assert(r.stop_calls == (e.stop == 1) && g_stopcall == (e.stop == 2) && gens == 1, "the stop condition that was set is used"); sym_assert(ga.chrom_len() == len && ga.num_objectives() == nobj && ga.population_size() == 2, "the run uses the fitness function that was given");
}
struct MetricA : metrics::Monitor<MetricA, std::vector<int>> { int tag; MetricA(int t = 1) : tag(t) {} void update(const GaInfo&) override { data_.push_back(tag); } };
struct MetricB : metrics::Monitor<MetricB, std::vector<int>> { int tag; MetricB(int t = 2) : tag(t) {} void update(const GaInfo&) override { data_.push_back(tag); } };
struct MetricC : metrics::Monitor<MetricC, std::vector<int>> { void update(const GaInfo&) override { data_.push_back(3); } };
extern "C" void harness() {
  Run r; g_run = &r; Expect e;
  if (MODE == 2) {
    auto ga = construct(8, e); ga->on_generation_end([](const GaInfo&) {});
    size_t t = sym_choice("tracked", 5), u = sym_choice("tracked again", 5);
    auto track = [&](size_t w) { switch (w) { case 0: ga->track(); break; case 1: ga->track(MetricA(7)); break; case 2: ga->track(MetricB(8)); break; case 3: ga->track(MetricA(7), MetricB(8)); break; default: ga->track(MetricB(8), MetricC(), MetricA(7)); } };
    auto check = [&](size_t w, size_t gens) { bool a = w == 1 || w >= 3, b = w >= 2, c = w == 4;
      sym_assert((ga->get_metric_if<MetricA>() != nullptr) == a && (ga->get_metric_if<MetricB>() != nullptr) == b && (ga->get_metric_if<MetricC>() != nullptr) == c, "exactly the tracked metrics are available");
      if (a) { auto& m = ga->get_metric<MetricA>(); sym_assert(m.tag == 7 && m.size() == gens, "a tracked metric has a value for every generation of the last run"); for (size_t i = 0; i < gens; i++) sym_assert(m[i] == 7, "a metric holds its own values"); }
      if (b) { auto& m = ga->get_metric<MetricB>(); sym_assert(m.tag == 8 && m.size() == gens, "a tracked metric has a value for every generation of the last run"); for (size_t i = 0; i < gens; i++) sym_assert(m[i] == 8, "a metric holds its own values"); } };
    track(t); check(t, 0); r.table[1][0] = 1; ga->solve(std::make_unique<RunFitness>(false, 1), 2); check(t, 2); ga->solve(std::make_unique<RunFitness>(false, 1), 1); check(t, 1); track(u); check(u, 0); ga->solve(std::make_unique<RunFitness>(false, 1), 3); check(u, 3);
  } else {
    auto ga = construct(sym_choice("constructor", CTORS), e); set(*ga, sym_choice("setter", SETTERS), e);
    if (MODE == 3) set(*ga, sym_choice("setter", SETTERS), e);
    run(*ga, r, e, MODE == 1 ? 1 + sym_choice("objectives", 2) : 1, 1);
    if (MODE == 0) { set(*ga, sym_choice("setter", SETTERS), e); run(*ga, r, e, 1, 3); } else run(*ga, r, e, 2, 2);
  }
  sym_reach("end");
}
