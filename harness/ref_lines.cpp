// PROPERTY: P39
// SOURCES: utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: cube points of 1..4 coordinates on a grid of step 1/8 or 1/16, 1 or 2 points per call; subsets of 1..3 points out of 2..6 candidate points with 2 or 3 coordinates on an integer grid; the generators with their own point sequence for 1..6 dimensions and up to 9 points
// ASSUME: the points of the sequence are in [0, 1)
// REACH: end
// CONFIG: quick sort_2 -DGEN=quasirandomSimplexPointsSort -DDIM=2 -DNPTS=2 -DEXACT=1
// CONFIG: quick sort_4 -DGEN=quasirandomSimplexPointsSort -DDIM=4 -DNPTS=1 -DEXACT=1
// CONFIG: quick mirror_2 -DGEN=quasirandomSimplexPointsMirror -DDIM=2 -DNPTS=2 -DEXACT=1
// CONFIG: quick mirror_3 -DGEN=quasirandomSimplexPointsMirror -DDIM=3 -DNPTS=1 -DEXACT=1
// CONFIG: quick mirror_4 -DGEN=quasirandomSimplexPointsMirror -DDIM=4 -DNPTS=1 -DEXACT=1
// CONFIG: quick root_2 -DGEN=quasirandomSimplexPointsRoot -DDIM=2 -DNPTS=1
// CONFIG: quick root_3 -DGEN=quasirandomSimplexPointsRoot -DDIM=3 -DNPTS=1
// CONFIG: quick log_2 -DGEN=quasirandomSimplexPointsLog -DDIM=2 -DNPTS=1
// CONFIG: quick root_4 -DGEN=quasirandomSimplexPointsRoot -DDIM=4 -DNPTS=1
// CONFIG: quick log_3 -DGEN=quasirandomSimplexPointsLog -DDIM=3 -DNPTS=1
// CONFIG: quick dim_1 -DALL1=1 -DDIM=1 -DNPTS=2
// CONFIG: quick sparse_2 -DSPARSE=2 -DDIM=2 -DMULT=2 -DTOP=3
// CONFIG: quick sparse_1 -DSPARSE=1 -DDIM=2 -DMULT=3 -DTOP=3
// CONFIG: quick sparse_all -DSPARSE=3 -DDIM=2 -DMULT=1 -DTOP=3
// CONFIG: quick sparse_3_1 -DSPARSE=3 -DDIM=1 -DMULT=2 -DTOP=6
// CONFIG: quick sequence -DREALSEQ=1
// CONFIG: thorough sparse_3 -DSPARSE=3 -DDIM=3 -DMULT=2 -DTOP=2 heavy=1
// CONFIG: thorough mirror_5 -DGEN=quasirandomSimplexPointsMirror -DDIM=5 -DNPTS=1 -DEXACT=1 heavy=1
// CONFIG: thorough sort_5 -DGEN=quasirandomSimplexPointsSort -DDIM=5 -DNPTS=1 -DEXACT=1 heavy=1
#include "common.hpp"
#include "utility/qrng.hpp"
#include "utility/functional.hpp"
#include <cmath>
#ifndef REALSEQ
// any point of the unit cube instead of the next point of the low discrepancy sequence
namespace gapp::rng { template<> QuasiRandom<double>::result_type QuasiRandom<double>::operator()() { result_type r; for (size_t i = 0; i < dim_; i++) r.push_back(sym_grid("u", 0, 15) / 16); return r; } }
#endif
#include "algorithm/reference_lines.cpp"
using namespace gapp; using namespace vh; namespace rl = algorithm::reflines;
static void simplex(const FitnessMatrix& m, size_t n, size_t dim, bool exact) {
  sym_assert(m.nrows() == n && (n == 0 || m.ncols() == dim), "as many points are generated as requested, of the requested dimension");
  for (size_t i = 0; i < n; i++) {
    double sum = 0; for (size_t k = 0; k < dim; k++) { sum += m(i, k); sym_assert(And(m(i, k) >= 0, m(i, k) <= 1), "every coordinate is between 0 and 1"); }
    if (exact) sym_assert(sum == 1, "the coordinates of a point sum to one"); else sym_assert(std::abs(sum - 1) < 1e-9, "the coordinates of a point sum to one");
  }
}
#ifdef SPARSE
static FitnessMatrix cand; static size_t asked_dim, asked_n;
static FitnessMatrix source(size_t dim, size_t n) { asked_dim = dim; asked_n = n; return cand; }
static double dist(const FitnessMatrix& a, size_t i, const FitnessMatrix& b, size_t j) { double d = 0; for (size_t k = 0; k < DIM; k++) d += (a(i, k) - b(j, k)) * (a(i, k) - b(j, k)); return d; }
#endif
extern "C" void harness() {
#ifdef SPARSE
  const size_t nc = SPARSE * MULT; cand = gridMatrix(nc, DIM, 0, TOP);
  FitnessMatrix p = rl::pickSparseSubset(DIM, SPARSE, source, MULT);
  sym_assert(asked_dim == DIM && asked_n == nc, "the generator is asked for the requested multiple of the number of points");
  sym_assert(p.nrows() == SPARSE && p.ncols() == DIM, "as many points are picked as requested");
  // every picked point is a candidate, and none is picked more often than it occurs
  for (size_t i = 0; i < SPARSE; i++) { size_t a = 0, b = 0; for (size_t j = 0; j < SPARSE; j++) a += sym_ite(dist(p, i, p, j) == 0, 1, 0); for (size_t j = 0; j < nc; j++) b += sym_ite(dist(p, i, cand, j) == 0, 1, 0); sym_assert(a <= b, "every picked point is one of the candidates, used at most as often as it was generated"); }
  // each point picked is as far from the points picked before as possible: no candidate that is left is farther away
  for (size_t i = 1; i < SPARSE; i++) {
    double own = 1e9; for (size_t j = 0; j < i; j++) { double d = dist(p, i, p, j); own = d < own ? d : own; }
    for (size_t c = 0; c < nc; c++) { double far = 1e9; for (size_t j = 0; j < i; j++) { double d = dist(cand, c, p, j); far = d < far ? d : far; } sym_assert(far <= own, "each picked point is the candidate farthest from the points picked before"); }
  }
  sym_assert(rl::pickSparseSubset(0, SPARSE, source, MULT).empty() && rl::pickSparseSubset(DIM, 0, source, MULT).empty(), "nothing is picked when nothing is requested");
#elif defined(REALSEQ)
  size_t dim = 1 + sym_choice("dim", 6), n = sym_choice("n", 10);
  auto gens = { rl::quasirandomSimplexPointsMirror, rl::quasirandomSimplexPointsSort, rl::quasirandomSimplexPointsRoot, rl::quasirandomSimplexPointsLog };
  for (auto g : gens) { auto m = g(dim, n); simplex(m, n, dim, false); auto again = g(dim, n); for (size_t i = 0; i < n; i++) for (size_t k = 0; k < dim; k++) sym_assert(m(i, k) == again(i, k), "the same points are generated every time"); if (dim > 1) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) { bool same = true; for (size_t k = 0; k < dim; k++) same = same && m(i, k) == m(j, k); sym_assert(!same, "the generated points differ from each other"); } }
  for (auto g : gens) if (n) { auto m = rl::pickSparseSubset(dim, n, g, 3); simplex(m, n, dim, false); }
#elif defined(ALL1)
  simplex(rl::quasirandomSimplexPointsMirror(DIM, NPTS), NPTS, DIM, true); simplex(rl::quasirandomSimplexPointsSort(DIM, NPTS), NPTS, DIM, true); simplex(rl::quasirandomSimplexPointsRoot(DIM, NPTS), NPTS, DIM, true);
#else
#ifdef EXACT
  simplex(rl::GEN(DIM, NPTS), NPTS, DIM, true);
#else
  simplex(rl::GEN(DIM, NPTS), NPTS, DIM, false);
#endif
#endif
  sym_reach("end");
}
