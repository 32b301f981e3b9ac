// Shared helpers of the harnesses (oracles are written without branches on symbolic data, so that they do not fork).
#pragma once
#include "sym.h"
#include "core/population.hpp"
#include "core/candidate.hpp"
#include "utility/math.hpp"
#include <vector>
#include <span>
namespace vh {
  using namespace gapp;
  inline bool And(bool a, bool b) { return sym_and(a, b); }
  inline bool Or(bool a, bool b) { return sym_or(a, b); }
  inline bool Implies(bool a, bool b) { return sym_or(!a, b); }
  // x dominates y (maximisation, exact comparisons)
  template<typename X, typename Y> inline bool dominates(const X& x, const Y& y, size_t n) { bool ge = true, gt = false; for (size_t k = 0; k < n; k++) { ge = And(ge, x[k] >= y[k]); gt = Or(gt, x[k] > y[k]); } return And(ge, gt); }
  inline FitnessMatrix gridMatrix(size_t rows, size_t cols, int lo, int hi) { FitnessMatrix m(rows, cols); for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) m(i, j) = sym_grid("f", lo, hi); return m; }
  // bit i set: row i is dominated by nobody
  template<typename M> inline void nondominated(const M& m, size_t rows, size_t cols, bool* nd) { for (size_t i = 0; i < rows; i++) { bool d = false; for (size_t j = 0; j < rows; j++) if (j != i) d = Or(d, dominates(m[j], m[i], cols)); nd[i] = !d; } }
  // the label of one of several possible outcomes
  inline const char* named(const char* w, size_t a, size_t b = 0, size_t d = 0) { static char t[64]; size_t n = 0; while (w[n]) { t[n] = w[n]; n++; } for (size_t x : {a, b, d}) { t[n++] = ' '; t[n++] = char('0' + x); } t[n] = 0; return t; }
}
