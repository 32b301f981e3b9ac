// PROPERTY: P36
// SOURCES:
// BOUNDS: matrices of 0..3 rows and 0..3 columns with symbolic elements; every operation on every row, column and target size
// ASSUME: an appended row does not alias the matrix
// REACH: end
// CONFIG: quick int_2op -DELEM=int -DOPS=1
// CONFIG: quick double_1op -DELEM=double -DOPS=1
// CONFIG: thorough int_3op -DELEM=int -DOPS=2
#include "common.hpp"
#include "utility/matrix.hpp"
using namespace gapp; using namespace vh; using Mat = detail::Matrix<ELEM>; using T = ELEM;
static T fresh() { return (T)int(sym_bits("v", 16)); }
struct Model { T a[8][8]; size_t r = 0, c = 0; };
static void same(Mat& m, const Model& q) {
  const Mat& k = m; sym_assert(m.size() == q.r && m.nrows() == q.r, "the number of rows agrees"); sym_assert(m.empty() == (q.r == 0 || q.c == 0), "empty() agrees"); if (!q.r) return; sym_assert(m.ncols() == q.c, "the number of columns agrees");
  for (size_t i = 0; i < q.r; i++) { sym_assert(m[i].size() == q.c && k[i].ncols() == q.c, "every row has the row length"); auto row = k[i]; std::vector<T> v = row; small_vector<T> s = row; std::span<const T> sp = row; sym_assert(v.size() == q.c && s.size() == q.c && sp.size() == q.c, "a converted row has the row length");
    for (size_t j = 0; j < q.c; j++) { sym_assert(And(k(i, j) == q.a[i][j], And(k[i][j] == q.a[i][j], And(m[i][j] == q.a[i][j], *(m[i].begin() + j) == q.a[i][j]))), "every element agrees with the reference"); sym_assert(And(v[j] == q.a[i][j], And(s[j] == q.a[i][j], sp[j] == q.a[i][j])), "a converted row agrees with the reference"); sym_assert(k.data() + i * q.c + j == &k(i, j), "elements are stored row by row"); } }
  for (size_t j = 0; j < q.c; j++) { auto col = k.column(j); sym_assert(col.size() == q.r, "a column has one element per row"); for (size_t i = 0; i < q.r; i++) sym_assert(col[i] == q.a[i][j], "a column agrees with the reference"); }
  sym_assert(size_t(std::distance(k.begin(), k.end())) == q.r, "iteration visits every row"); size_t n = 0; for (const auto& row : k) { for (size_t j = 0; j < q.c; j++) sym_assert(row[j] == q.a[n][j], "iteration visits the rows in order"); n++; } sym_assert(n == q.r, "iteration visits every row");
  n = q.r; for (auto it = k.rbegin(); it != k.rend(); ++it) { n--; sym_assert((*it)[0] == q.a[n][0], "reverse iteration visits the rows in reverse order"); }
  sym_assert(And(k.front()[0] == q.a[0][0], k.back()[0] == q.a[q.r - 1][0]), "front and back are the first and last rows");
}
static Mat make(Model& q) { Mat m(q.r, q.c); for (size_t i = 0; i < q.r; i++) for (size_t j = 0; j < q.c; j++) m(i, j) = q.a[i][j] = fresh(); return m; }
extern "C" void harness() {
  Model q; q.r = sym_choice("rows", 4); q.c = sym_choice("cols", 4); if (q.r == 0 || q.c == 0) q.r = q.c = 0; Mat m = make(q); same(m, q);
  for (int o = 0; o < OPS; o++) switch (sym_choice("op", 13)) {
  case 0: { size_t len = q.r ? q.c : 1 + sym_choice("len", 3); T row[4]; for (size_t j = 0; j < len; j++) row[j] = q.a[q.r][j] = fresh(); m.append_row(std::span<const T>(row, len)); q.r++; q.c = len; break; }
  case 1: if (q.r) { m.pop_back(); q.r--; } break;
  case 2: { size_t n = sym_choice("rows", 4); T v = fresh(); if (!q.c) break; m.resize(n, q.c, v); for (size_t i = q.r; i < n; i++) for (size_t j = 0; j < q.c; j++) q.a[i][j] = v; q.r = n; break; }
  case 3: m.clear(); q.r = q.c = 0; break;
  case 4: { Mat d = m; sym_assert(d == m, "a copy is equal"); same(d, q); if (q.r) { d(0, 0) = fresh(); sym_assert((d == m) == (d(0, 0) == q.a[0][0]), "matrices are equal exactly if their elements are"); } break; }
  case 5: { Mat d(std::move(m)); same(d, q); m = std::move(d); break; }
  case 6: { Model p; p.r = 1 + sym_choice("rows2", 2); p.c = 1 + sym_choice("cols2", 2); Mat d = make(p); bool e = p.r == q.r && p.c == q.c; if (e) for (size_t i = 0; i < p.r; i++) for (size_t j = 0; j < p.c; j++) e = And(e, p.a[i][j] == q.a[i][j]); sym_assert((d == m) == e, "matrices are equal exactly if their sizes and elements are"); if (p.c == q.c) { const Mat &u = m, &v = d; for (size_t i = 0; i < q.r; i++) for (size_t j = 0; j < p.r; j++) { bool f = true; for (size_t t = 0; t < q.c; t++) f = And(f, q.a[i][t] == p.a[j][t]); sym_assert((u[i] == v[j]) == f && (m[i] == d[j]) == f, "rows of different matrices are equal exactly if their elements are"); } } swap(m, d); same(d, q); q = p; break; }
  case 7: { if (q.r < 2) break; size_t i = sym_choice("row", q.r), j = sym_choice("row2", q.r); if (i != j) swap(m[i], m[j]); for (size_t t = 0; t < q.c; t++) { T x = q.a[i][t]; q.a[i][t] = q.a[j][t]; q.a[j][t] = x; } break; }
  case 8: { if (!q.r) break; size_t i = sym_choice("row", q.r), j = sym_choice("row2", q.r); const Mat& k = m; if (sym_choice("const", 2)) m[i] = k[j]; else m[i] = m[j]; for (size_t t = 0; t < q.c; t++) q.a[i][t] = q.a[j][t]; sym_assert(m[i] == m[j], "assigned rows are equal"); break; }
  case 9: { if (!q.r) break; size_t i = sym_choice("row", q.r); std::vector<T> v(q.c); for (auto& x : v) x = fresh(); bool e = true; for (size_t t = 0; t < q.c; t++) e = And(e, v[t] == q.a[i][t]); sym_assert((m[i] == v) == e, "a row equals a vector exactly if their elements are equal"); m[i] = std::span<const T>(v); for (size_t t = 0; t < q.c; t++) q.a[i][t] = v[t]; break; }
  case 10: { if (!q.r) break; size_t i = sym_choice("row", q.r); std::vector<T> v(q.c), w; for (auto& x : v) x = fresh(); w = v; m[i].swap(std::span<T>(v)); for (size_t t = 0; t < q.c; t++) { sym_assert(v[t] == q.a[i][t], "swapping exchanges the elements"); q.a[i][t] = w[t]; } break; }
  case 11: { if (q.r < 2) break; size_t a = sym_choice("from", q.r), n = 1 + sym_choice("count", q.r - a); const Mat& k = m; Mat d(k.begin() + a, k.begin() + a + n); Model p; p.r = n; p.c = q.c; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < q.c; j++) p.a[i][j] = q.a[a + i][j]; same(d, p); break; }
  case 12: { if (q.r < 2) break; size_t i = sym_choice("row", q.r), j = sym_choice("row2", q.r); bool e = true; for (size_t t = 0; t < q.c; t++) e = And(e, q.a[i][t] == q.a[j][t]); const Mat& k = m; sym_assert((k[i] == k[j]) == e, "rows are equal exactly if their elements are"); break; }
  }
  same(m, q); sym_reach("end");
}
