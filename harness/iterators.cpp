// PROPERTY: P37
// SOURCES:
// BOUNDS: containers of 0..4 elements, every pair of positions and every in-range offset; counting iterators over every 8-bit value (symbolic)
// REACH: end
// CONFIG: quick stable -DKIND=0
// CONFIG: quick iota_u8 -DKIND=1 -DTYPE=uint8_t
// CONFIG: quick iota_u64 -DKIND=1 -DTYPE=uint64_t
// CONFIG: quick matrix_rows -DKIND=2
// CONFIG: quick circular -DKIND=3
#include "common.hpp"
#include "utility/iterators.hpp"
#include "utility/matrix.hpp"
#include "utility/circular_buffer.hpp"
using namespace gapp; using namespace vh;
template<typename It> static void laws(It b, std::ptrdiff_t n, std::ptrdiff_t i, std::ptrdiff_t j, auto val) {
  It x = b + i, y = b + j; It c = b; for (std::ptrdiff_t k = 0; k < i; k++) ++c; sym_assert(x == c, "n increments are an offset by n");
  sym_assert(y - x == j - i, "the difference of two iterators is their signed distance"); sym_assert((x - b) == i, "the distance from the start is the position"); sym_assert(x + (y - x) == y, "advancing by the distance arrives at the other iterator");
  sym_assert((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), "iterators are ordered by position");
  sym_assert(y - (j - i) == x && (j - i) + x == y, "offsets can be added on either side and subtracted"); It z = x; z += j - i; sym_assert(z == y, "compound addition"); z -= j - i; sym_assert(z == x, "compound subtraction");
  if (i < n) { It p = x; It q = p++; sym_assert(q == x && p == x + 1, "post-increment returns the old position"); sym_assert(val(*x, i), "dereferencing yields the element at the position"); It r = ++x; sym_assert(r == p && x == p, "pre-increment returns the new position"); It s = x--; sym_assert(s == p && x == b + i, "post-decrement returns the old position"); ++x; --x; sym_assert(x == b + i, "decrement undoes increment"); if (j < n) sym_assert(val(x[j - i], j), "indexing is relative to the position"); }
}
extern "C" void harness() {
#if KIND == 0
  size_t n = sym_choice("size", 5), i = sym_choice("i", n + 1), j = sym_choice("j", n + 1); std::vector<int> v(n), w; for (auto& x : v) x = int(sym_bits("v", 32)); w = v; auto val = [&](const int& x, std::ptrdiff_t k) { return &x == &v[k]; };
  laws(detail::stable_begin(v), n, i, j, val); laws(detail::stable_cbegin(v), n, i, j, val); laws(detail::stable_begin(std::as_const(v)), n, i, j, val);
  sym_assert(detail::stable_begin(v) + n == detail::stable_end(v) && detail::stable_cbegin(v) + n == detail::stable_cend(v), "the end is size() elements after the beginning");
  auto it = detail::stable_begin(v) + i; auto ci = detail::const_stable_iterator<std::vector<int>>(it); sym_assert(ci - detail::stable_cbegin(v) == std::ptrdiff_t(i), "conversion to a constant iterator keeps the position");
  v.reserve(v.capacity() + 100); v.push_back(5); if (i < n) sym_assert(&*it == &v[i] && And(*it == w[i], *ci == w[i]), "a stable iterator survives a reallocation");
#elif KIND == 1
  using I = detail::iota_iterator<TYPE>; TYPE a = (TYPE)sym_bits("first", 8 * sizeof(TYPE)), b = (TYPE)sym_bits("second", 8 * sizeof(TYPE)); using D = typename I::difference_type; constexpr TYPE mx = std::numeric_limits<TYPE>::max(); constexpr TYPE half = mx / 2;
  I x(a), y(b); sym_assert(*x == a, "a counting iterator yields its value"); sym_assert((x == y) == (a == b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "counting iterators are ordered by value");
  TYPE dist = a < b ? b - a : a - b; sym_assume(dist <= half); D d = a < b ? D(dist) : D(-D(dist)); sym_assert(y - x == d, "the difference of counting iterators is the difference of their values"); sym_assert(x + d == y, "advancing by the distance arrives at the other iterator"); sym_assert(y - d == x, "offsets can be subtracted"); sym_assert(x[d] == b, "indexing is relative to the position");
  if (a != mx) { I p = x; I q = p++; sym_assert(*q == a && *p == TYPE(a + 1), "post-increment"); I r = x; sym_assert(*++r == TYPE(a + 1), "pre-increment"); sym_assert(*--r == a, "pre-decrement"); }
#elif KIND == 2
  size_t n = 1 + sym_choice("size", 3), i = sym_choice("i", n + 1), j = sym_choice("j", n + 1); detail::Matrix<int> m(n, 2); for (size_t r = 0; r < n; r++) for (size_t c = 0; c < 2; c++) m(r, c) = int(sym_bits("v", 32)); auto val = [&](const auto& row, std::ptrdiff_t k) { return row.begin() == m[k].begin() && row.size() == 2; };
  laws(m.begin(), n, i, j, val); laws(std::as_const(m).begin(), n, i, j, val);
#else
  detail::circular_buffer<int> c(3); size_t k = sym_choice("pushed", 6); for (size_t i = 0; i < k; i++) c.push_back(int(sym_bits("v", 32))); size_t n = c.size(), i = sym_choice("i", n + 1), j = sym_choice("j", n + 1); auto val = [&](const int& x, std::ptrdiff_t q) { return &x == &c[q]; };
  laws(c.begin(), n, i, j, val); laws(std::as_const(c).begin(), n, i, j, val);
#endif
  sym_reach("end");
}
