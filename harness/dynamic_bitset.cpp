// PROPERTY: P35
// SOURCES:
// BOUNDS: sizes 0, 1, 3, 63, 64, 65, 128, 130 (0..300 in blocks of interest), symbolic contents of the bits at the block boundaries, one (quick) / two (thorough) size changes among those sizes with either fill value
// ASSUME: indices are in range
// REACH: end
// CONFIG: quick resize_1 -DRESIZES=1
// CONFIG: thorough resize_2 -DRESIZES=2 heavy=1 time=3000
#include "common.hpp"
#include "utility/dynamic_bitset.hpp"
using namespace gapp;
static const size_t sizes[] = { 0, 1, 3, 63, 64, 65, 128, 130 };
struct Model { bool b[300]; size_t n; };
static void bits(const detail::dynamic_bitset& s, const Model& m) {
  sym_assert(s.size() == m.n && s.empty() == (m.n == 0), "size agrees");
  bool ok = true; for (size_t i = 0; i < m.n; i++) ok = sym_and(ok, bool(s[i]) == m.b[i]);
  sym_assert(ok, "every bit agrees with the reference");
}
static void same(const detail::dynamic_bitset& s, const Model& m) {
  bits(s, m); bool any = false, all = true; size_t cnt = 0; for (size_t i = 0; i < m.n; i++) { any = sym_or(any, m.b[i]); all = sym_and(all, m.b[i]); cnt += m.b[i]; }
  sym_assert(s.any_set() == any, "any_set agrees"); sym_assert(s.none_set() == !any, "none_set agrees"); sym_assert(s.all_set() == all, "all_set agrees"); sym_assert(s.popcount() == cnt, "popcount agrees");
  size_t f1 = m.n, f0 = m.n; for (size_t i = m.n; i-- > 0;) { f1 = sym_ite(m.b[i], i, f1); f0 = sym_ite(m.b[i], f0, i); }
  sym_assert(s.find_first(true) == f1, "find_first(true) agrees"); sym_assert(s.find_first(false) == f0, "find_first(false) agrees");
}
extern "C" void harness() {
  size_t n = sizes[sym_choice("size", 8)]; Model m; m.n = n;
  detail::dynamic_bitset s = [&] { switch (sym_choice("ctor", 2)) { case 0: { for (size_t i = 0; i < n; i++) m.b[i] = false; return detail::dynamic_bitset(n); } default: { bool v = sym_choice("fill", 2); for (size_t i = 0; i < n; i++) m.b[i] = v; return detail::dynamic_bitset(n, v); } } }();
  if (!sym_choice("resize?", 2)) { same(s, m); sym_reach("end"); return; }
  for (size_t i = 0; i < n; i++) if (i < 1 || i >= n - 1 || i == 64) { bool v = sym_bits("bit", 1); s[i] = v; m.b[i] = v; }
  if (n) { size_t i = sym_choice("flip", 2) ? n - 1 : 0; s[i].flip(); m.b[i] = !m.b[i]; }
  if (n > 1 && sym_choice("assign bit", 2)) { s[0] = s[n - 1]; m.b[0] = m.b[n - 1]; }
  bits(s, m);
  for (int r = 0; r < RESIZES; r++) { size_t k = sizes[sym_choice("resize", 8)]; bool v = sym_choice("value", 2); s.resize(k, v); for (size_t i = m.n; i < k; i++) m.b[i] = v; m.n = k; bits(s, m); }
  switch (sym_choice("op", 4)) {
  case 0: { bool v = sym_choice("value", 2); s.fill(v); for (size_t i = 0; i < m.n; i++) m.b[i] = v; break; }
  case 1: { s = ~s; for (size_t i = 0; i < m.n; i++) m.b[i] = !m.b[i]; break; }
  case 2: { detail::dynamic_bitset t(m.n); bool eq = true; for (size_t i = 0; i < m.n; i++) { t[i] = m.b[i]; } sym_assert(t == s, "bitsets with equal bits are equal"); if (m.n) { t[m.n - 1].flip(); sym_assert(!(t == s), "bitsets with different bits differ"); } break; }
  case 3: s.clear(); m.n = 0; break;
  }
  same(s, m);
  sym_reach("end");
}
