// PROPERTY: P33
// SOURCES:
// BOUNDS: inline capacity 2, initial size 0..4 (inline and heap storage), then 1 (quick) / 2 (thorough) operations with every position and count up to 3, element values symbolic 32-bit; element types: trivially copyable int and a heap-owning type; allocation failure injected at every allocation of one operation
// ASSUME: arguments do not alias elements of the vector; iterators passed are valid
// REACH: end
// CONFIG: quick owning_1op -DOPS=1 -DELEM=1
// CONFIG: quick int_1op -DOPS=1 -DELEM=0
// CONFIG: quick faults_1op -DOPS=1 -DELEM=1 -DFAULTS=1
// CONFIG: thorough owning_2op -DOPS=2 -DELEM=1 heavy=1 time=3000
// CONFIG: thorough int_2op -DOPS=2 -DELEM=0 heavy=1 time=3000
#include "common.hpp"
#include "utility/small_vector.hpp"
#include <initializer_list>
#ifndef FAULTS
#define FAULTS 0
#endif
using namespace gapp;
static int g_live = 0;
#if ELEM
struct Elem {
  int* p;
  Elem() : p(new int(0)) { g_live++; } Elem(int v) : p(new int(v)) { g_live++; }
  Elem(const Elem& o) : p(new int(*o.p)) { g_live++; } Elem(Elem&& o) noexcept : p(o.p) { o.p = nullptr; g_live++; }
  Elem& operator=(const Elem& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; }
  Elem& operator=(Elem&& o) noexcept { int* q = o.p; o.p = nullptr; if (this == &o) { delete q; return *this; } delete p; p = q; return *this; } // loses its value when it is moved to itself
  ~Elem() { delete p; g_live--; }
  int get() const { return *p; }
  bool operator==(const Elem& o) const { return *p == *o.p; } auto operator<=>(const Elem& o) const { return *p <=> *o.p; }
};
static int val(const Elem& e) { return e.get(); }
#else
using Elem = int;
static int val(const Elem& e) { return e; }
#endif
using Vec = small_vector<Elem, 2>;
struct Model { int a[24]; size_t n = 0;
  void ins(size_t pos, size_t k, const int* v) { for (size_t i = n; i > pos; i--) a[i - 1 + k] = a[i - 1]; for (size_t i = 0; i < k; i++) a[pos + i] = v[i]; n += k; }
  void del(size_t pos, size_t k) { for (size_t i = pos; i + k < n; i++) a[i] = a[i + k]; n -= k; } };
static void same(const Vec& v, const Model& m) {
  sym_assert(v.size() == m.n, "size agrees with the reference sequence"); sym_assert(v.capacity() >= v.size(), "capacity covers the size"); sym_assert(v.empty() == (m.n == 0), "empty() agrees");
  for (size_t i = 0; i < m.n; i++) sym_assert(val(v[i]) == m.a[i], "elements agree with the reference sequence");
}
static int fresh() { return int(sym_bits("v", 32)); }
struct InIt { using value_type = int; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag; using iterator_category = std::input_iterator_tag; using reference = int; using pointer = const int*; const int* p; int operator*() const { return *p; } InIt& operator++() { ++p; return *this; } InIt operator++(int) { InIt t = *this; ++p; return t; } bool operator==(const InIt& o) const { return p == o.p; } };
static void op(Vec& v, Model& m) {
  size_t k = sym_choice("op", 23); int t[3] = { fresh(), fresh(), fresh() };
  auto pos = [&] { return size_t(sym_choice("pos", m.n + 1)); };
  Elem src[3] = { Elem(t[0]), Elem(t[1]), Elem(t[2]) };
  switch (k) {
  case 0: { v.push_back(src[0]); m.ins(m.n, 1, t); break; }
  case 1: { auto& r = v.emplace_back(t[0]); sym_assert(&r == &v.back(), "emplace_back returns the new element"); m.ins(m.n, 1, t); break; }
  case 2: { size_t p = pos(); auto it = v.emplace(v.begin() + p, t[0]); sym_assert(size_t(it - v.begin()) == p, "emplace returns the position"); m.ins(p, 1, t); break; }
  case 3: { size_t p = pos(), c = sym_choice("count", 4); int w[3] = { t[0], t[0], t[0] }; auto it = v.insert(v.begin() + p, c, src[0]); sym_assert(size_t(it - v.begin()) == p, "insert returns the position"); m.ins(p, c, w); break; }
  case 4: { size_t p = pos(), c = sym_choice("count", 4); auto it = v.insert(v.begin() + p, src, src + c); sym_assert(size_t(it - v.begin()) == p, "insert returns the position"); m.ins(p, c, t); break; }
  case 5: { size_t p = pos(), c = sym_choice("count", 4); auto it = v.insert(v.begin() + p, InIt{ .p = t }, InIt{ .p = t + c }); sym_assert(size_t(it - v.begin()) == p, "insert returns the position"); m.ins(p, c, t); break; }
  case 6: { size_t p = pos(); size_t c = sym_choice("count", m.n - p + 1); auto it = v.erase(v.begin() + p, v.begin() + p + c); sym_assert(size_t(it - v.begin()) == p, "erase returns the position"); m.del(p, c); break; }
  case 7: { if (!m.n) return; v.pop_back(); m.n--; break; }
  case 8: { size_t c = sym_choice("count", 7); v.resize(c); for (size_t i = m.n; i < c; i++) m.a[i] = 0; m.n = c; break; }
  case 9: { size_t c = sym_choice("count", 7); v.resize(c, src[0]); for (size_t i = m.n; i < c; i++) m.a[i] = t[0]; m.n = c; break; }
  case 10: { size_t c = sym_choice("count", 6); v.assign(c, src[0]); for (size_t i = 0; i < c; i++) m.a[i] = t[0]; m.n = c; break; }
  case 11: { size_t c = sym_choice("count", 4); v.assign(src, src + c); for (size_t i = 0; i < c; i++) m.a[i] = t[i]; m.n = c; break; }
  case 12: { size_t c = sym_choice("count", 7); v.reserve(c); sym_assert(v.capacity() >= c, "reserve provides the capacity"); break; }
  case 13: v.shrink_to_fit(); break;
  case 14: v.clear(); m.n = 0; break;
  case 15: v.reset(); m.n = 0; break;
  case 16: { size_t c = sym_choice("count", 4); Vec o; Model mo; for (size_t i = 0; i < c; i++) { o.push_back(src[i]); mo.a[mo.n++] = t[i]; } v.swap(o); std::swap(m, mo); same(o, mo); break; }
  case 17: { Vec o(std::move(v)); same(o, m); v = std::move(o); break; }
  case 18: { size_t c = sym_choice("count", 4); Vec o; Model mo; for (size_t i = 0; i < c; i++) { o.push_back(src[i]); mo.a[mo.n++] = t[i]; } if (sym_choice("move", 2)) { v = std::move(o); m = mo; } else { v = o; m = mo; same(o, mo); } break; }
  case 19: { Vec o(v); same(o, m); sym_assert(o.size() == v.size(), "copies are equal"); if (m.n) { o[0] = src[0]; } break; }
  case 20: { size_t c = sym_choice("count", 4); v.assign(InIt{ .p = t }, InIt{ .p = t + c }); for (size_t i = 0; i < c; i++) m.a[i] = t[i]; m.n = c; break; }
  case 22: { size_t c = sym_choice("count", 4); Vec o(src, src + c); bool eq = c == m.n; int ord = 0; for (size_t i = 0; i < c && i < m.n && ord == 0; i++) { eq = eq && m.a[i] == t[i]; ord = m.a[i] < t[i] ? -1 : m.a[i] > t[i]; } if (ord == 0) ord = m.n < c ? -1 : m.n > c;
    sym_assert((v == o) == eq && (o == v) == eq, "vectors are equal exactly if their elements are"); auto r = v <=> o; sym_assert((r < 0) == (ord < 0) && (r > 0) == (ord > 0), "vectors are ordered like their elements"); break; }
  case 21: { size_t c = sym_choice("count", 5); Vec a(c), b(c, src[0]), d(src, src + std::min<size_t>(c, 3)); Model x; x.n = c; for (size_t i = 0; i < c; i++) x.a[i] = 0; same(a, x); for (size_t i = 0; i < c; i++) x.a[i] = t[0]; same(b, x); for (size_t i = 0; i < c && i < 3; i++) x.a[i] = t[i]; x.n = std::min<size_t>(c, 3); same(d, x); break; }
  }
}
extern "C" void harness() {
  const uint64_t live = sym_heap_live();
  {
    Vec v; Model m; size_t n = sym_choice("initial size", 5); for (size_t i = 0; i < n; i++) { int x = fresh(); v.push_back(Elem(x)); m.a[m.n++] = x; }
    if (!FAULTS && sym_choice("extra capacity", 2)) v.reserve(8);
    same(v, m);
#if FAULTS
    sym_alloc_faults(true); bool thrown = false; try { op(v, m); } catch (const std::bad_alloc&) { thrown = true; } sym_alloc_faults(false);
    if (!thrown) same(v, m); else { sym_assert(v.size() <= v.capacity(), "valid after an allocation failure"); sym_reach("fault"); }
#else
    for (int i = 0; i < OPS; i++) { op(v, m); same(v, m); }
#endif
  }
  sym_assert(sym_heap_live() == live, "nothing is leaked"); sym_assert(g_live == 0, "every element is constructed and destroyed once");
  sym_reach("end");
}
