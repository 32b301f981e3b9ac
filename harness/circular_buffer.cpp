// PROPERTY: P34
// SOURCES:
// BOUNDS: capacity 1..3, any number of elements 0..capacity starting at every internal offset, then 2 (quick) / 3 (thorough) operations, symbolic element values, heap-owning element type; one operation with an allocation failure injected at every allocation
// ASSUME: pop/front/back only on non-empty buffers
// REACH: end
// CONFIG: quick ops_2 -DOPS=2
// CONFIG: quick faults_1 -DOPS=1 -DFAULTS=1 -DTHROWMOVE=1
// CONFIG: thorough ops_3 -DOPS=3 heavy=1 time=3000
#include "common.hpp"
#include "utility/circular_buffer.hpp"
#ifndef FAULTS
#define FAULTS 0
#endif
#ifndef THROWMOVE
#define THROWMOVE 0
#endif
using namespace gapp;
struct Elem {
  int* p; Elem(int v) : p(new int(v)) {} Elem(const Elem& o) : p(new int(*o.p)) {}
#if THROWMOVE
  Elem(Elem&& o) : p(new int(*o.p)) {} Elem& operator=(Elem&& o) { int* q = new int(*o.p); delete p; p = q; return *this; }
#else
  Elem(Elem&& o) noexcept : p(o.p) { o.p = nullptr; } Elem& operator=(Elem&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
#endif
  Elem& operator=(const Elem& o) { if (this != &o) { int* q = new int(*o.p); delete p; p = q; } return *this; }
  ~Elem() { delete p; }
};
using Buf = detail::circular_buffer<Elem>;
struct Model { int a[8]; size_t n = 0, cap = 0;
  void back(int v) { if (n == cap) { for (size_t i = 1; i < n; i++) a[i - 1] = a[i]; n--; } a[n++] = v; }
  void front(int v) { if (n == cap) n--; for (size_t i = n; i > 0; i--) a[i] = a[i - 1]; a[0] = v; n++; }
  void popf() { for (size_t i = 1; i < n; i++) a[i - 1] = a[i]; n--; } };
static void same(Buf& b, const Model& m) {
  sym_assert(b.size() == m.n, "size agrees with the reference queue"); sym_assert(b.capacity() == m.cap, "capacity agrees"); sym_assert(b.empty() == (m.n == 0) && b.full() == (m.n == m.cap), "empty() and full() agree");
  for (size_t i = 0; i < m.n; i++) sym_assert(*b[i].p == m.a[i], "elements agree with the reference queue");
  if (m.n) { sym_assert(*b.front().p == m.a[0], "front() is the oldest"); sym_assert(*b.back().p == m.a[m.n - 1], "back() is the newest"); }
  size_t k = 0; for (Elem& e : b) { sym_assert(k < m.n && *e.p == m.a[k], "iteration visits the elements in order"); k++; } sym_assert(k == m.n, "iteration visits every element once");
}
static int fresh() { return int(sym_bits("v", 32)); }
static void op(Buf& b, Model& m) {
  int v = fresh();
  switch (sym_choice("op", 13)) {
  case 0: if (!m.cap) return; b.push_back(Elem(v)); m.back(v); break;
  case 1: if (!m.cap) return; b.push_front(Elem(v)); m.front(v); break;
  case 2: { if (!m.cap) return; auto& r = b.emplace_back(v); sym_assert(*r.p == v, "emplace_back returns the new element"); m.back(v); break; }
  case 3: { if (!m.cap) return; auto& r = b.emplace_front(v); sym_assert(*r.p == v, "emplace_front returns the new element"); m.front(v); break; }
  case 4: if (!m.n) return; b.pop_front(); m.popf(); break;
  case 5: if (!m.n) return; b.pop_back(); m.n--; break;
  case 6: { size_t c = sym_choice("capacity", 4) + 1; b.set_capacity(c); m.cap = c; if (m.n > c) m.n = c; break; }
  case 7: b.clear(); m.n = 0; break;
  case 8: { size_t c = sym_choice("capacity", 4) + 1; b.reset(c); m.n = 0; m.cap = c; break; }
  case 9: { Buf o(b); same(o, m); if (m.cap) { Model x = m; o.emplace_back(v); x.back(v); same(o, x); } break; }
  case 10: { Buf o(std::move(b)); same(o, m); b = std::move(o); break; }
  case 12: { size_t c = sym_choice("capacity", 4) + 1; Buf o(c, b.begin(), b.end()); Model x; x.cap = c; for (size_t i = 0; i < m.n; i++) x.back(m.a[i]); same(o, x); break; } // the last elements that fit
  case 11: { Buf o(2); Model x; x.cap = 2; o.emplace_back(v); x.back(v); b.swap(o); same(o, m); m = x; break; }
  }
}
extern "C" void harness() {
  const uint64_t live = sym_heap_live();
  {
    size_t cap = sym_choice("initial capacity", 3) + 1, off = sym_choice("offset", cap), n = sym_choice("initial size", cap + 1);
    Buf b(cap); Model m; m.cap = cap;
    for (size_t i = 0; i < off; i++) { b.emplace_back(1); b.pop_front(); }
    for (size_t i = 0; i < n; i++) { int v = fresh(); b.emplace_back(v); m.back(v); }
    same(b, m);
#if FAULTS
    // operations with the strong guarantee: the buffer is unchanged when an allocation fails
    sym_alloc_faults(true); Model before = m; bool thrown = false;
    try { switch (sym_choice("fop", 2)) { case 0: { size_t c = sym_choice("capacity", 4) + 1; b.set_capacity(c); m.cap = c; if (m.n > c) m.n = c; break; } case 1: { Buf o(b); break; } } } catch (const std::bad_alloc&) { thrown = true; }
    sym_alloc_faults(false); if (thrown) sym_reach("fault"); if (thrown) m = before; same(b, m);
#else
    for (int i = 0; i < OPS; i++) { op(b, m); same(b, m); }
#endif
  }
  sym_assert(sym_heap_live() == live, "nothing is leaked");
  sym_reach("end");
}
