// PROPERTY: P24
// SOURCES:
// BOUNDS: capacities 0..3; sequences of 3 (quick) / 4 (thorough) operations (single and range insertions of keys in 0..3 with symbolic values, reset to another capacity, clear, copy, move, swap), keys symbolic
// ASSUME: range insertions longer than the capacity have no repeated keys and none that is already present
// REACH: end
// CONFIG: quick ops2 -DOPS=2
// CONFIG: quick keys4 -DOPS=4 -DINSONLY=1
// CONFIG: thorough ops3 -DOPS=3 heavy=1
// CONFIG: thorough keys5 -DOPS=5 -DINSONLY=1 heavy=1
#include "common.hpp"
#include "utility/cache.hpp"
#ifndef INSONLY
#define INSONLY 0
#endif
using namespace gapp; using namespace vh; using Cache = detail::fifo_cache<int, int>;
// reference: the keys in insertion order
struct Model { size_t cap = 0, n = 0; int k[16], v[16];
  int find(int key) const { for (size_t i = 0; i < n; i++) if (k[i] == key) return int(i); return -1; }
  void put(int key, int val, bool overwrite) { if (!cap) return; int i = find(key); if (i >= 0) { if (overwrite) v[i] = val; return; } if (n == cap) { for (size_t j = 1; j < n; j++) { k[j - 1] = k[j]; v[j - 1] = v[j]; } n--; } k[n] = key; v[n++] = val; } };
static void same(Cache& c, const Model& m) {
  sym_assert(c.size() == m.n, "the size agrees with the reference"); sym_assert(c.capacity() == m.cap, "the capacity agrees with the reference"); sym_assert(c.empty() == (m.n == 0), "empty() agrees with the reference");
  const Cache& cc = c;
  for (int key = 0; key < 5; key++) { int i = m.find(key); const int* p = cc.get(key); int* q = c.get(key); sym_assert(c.contains(key) == (i >= 0), "contains exactly the most recently added keys"); sym_assert((p != nullptr) == (i >= 0) && p == q, "get finds exactly the most recently added keys"); if (i >= 0 && p) sym_assert(*p == m.v[i], "get returns the value stored last for the key"); }
}
static int fresh() { return int(sym_bits("v", 32)); }
static void op(Cache& c, Model& m, size_t o) {
  switch (o) {
  case 0: { int k = int(sym_choice("key", 4)), v = fresh(); c.insert(k, v); m.put(k, v, true); break; }
  case 1: { int k = int(sym_choice("key", 4)), v = fresh(); c.try_insert(k, v); m.put(k, v, false); break; }
  case 2: { size_t len = sym_choice("count", 5); int ks[4], vs[4]; for (size_t i = 0; i < len; i++) { ks[i] = int(sym_choice("key", 4)); vs[i] = fresh(); if (len > m.cap) { sym_assume(m.find(ks[i]) < 0); for (size_t j = 0; j < i; j++) sym_assume(ks[i] != ks[j]); } }
    c.insert(ks, ks + len, [&](const int& k) { return vs[&k - ks]; }); for (size_t i = 0; i < len; i++) m.put(ks[i], vs[i], true); break; }
  case 3: { size_t n = sym_choice("capacity", 4); c.reset(n); m.cap = n; m.n = 0; break; }
  case 4: c.clear(); m.n = 0; break;
  case 5: { Cache d(c); sym_assert(d == c, "a copy is equal"); same(d, m); int k = int(sym_choice("key", 4)), v = fresh(); Model m2 = m; d.insert(k, v); m2.put(k, v, true); same(d, m2); same(c, m); bool eq = m.n == m2.n; for (size_t i = 0; i < m.n && eq; i++) eq = m.k[i] == m2.k[i] && m.v[i] == m2.v[i]; sym_assert((c == d) == eq, "caches with the same keys and values in the same order are equal"); c = d; m = m2; break; }
  case 6: { Cache d(std::move(c)); same(d, m); c = std::move(d); break; }
  case 7: { Cache d(2); d.insert(3, 7); c.swap(d); same(d, m); m.cap = 2; m.n = 1; m.k[0] = 3; m.v[0] = 7; break; }
  }
}
extern "C" void harness() {
  size_t live = sym_heap_live();
  { Model m; m.cap = sym_choice("capacity", 4); Cache c(m.cap); same(c, m);
    if (INSONLY) switch (sym_choice("start", 3)) { case 1: { size_t n = sym_choice("capacity", 4); c.reset(n); m.cap = n; break; } case 2: { Cache d(c); c = d; } }
    for (int i = 0; i < OPS; i++) { op(c, m, INSONLY ? (i == OPS - 1 ? sym_choice("op", 3) : 0) : sym_choice("op", 8)); same(c, m); } }
  sym_assert(sym_heap_live() == live, "no memory is leaked");
  sym_reach("end");
}
