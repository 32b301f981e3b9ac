// Harness primitives. Under the symbolic executor these create symbolic inputs and solver obligations;
// in a native replay the same calls read the values of one counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
  uint64_t sym_bits(const char* name, unsigned bits) noexcept;
  int64_t sym_range(const char* name, int64_t lo, int64_t hi) noexcept;          // lo <= x <= hi
  uint64_t sym_choice(const char* name, uint64_t n) noexcept;                     // 0 <= x < n, one path per value
  double sym_grid(const char* name, int64_t lo, int64_t hi) noexcept;             // integer-valued double
  double sym_double(const char* name) noexcept;                                   // any bit pattern
  double sym_double_in(const char* name, double lo, double hi) noexcept;          // finite, lo <= x <= hi
  void sym_assume(bool c) noexcept;
  void sym_assert(bool c, const char* label) noexcept;
  void sym_reach(const char* label) noexcept;
  void sym_possible(bool c, const char* label) noexcept; // violated if no path within the bounds can satisfy c
  uint64_t sym_concretize(uint64_t v) noexcept;
  int64_t sym_min(int64_t v) noexcept;                                            // bounds of v known without the solver (the whole range in a native replay)
  int64_t sym_max(int64_t v) noexcept;
  void sym_alloc_faults(bool on) noexcept;
  uint64_t sym_heap_live() noexcept;
  void sym_print(const char* name, uint64_t v) noexcept;
  bool sym_and(bool a, bool b) noexcept;   // no branch
  bool sym_or(bool a, bool b) noexcept;
  uint64_t sym_ite(bool c, uint64_t a, uint64_t b) noexcept;
  void harness();
}
