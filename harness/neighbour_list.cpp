// PROPERTY: P48
// SOURCES:
// BOUNDS: lists with up to 4 different values after 6 (quick) / 8 (thorough) operations on symbolic values; neighbour lists of all pairs of permutations of 2..4 genes
// ASSUME: at most 4 different values are added to a list (a gene has at most 4 neighbours)
// REACH: end
// CONFIG: quick list_u64 -DTYPE=uint64_t -DOPS=6
// CONFIG: quick list_int -DTYPE=int -DOPS=5
// CONFIG: quick make_u64 -DTYPE=uint64_t -DLEN=4
// CONFIG: quick make_int -DTYPE=int -DLEN=3
// CONFIG: thorough list_u64_8 -DTYPE=uint64_t -DOPS=8
#include "common.hpp"
#include <unordered_map>
#include <vector>
#include "core/candidate.hpp"
#include "crossover/neighbour_list.hpp"
using namespace gapp; using namespace vh; using T = TYPE; using NL = crossover::dtl::NeighbourList<T>;
static bool has(const NL& l, T v) { for (const T& x : l) if (x == v) return true; return false; }
extern "C" void harness() {
#ifdef OPS
  NL l; bool in[5] = {}; sym_assert(l.empty() && l.size() == 0, "a new list is empty"); bool removed = false;
  for (int k = 0; k < OPS; k++) {
    size_t v = sym_choice("value", 4); if (!removed && sym_choice("add", 2)) { l.add(T(v)); in[v] = true; } else { l.remove(T(v)); in[v] = false; removed = true; }
    size_t n = 0; for (size_t i = 0; i < 4; i++) { n += in[i]; sym_assert(has(l, T(i)) == in[i], "the list contains exactly the values added and not removed"); } sym_assert(l.size() == n && l.empty() == (n == 0), "the size is the number of different values"); size_t c = 0; for (const T& x : l) if (x != T(-1)) c++; sym_assert(c == n, "every value is stored once");
  }
#else
  Chromosome<T> a(LEN), b(LEN); for (auto* c : {&a, &b}) for (size_t i = 0; i < LEN; i++) { (*c)[i] = T(sym_choice("gene", LEN)); for (size_t j = 0; j < i; j++) sym_assume((*c)[i] != (*c)[j]); }
  auto lists = crossover::dtl::makeNeighbourLists<T>(a, b); sym_assert(lists.size() == LEN, "every gene has a list");
  for (size_t g = 0; g < LEN; g++) { size_t n = 0; for (size_t h = 0; h < LEN; h++) { bool nb = false; for (auto* c : {&a, &b}) for (size_t i = 0; i + 1 < LEN; i++) nb = nb || ((*c)[i] == T(g) && (*c)[i + 1] == T(h)) || ((*c)[i] == T(h) && (*c)[i + 1] == T(g)); n += nb; sym_assert(has(lists[T(g)], T(h)) == nb, "the list of a gene holds exactly its neighbours in the parents"); } sym_assert(lists[T(g)].size() == n, "every neighbour is listed once"); }
#endif
  sym_reach("end");
}
