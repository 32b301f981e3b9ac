// PROPERTY: P38
// SOURCES: utility/cone_tree.cpp utility/math.cpp utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: trees of one node: up to 3 symbolic points of 2 and 3 coordinates (0..3) and every query point (-2..2); trees of up to 7 levels: 12 listed sets of 9..24 points (simplex lattices, lines, clusters, equal points, skewed spreads), also scaled down by 64, and every query point of the grid, each with an earlier query of another tree
// ASSUME: small coordinates whose products are exact
// REACH: end
// CONFIG: quick leaf_1 -DNP=1 -DND=3
// CONFIG: quick leaf_2 -DNP=2 -DND=3
// CONFIG: quick leaf_3 -DNP=3 -DND=2
// CONFIG: quick sets_2 -DSETS=6 -DND=2
// CONFIG: quick sets_3 -DSETS=6 -DND=3
// CONFIG: thorough leaf_3_3d -DNP=3 -DND=3 heavy=1
#include "common.hpp"
#include "utility/cone_tree.hpp"
#include "utility/small_vector.hpp"
using namespace gapp; using namespace vh; using detail::ConeTree;
static void query(const ConeTree& tree, const std::vector<ConeTree::Point>& pts, const double* q) {
  auto r = tree.findBestMatch(std::span<const double>(q, ND)); sym_assert(r.elem >= tree.begin() && r.elem < tree.end(), "the result is a point of the tree");
  double prod = 0; for (size_t k = 0; k < ND; k++) prod += (*r.elem)[k] * q[k]; sym_assert(r.prod == prod, "the reported product belongs to the reported point");
  bool best = true; for (auto& p : pts) { double x = 0; for (size_t k = 0; k < ND; k++) x += p[k] * q[k]; best = And(best, prod >= x); } sym_assert(best, "no point has a larger inner product with the query");
}
static void same(const ConeTree& tree, const std::vector<ConeTree::Point>& pts) { // as a multiset
  sym_assert(tree.size() == pts.size(), "the tree holds every point");
  for (auto& p : pts) { size_t a = 0, b = 0; for (auto& o : pts) { bool e = true; for (size_t k = 0; k < ND; k++) e = And(e, o[k] == p[k]); a += sym_ite(e, 1, 0); } for (auto row : tree) { bool e = true; for (size_t k = 0; k < ND; k++) e = And(e, row[k] == p[k]); b += sym_ite(e, 1, 0); } sym_assert(a == b, "the tree holds every point as often as it was given"); }
}
extern "C" void harness() {
  ConeTree none; sym_assert(none.empty() && none.findBestMatch(std::span<const double>()).elem == none.end(), "an empty tree has no match");
  double q[ND]; 
#ifdef SETS
  double scale = ND == 2 && sym_choice("scale", 2) ? 0x1p-6 : 1; std::vector<ConeTree::Point> pts; size_t set = sym_choice("set", SETS); auto add = [&](double a, double b, double c) { ConeTree::Point p; p.push_back(a * scale); p.push_back(b * scale); if (ND == 3) p.push_back(c * scale); pts.push_back(p); };
  if (set == 0) for (int i = 0; i < 5; i++) for (int j = 0; j + i < 5; j++) add(i, j, 4 - i - j);
  if (set == 1) for (int i = 0; i < 20; i++) add(2, 1, 3);                                // equal points
  if (set == 2) for (int i = 0; i < 24; i++) add(i, 3, i % 2);                            // a line
  if (set == 3) for (int i = 0; i < 16; i++) add(i < 15 ? 0 : 64, i == 3 ? 1 : 0, 1 << (i % 8)); // skewed
  if (set == 4) for (int i = 0; i < 18; i++) add(double(1 << i), double((i * 7) % 5), double(1 << (17 - i))); // one far point at a time
  if (set == 5) for (int i = 0; i < 9; i++) add((i * 5) % 7, (i * 3) % 8, (i * 2) % 5);
  { std::vector<ConeTree::Point> big(40, pts[0]); for (int i = 0; i < 40; i++) big[i][0] = i; double z[ND]; for (double& x : z) x = 1; ConeTree other(big); query(other, big, z); } // the working memory is shared between trees
#else
  std::vector<ConeTree::Point> pts(NP); for (auto& p : pts) for (int k = 0; k < ND; k++) p.push_back(sym_grid("p", 0, 3));
#endif
  ConeTree tree(pts); same(tree, pts);
  for (double& x : q) x = sym_grid("q", -2, 2);
  query(tree, pts, q);
  sym_reach("end");
}
