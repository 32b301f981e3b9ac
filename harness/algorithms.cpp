// PROPERTY: P45
// SOURCES: utility/rng.cpp
// OPTIONAL: NoEarlyStop
// BOUNDS: sequences of 0..5 elements with symbolic values (0..3, with ties), 6 for the partial sort; sorted sequences of up to 70 elements and any searched value; every number of positions to sort, to shuffle and to select; forward and reverse iterators
// ASSUME: the random numbers of the shuffle are not rejected by the standard distribution
// REACH: end
// CONFIG: quick argsort_4 -DMODE=0 -DNV=4
// CONFIG: quick partial_5 -DMODE=1 -DNV=5 -DTOPV=1
// CONFIG: quick partial_6 -DMODE=1 -DNV=6 -DTOPV=1 -DMID=1
// CONFIG: quick search -DMODE=2
// CONFIG: quick extremes_4 -DMODE=3 -DNV=4
// CONFIG: quick find_4 -DMODE=4 -DNV=4
// CONFIG: quick shuffle_3 -DMODE=5 -DNV=3
// CONFIG: quick select_4 -DMODE=6 -DNV=4
// CONFIG: quick functional -DMODE=7
// CONFIG: thorough argsort_5 -DMODE=0 -DNV=5 heavy=1
// CONFIG: thorough partial_11 -DMODE=1 -DNV=11 -DTOPV=1 -DMID=2 heavy=1
// CONFIG: thorough extremes_5 -DMODE=3 -DNV=5 heavy=1
#include "common.hpp"
#include "utility/algorithm.hpp"
#include "utility/functional.hpp"
#include <memory>
#include <string>
#ifndef TOPV
#define TOPV 3
#endif
using namespace gapp; using namespace vh; typedef std::vector<int> Vec; typedef small_vector<size_t> Idx;
static Vec values(size_t n, int top = TOPV) { Vec v(n); for (int& x : v) x = (int)sym_range("v", 0, top); return v; }
// every index of the sequence exactly once
static void permutation(const Idx& idx, size_t n) { sym_assert(idx.size() == n, "as many indices as elements are returned"); uint64_t seen = 0; for (size_t i : idx) { sym_assert(i < n, "the indices are in range"); seen |= 1ull << i; } sym_assert(seen == (1ull << n) - 1, "every index is returned once"); }
static void ordered(const Vec& v, const Idx& idx, size_t m, bool up) { // the first m are in order, and none of the rest comes before them
  for (size_t i = 0; i < m; i++) for (size_t j = i + 1; j < idx.size(); j++) sym_assert(up ? v[idx[i]] <= v[idx[j]] : v[idx[i]] >= v[idx[j]], "the indices are in the order of the elements"); }
struct Draw { typedef uint32_t result_type; static constexpr result_type min() { return 0; } static constexpr result_type max() { return 6; } result_type operator()() { return (result_type)sym_choice("draw", 6); } };
extern "C" void harness() {
#if MODE == 0
  size_t n = sym_choice("n", NV + 1); Vec v = values(n);
  Idx a = detail::argsort(v.begin(), v.end()), b = detail::argsort(v.rbegin(), v.rend()), c = detail::argsort(v.begin(), v.end(), std::greater<int>());
  permutation(a, n); ordered(v, a, n, true); permutation(b, n); ordered(v, b, n, false); permutation(c, n); ordered(v, c, n, false);
#elif MODE == 1
  size_t n = NV; Vec v = values(n);
#ifdef MID
  size_t m = MID;
#else
  n = sym_choice("n", NV + 1); v.resize(n); size_t m = sym_choice("middle", n + 1);
#endif
  if (sym_choice("direction", 2)) { Idx b = detail::partial_argsort(v.rbegin(), v.rbegin() + m, v.rend()); permutation(b, n); ordered(v, b, m, false); }
  else { Idx a = detail::partial_argsort(v.begin(), v.begin() + m, v.end()); permutation(a, n); ordered(v, a, m, true); }
#elif MODE == 2
  size_t n = sym_choice("n", 14); n = n < 4 ? n : n < 12 ? n + 27 : n == 12 ? 64 : 70; Vec v(n); for (size_t i = 0; i < n; i++) v[i] = int(i / 2 * 3); int x = (int)sym_range("searched", -1, 120);
  size_t p = detail::lower_bound(v.begin(), v.end(), x) - v.begin(); sym_assert(p <= n && And(p == 0 || v[p - 1] < x, p == n || v[p] >= x), "the first element that is not less than the searched value is found");
  size_t small = sym_choice("small", 4); Vec w = values(small); for (size_t i = 0; i + 1 < small; i++) sym_assume(w[i] >= w[i + 1]); size_t q = detail::lower_bound(w.begin(), w.end(), x, std::greater<int>()) - w.begin(); sym_assert(q <= small && And(q == 0 || w[q - 1] > x, q == small || w[q] <= x), "the comparison decides the order");
#elif MODE == 3
  size_t n = 1 + sym_choice("n", NV); Vec v = values(n); auto neg = [](int x) { return -x; };
  auto check = [&](size_t got, bool max, bool first) { sym_assert(got < n, "the position is in range"); bool best = true, tie = true; for (size_t i = 0; i < n; i++) { best = And(best, max ? v[got] >= v[i] : v[got] <= v[i]); tie = And(tie, Implies(first ? i < got : i > got, v[i] != v[got])); } sym_assert(best, "no element is better than the one found"); sym_assert(tie, "the first one that is visited is found among equal elements"); };
  switch (sym_choice("which", 6)) {
  case 0: check(detail::argmax(v.begin(), v.end()), true, true); check(detail::max_element(v.begin(), v.end()) - v.begin(), true, true); break;
  case 1: check(detail::argmin(v.begin(), v.end()), false, true); check(detail::min_element(v.begin(), v.end()) - v.begin(), false, true); break;
  case 2: check(detail::argmax(v.rbegin(), v.rend()), true, false); break;
  case 3: check(detail::argmin(v.rbegin(), v.rend()), false, false); break;
  case 4: check(detail::argmax(v.begin(), v.end(), neg), false, true); check(detail::argmin(v.begin(), v.end(), neg), true, true); break;
  default: { Vec none; sym_assert(detail::max_element(none.begin(), none.end()) == none.end() && detail::min_element(none.begin(), none.end()) == none.end(), "an empty sequence has no largest element");
    int a = v[0], b = n > 1 ? v[1] : 1, c = n > 2 ? v[2] : 2; int hi = detail::max(a, b, c), lo = detail::min(a, b, c); sym_assert(And(And(hi >= a, And(hi >= b, hi >= c)), Or(hi == a, Or(hi == b, hi == c))), "the largest argument is returned"); sym_assert(And(And(lo <= a, And(lo <= b, lo <= c)), Or(lo == a, Or(lo == b, lo == c))), "the smallest argument is returned"); } }
#elif MODE == 4
  size_t n = sym_choice("n", NV + 1); Vec v = values(n); int x = (int)sym_range("searched", 0, TOPV + 1); auto big = [&](int e) { return e >= x; };
  bool has = false; size_t first = n, firstBig = n; for (size_t i = n; i--;) { has = Or(has, v[i] == x); first = sym_ite(v[i] == x, i, first); firstBig = sym_ite(v[i] >= x, i, firstBig); }
  switch (sym_choice("which", 6)) {
  case 0: sym_assert(detail::contains(v.begin(), v.end(), x) == has, "a value is contained if an element is equal to it"); break;
  case 1: { auto i = detail::index_of(v, x); sym_assert(i.has_value() == has && i.value_or(n) == first, "the index of the first equal element is found"); } break;
  case 2: { auto i = detail::find_index(v, big); sym_assert(i.has_value() == (firstBig != n) && i.value_or(n) == firstBig, "the index of the first matching element is found"); } break;
  case 3: { Idx got = detail::find_indices(v, big); size_t k = 0; for (size_t i = 0; i < n; i++) if (v[i] >= x) { sym_assert(k < got.size() && got[k] == i, "the indices of all of the matching elements are found in order"); k++; } sym_assert(k == got.size(), "only matching elements are found"); } break;
  case 4: { auto got = detail::find_all(v.begin(), v.end(), big); size_t k = 0; for (size_t i = 0; i < n; i++) if (v[i] >= x) { sym_assert(k < got.size() && got[k] == v[i], "all of the matching elements are found in order"); k++; } sym_assert(k == got.size(), "only matching elements are found"); } break;
  default: { Vec w = v; bool e = detail::erase_first_stable(w, x); sym_assert(e == has, "an element is erased if it is there"); if (!has) { sym_assert(w.size() == n, "nothing is erased otherwise"); for (size_t i = 0; i < n; i++) sym_assert(w[i] == v[i], "nothing is changed otherwise"); } else { sym_assert(w.size() == n - 1, "one element is erased"); size_t f = sym_concretize(first); for (size_t i = 0; i < n - 1; i++) sym_assert(w[i] == v[i < f ? i : i + 1], "the other elements keep their order"); } } }
#elif MODE == 5
  size_t n = sym_choice("n", NV + 1), m = sym_choice("middle", n + 1); Vec v(n); for (size_t i = 0; i < n; i++) v[i] = int(10 + i); Draw d; detail::partial_shuffle(v.begin(), v.begin() + m, v.end(), d);
  for (size_t i = 0; i < n; i++) { bool in = false; for (size_t j = 0; j < n; j++) in = Or(in, v[j] == int(10 + i)); sym_assert(in, "a shuffle keeps every element"); }
  if (m == 0) for (size_t i = 0; i < n; i++) sym_assert(v[i] == int(10 + i), "an empty range is not shuffled");
  if (n == 3 && m >= 2) for (size_t a = 0; a < 3; a++) for (size_t b = 0; b < 3; b++) if (a != b) sym_possible(And(v[0] == int(10 + a), v[1] == int(10 + b)), named("order", a, b, 3 - a - b)); if (n == 3 && m == 1) for (size_t a = 0; a < 3; a++) sym_possible(v[0] == int(10 + a), named("first", a));
#elif MODE == 6
  size_t n = sym_choice("n", NV + 1); Vec v = values(n), w = values(n);
  switch (sym_choice("which", 4)) {
  case 0: { size_t m = n ? sym_choice("count", 4) : 0; Idx idx; for (size_t i = 0; i < m; i++) idx.push_back(sym_choice("index", n)); Vec s = detail::select(v, idx); sym_assert(s.size() == m, "as many elements are selected as there are indices"); for (size_t i = 0; i < m; i++) sym_assert(s[i] == v[idx[i]], "the elements at the indices are selected in order"); } break;
  case 1: { Vec s = v; detail::erase_duplicates(s); for (size_t i = 0; i + 1 < s.size(); i++) sym_assert(s[i] < s[i + 1], "no value is left twice"); for (int e : v) { bool in = false; for (int o : s) in = Or(in, e == o); sym_assert(in, "every value is left once"); } for (int o : s) { bool in = false; for (int e : v) in = Or(in, e == o); sym_assert(in, "no value is added"); } } break;
  case 2: { Vec s = v; detail::elementwise_min(s, w, detail::inplace_t{}); for (size_t i = 0; i < n; i++) sym_assert(s[i] == (int)(int64_t)sym_ite(v[i] < w[i], (int64_t)v[i], (int64_t)w[i]), "the smaller element is kept at every position"); } break;
  default: { Vec s = v; detail::elementwise_max(s, w, detail::inplace_t{}); for (size_t i = 0; i < n; i++) sym_assert(s[i] == (int)(int64_t)sym_ite(v[i] > w[i], (int64_t)v[i], (int64_t)w[i]), "the larger element is kept at every position"); } }
#else
  int a = (int)sym_range("a", -100, 100), b = (int)sym_range("b", -100, 100), c = (int)sym_range("c", -100, 100);
  sym_assert(detail::multiply_by(a)(b) == a * b && detail::add(a)(b) == a + b && detail::subtract(a)(b) == b - a && detail::multiply_add(a, c)(b) == a * b + c, "the arithmetic function objects compute their operation"); if (a != 0) sym_assert(detail::divide_by(a)(b) == b / a, "the arithmetic function objects compute their operation");
  sym_assert(And(And(detail::equal_to(a)(b) == (b == a), detail::not_equal_to(a)(b) == (b != a)), And(And(detail::greater_than(a)(b) == (b > a), detail::greater_eq_than(a)(b) == (b >= a)), And(detail::less_than(a)(b) == (b < a), detail::less_eq_than(a)(b) == (b <= a)))), "the comparing function objects compare in the right order");
  sym_assert(detail::between(a, c)(b) == And(a <= b, b <= c), "a value is between its bounds, which are included");
  Vec v{a, b, c}; sym_assert(detail::is_size(3)(v) && !detail::is_size(2)(v) && detail::element_at(1)(v) == b, "the function objects of containers look at the container");
  auto m = detail::map(v, detail::add(1)); sym_assert(m.size() == 3 && m[0] == a + 1 && m[1] == b + 1 && m[2] == c + 1, "a map applies the function to every element in order"); std::vector<std::string> names{"x", "yy"}; auto l = detail::map(names, [](const std::string& s) { return s.size(); }); sym_assert(l.size() == 2 && l[0] == 1 && l[1] == 2, "a map applies the function to every element in order"); auto arr = detail::map(std::array<int, 2>{a, b}, detail::subtract(1)); sym_assert(arr[0] == a - 1 && arr[1] == b - 1, "a map applies the function to every element in order");
  uint64_t live = sym_heap_live(); { auto p = std::make_unique<int>(a); detail::move_only_function<int(int)> f([p = std::move(p)](int x) { return *p + x; }), g; sym_assert(f && !g && f(b) == a + b, "a function object calls the function it holds"); g = std::move(f); sym_assert(g && !f && g(c) == a + c, "a function object can be moved"); detail::move_only_function<int(int)> h([](int x) { return x * 2; }); h.swap(g); sym_assert(h(1) == a + 1 && g(b) == b * 2, "function objects can be exchanged"); g = [=](int x) { return x - a; }; sym_assert(g(b) == b - a, "a function object can be replaced"); } sym_assert(sym_heap_live() == live, "a function object destroys the function it holds");
  auto add = [&](int x) { return a + x; }; auto mul = [&](int x) { return a * x; }; detail::function_ref<int(int)> r(add), e; sym_assert(r && !e && r(b) == a + b, "a function reference calls the function it refers to"); r = mul; sym_assert(r(b) == a * b, "a function reference can be redirected"); auto r2 = r; sym_assert(r2(c) == a * c, "a copy refers to the same function");
#endif
  sym_reach("end");
}
