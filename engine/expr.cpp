#include "expr.h"
#include <cmath>
#include <cfenv>
#include <limits>
#include <algorithm>
#include <functional>
#include <map>
#include <set>

std::vector<VarInfo> g_vars;
uint64_t g_modelGen = 1;

double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
u128 fromD(double d) { if (d != d) return 0x7ff8000000000000ull; uint64_t x; memcpy(&x, &d, 8); return x; }
u128 fromF(float d) { if (d != d) return 0x7fc00000u; uint32_t x; memcpy(&x, &d, 4); return x; }
static long double asLD(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fromLD(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v & maskw(80); }

static double rnd(double x, unsigned mode) {
  switch (mode) { case 0: return std::floor(x); case 1: return std::ceil(x); case 2: return std::trunc(x); case 3: return std::round(x); default: return std::nearbyint(x); }
}
static long double toLD(u128 v, unsigned w) { return w == 64 ? (long double)asD(v) : w == 32 ? (long double)asF(v) : asLD(v); }
static u128 fromLDw(long double d, unsigned w) { return w == 64 ? fromD((double)d) : w == 32 ? fromF((float)d) : fromLD(d); }

// conversion to an integer as the x86 instructions do it: truncate; 1 << (w-1) for NaN and values out of range
static u128 fpToInt(u128 a, unsigned sw, unsigned w, bool sgn) {
  unsigned mb = sw == 64 ? 52 : sw == 32 ? 23 : 63; int bias = sw == 64 ? 1023 : sw == 32 ? 127 : 16383; unsigned eb = sw == 80 ? 64 : mb;
  u128 m = a & maskw(eb); int e = int((a >> eb) & maskw(sw - 1 - eb)); bool neg = (a >> (sw - 1)) & 1; if (sw != 80) m |= (u128)1 << mb;
  if (e >= bias + int(w) - (sgn ? 1 : 0)) return (u128)1 << (w - 1);
  if (e < bias) return 0;
  int sh = e - bias - int(mb); u128 r = sh >= 0 ? m << sh : m >> -sh; return (neg ? 0 - r : r) & maskw(w);
}

u128 evalOp(Kind k, unsigned w, uint32_t p, const u128* v, const unsigned* ws) {
  u128 M = maskw(w);
  u128 a = v[0], b = v[1];
  switch (k) {
    case K_ADD: return (a + b) & M;
    case K_SUB: return (a - b) & M;
    case K_MUL: return (a * b) & M;
    case K_UDIV: return b ? a / b : M;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(0 - (u128)x) & M; return (u128)(x / y) & M; }
    case K_SREM: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case K_ASHR: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & M; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sextw(a, ws[0]) < sextw(b, ws[0]);
    case K_SLE: return sextw(a, ws[0]) <= sextw(b, ws[0]);
    case K_ITE: return a ? b : v[2];
    case K_ZEXT: return a;
    case K_SEXT: return (u128)sextw(a, ws[0]) & M;
    case K_EXTRACT: return (a >> p) & M;
    case K_CONCAT: return ((a << ws[1]) | b) & M;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM:
      if (w == 64) { double x = asD(a), y = asD(b); return fromD(k == K_FADD ? x + y : k == K_FSUB ? x - y : k == K_FMUL ? x * y : k == K_FDIV ? x / y : std::fmod(x, y)); }
      if (w == 32) { float x = asF(a), y = asF(b); return fromF(k == K_FADD ? x + y : k == K_FSUB ? x - y : k == K_FMUL ? x * y : k == K_FDIV ? x / y : std::fmod(x, y)); }
      { long double x = asLD(a), y = asLD(b); return fromLD(k == K_FADD ? x + y : k == K_FSUB ? x - y : k == K_FMUL ? x * y : k == K_FDIV ? x / y : std::fmod(x, y)); }
    case K_FSQRT: return w == 64 ? fromD(std::sqrt(asD(a))) : w == 32 ? fromF(std::sqrt(asF(a))) : fromLD(std::sqrt(asLD(a)));
    case K_FMA: return w == 64 ? fromD(std::fma(asD(a), asD(b), asD(v[2]))) : fromF(std::fma(asF(a), asF(b), asF(v[2])));
    case K_FLT: return toLD(a, ws[0]) < toLD(b, ws[0]);
    case K_FLE: return toLD(a, ws[0]) <= toLD(b, ws[0]);
    case K_FEQ: return toLD(a, ws[0]) == toLD(b, ws[0]);
    case K_FUNO: { long double x = toLD(a, ws[0]), y = toLD(b, ws[0]); return x != x || y != y; }
    case K_SITOFP: { i128 x = sextw(a, ws[0]); return w == 64 ? fromD((double)x) : w == 32 ? fromF((float)x) : fromLD((long double)x); }
    case K_UITOFP: return w == 64 ? fromD((double)a) : w == 32 ? fromF((float)a) : fromLD((long double)a);
    case K_FPTOSI: case K_FPTOUI: return fpToInt(a, ws[0], w, k == K_FPTOSI);
    case K_FPCVT: { long double x = toLD(a, ws[0]); return fromLDw(x, w); }
    case K_FRND: return w == 64 ? fromD(rnd(asD(a), p)) : w == 32 ? fromF((float)rnd(asF(a), p)) : fromLD(p == 0 ? std::floor(asLD(a)) : p == 1 ? std::ceil(asLD(a)) : p == 2 ? std::trunc(asLD(a)) : p == 3 ? std::round(asLD(a)) : std::nearbyint(asLD(a)));
    default: assert(0); return 0;
  }
}

// ---------------------------------------------------------------- hash consing
struct Key { Kind k; uint16_t w; uint32_t p; u128 c; E a[3]; };
static inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static uint64_t hashKey(const Key& q) {
  uint64_t h = mix(q.k, q.w); h = mix(h, q.p); h = mix(h, (uint64_t)q.c); h = mix(h, (uint64_t)(q.c >> 64));
  for (int i = 0; i < 3; i++) h = mix(h, q.a[i] ? q.a[i]->id + 1 : 0);
  return h;
}
static std::vector<Expr*> g_tab(1 << 16, nullptr);
static std::vector<uint64_t> g_tabHash(1 << 16, 0);
static size_t g_count = 0;
static char* g_arena = nullptr; static size_t g_left = 0;
static Expr* allocExpr() {
  if (g_left < sizeof(Expr)) { g_left = 1 << 22; g_arena = (char*)malloc(g_left); }
  Expr* e = new (g_arena) Expr; g_arena += sizeof(Expr); g_left -= sizeof(Expr); return e;
}
static void growTab() {
  std::vector<Expr*> t(g_tab.size() * 2, nullptr); std::vector<uint64_t> th(t.size(), 0);
  for (size_t i = 0; i < g_tab.size(); i++) if (g_tab[i]) { size_t j = g_tabHash[i] & (t.size() - 1); while (t[j]) j = (j + 1) & (t.size() - 1); t[j] = g_tab[i]; th[j] = g_tabHash[i]; }
  g_tab.swap(t); g_tabHash.swap(th);
}
static E intern(Kind k, unsigned w, uint32_t p, u128 c, E a = nullptr, E b = nullptr, E d = nullptr) {
  Key q{k, (uint16_t)w, p, c, {a, b, d}};
  uint64_t h = hashKey(q);
  size_t j = h & (g_tab.size() - 1);
  while (g_tab[j]) {
    if (g_tabHash[j] == h) { Expr* e = g_tab[j]; if (e->k == k && e->w == w && e->p == p && e->c == c && e->a[0] == a && e->a[1] == b && e->a[2] == d) return e; }
    j = (j + 1) & (g_tab.size() - 1);
  }
  Expr* e = allocExpr(); e->k = k; e->w = w; e->p = p; e->c = c; e->a[0] = a; e->a[1] = b; e->a[2] = d; e->nops = d ? 3 : b ? 2 : a ? 1 : 0; e->id = g_count++;
  e->depth = a ? a->depth + 1 : 0; if (b && b->depth >= e->depth) e->depth = b->depth + 1; if (d && d->depth >= e->depth) e->depth = d->depth + 1;
  e->constIte = k == K_CONST || (k == K_ITE && b->constIte && d->constIte);
  g_tab[j] = e; g_tabHash[j] = h;
  if (g_count * 2 > g_tab.size()) growTab();
  return e;
}

static E g_constCache[129][17];
E mkConst(u128 v, unsigned w) {
  v &= maskw(w);
  if (v < 17) { E& e = g_constCache[w][(int)v]; if (!e) e = intern(K_CONST, w, 0, v); return e; }
  return intern(K_CONST, w, 0, v);
}
E mkVar(const std::string& name, unsigned w) { g_vars.push_back({name, w}); return intern(K_VAR, w, g_vars.size() - 1, 0); }

u128 evalExpr(E e, const Model& m) {
  if (e->k == K_CONST) return e->c;
  if (e->evalGen == m.gen) return e->evalVal;
  u128 r;
  if (e->k == K_VAR) r = e->p < m.v.size() ? m.v[e->p] : 0;
  else if (e->k == K_ITE) r = evalExpr(e->a[0], m) ? evalExpr(e->a[1], m) : evalExpr(e->a[2], m);
  else {
    u128 v[3] = {0, 0, 0}; unsigned ws[3] = {0, 0, 0};
    for (int i = 0; i < e->nops; i++) { v[i] = evalExpr(e->a[i], m); ws[i] = e->a[i]->w; }
    r = evalOp(e->k, e->w, e->p, v, ws);
  }
  e->evalGen = m.gen; e->evalVal = r; return r;
}

// ---------------------------------------------------------------- ranges
static const i128 I128MAX = (i128)(((u128)1 << 126));
SRange srange(E e) {
  if (e->k == K_CONST) { i128 v = sextw(e->c, e->w); return {v, v}; }
  if (e->sr) return *e->sr;
  SRange r; unsigned w = e->w;
  if (w > 100) { r = {-I128MAX, I128MAX}; }
  else {
    i128 smin = -((i128)1 << (w - 1)), smax = ((i128)1 << (w - 1)) - 1;
    r = {smin, smax};
    auto fit = [&](i128 lo, i128 hi) { if (lo >= smin && hi <= smax) r = {lo, hi}; };
    switch (e->k) {
      case K_ZEXT: { SRange x = srange(e->a[0]); if (x.lo >= 0) r = x; else r = {0, (i128)maskw(e->a[0]->w)}; break; }
      case K_SEXT: r = srange(e->a[0]); break;
      case K_ITE: { SRange x = srange(e->a[1]), y = srange(e->a[2]); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; break; }
      case K_ADD: { SRange x = srange(e->a[0]), y = srange(e->a[1]); fit(x.lo + y.lo, x.hi + y.hi); break; }
      case K_SUB: { SRange x = srange(e->a[0]), y = srange(e->a[1]); fit(x.lo - y.hi, x.hi - y.lo); break; }
      case K_MUL: { SRange x = srange(e->a[0]), y = srange(e->a[1]); if (w <= 60) { i128 c[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi}; fit(*std::min_element(c, c + 4), *std::max_element(c, c + 4)); } break; }
      case K_AND: if (e->a[1]->isConst() && sextw(e->a[1]->c, w) >= 0) r = {0, (i128)e->a[1]->c}; else { SRange x = srange(e->a[0]), y = srange(e->a[1]); if (x.lo >= 0 && y.lo >= 0) r = {0, std::min(x.hi, y.hi)}; else if (x.lo >= 0) r = {0, x.hi}; else if (y.lo >= 0) r = {0, y.hi}; } break;
      case K_LSHR: if (e->a[1]->isConst() && e->a[1]->c > 0 && e->a[1]->c < w) { SRange x = srange(e->a[0]); if (x.lo >= 0) r = {x.lo >> (int)e->a[1]->c, x.hi >> (int)e->a[1]->c}; else r = {0, (i128)(maskw(w) >> (int)e->a[1]->c)}; } break;
      case K_ASHR: if (e->a[1]->isConst() && e->a[1]->c < w) { SRange x = srange(e->a[0]); r = {x.lo >> (int)e->a[1]->c, x.hi >> (int)e->a[1]->c}; } break;
      case K_SHL: if (e->a[1]->isConst() && e->a[1]->c < w && w <= 64) { SRange x = srange(e->a[0]); fit(x.lo * ((i128)1 << (int)e->a[1]->c), x.hi * ((i128)1 << (int)e->a[1]->c)); } break;
      case K_UREM: if (e->a[1]->isConst() && e->a[1]->c) { i128 m = (i128)e->a[1]->c - 1; if (m <= smax) r = {0, m}; } break;
      case K_UDIV: if (e->a[1]->isConst() && e->a[1]->c > 1) { SRange x = srange(e->a[0]); if (x.lo >= 0) r = {x.lo / (i128)e->a[1]->c, x.hi / (i128)e->a[1]->c}; else r = {0, (i128)(maskw(w) / e->a[1]->c)}; } break;
      case K_EXTRACT: { SRange x = srange(e->a[0]); if (e->p == 0 && x.lo >= smin && x.hi <= smax) r = x; break; }
      default: break;
    }
  }
  e->sr = new SRange(r); return r;
}
static const double INF = std::numeric_limits<double>::infinity();
FRange frange(E e) {
  if (e->w != 64) return {-INF, INF, true};
  if (e->k == K_CONST) { double d = asD(e->c); if (d != d) return {INF, -INF, true}; return {d, d, false}; }
  if (e->fr) return *e->fr;
  FRange r{-INF, INF, true};
  auto hull4 = [&](double a, double b, double c, double d) { r.lo = std::min(std::min(a, b), std::min(c, d)); r.hi = std::max(std::max(a, b), std::max(c, d)); };
  switch (e->k) {
    case K_SITOFP: { SRange x = srange(e->a[0]); r = {(double)x.lo, (double)x.hi, false}; break; }
    case K_UITOFP: { SRange x = srange(e->a[0]); if (x.lo >= 0) r = {(double)x.lo, (double)x.hi, false}; else r = {0, (double)maskw(e->a[0]->w), false}; break; }
    case K_ITE: { FRange x = frange(e->a[1]), y = frange(e->a[2]); r = {std::min(x.lo, y.lo), std::max(x.hi, y.hi), x.nan || y.nan}; break; }
    case K_FADD: case K_FSUB: case K_FMUL: {
      FRange x = frange(e->a[0]), y = frange(e->a[1]);
      if (x.nan || y.nan || std::isinf(x.lo) || std::isinf(x.hi) || std::isinf(y.lo) || std::isinf(y.hi)) {
        if (e->k != K_FMUL && !x.nan && !y.nan) {
          bool xi = std::isinf(x.lo) || std::isinf(x.hi), yi = std::isinf(y.lo) || std::isinf(y.hi);
          if (!(xi && yi)) { r.nan = false; if (e->k == K_FADD) { r.lo = x.lo + y.lo; r.hi = x.hi + y.hi; } else { r.lo = x.lo - y.hi; r.hi = x.hi - y.lo; } }
          else if (e->k == K_FADD && x.lo >= 0 && y.lo >= 0) r = {x.lo + y.lo, INF, false};
        } else if (e->k == K_FMUL && !x.nan && !y.nan && x.lo > 0 && y.lo > 0) r = {x.lo * y.lo, INF, false};
        break;
      }
      r.nan = false;
      if (e->k == K_FADD) { r.lo = x.lo + y.lo; r.hi = x.hi + y.hi; }
      else if (e->k == K_FSUB) { r.lo = x.lo - y.hi; r.hi = x.hi - y.lo; }
      else hull4(x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi);
      if (e->k == K_FMUL && e->a[0] == e->a[1] && r.lo < 0) r.lo = 0;
      break; }
    case K_FDIV: {
      FRange x = frange(e->a[0]), y = frange(e->a[1]);
      if (!x.nan && !y.nan && !std::isinf(x.lo) && !std::isinf(x.hi) && (y.lo > 0 || y.hi < 0) && !std::isinf(y.lo) && !std::isinf(y.hi)) { r.nan = false; hull4(x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi); }
      break; }
    case K_FSQRT: { FRange x = frange(e->a[0]); if (!x.nan && x.lo >= 0) r = {std::sqrt(x.lo), std::sqrt(x.hi), false}; else r = {-0.0, INF, true}; break; }
    case K_FRND: { FRange x = frange(e->a[0]); r = {rnd(x.lo, e->p), rnd(x.hi, e->p), x.nan}; break; }
    case K_AND: if (e->a[1]->isConst() && e->a[1]->c == 0x7fffffffffffffffull) { FRange x = frange(e->a[0]); double m = std::max(std::fabs(x.lo), std::fabs(x.hi)); r = {(x.lo <= 0 && x.hi >= 0) || x.lo > x.hi ? 0.0 : std::min(std::fabs(x.lo), std::fabs(x.hi)), m, x.nan}; if (x.lo > x.hi) r = {0, INF, true}; } break;
    case K_XOR: if (e->a[1]->isConst() && e->a[1]->c == 0x8000000000000000ull) { FRange x = frange(e->a[0]); r = {-x.hi, -x.lo, x.nan}; } break;
    default: break;
  }
  e->fr = new FRange(r); return r;
}

// ---------------------------------------------------------------- simplifying constructors
static bool isNotOf(E a, E b) { return a->k == K_XOR && a->w == 1 && a->a[1]->isConst() && a->a[1]->c == 1 && a->a[0] == b; }
static unsigned leafCount(E e) { if (e->isConst()) return 1; unsigned n = 0; std::vector<E> st{e}; while (!st.empty()) { E x = st.back(); st.pop_back(); if (x->isConst()) n++; else { st.push_back(x->a[1]); st.push_back(x->a[2]); } if (n > 40) return n; } return n; }

static bool collect(E e, std::vector<std::pair<E, u128>>& out, E cond, size_t limit) {
  if (e->isConst()) { if (cond->isConst() && !cond->c) return true; out.push_back({cond, e->c}); return out.size() <= limit; }
  if (!e->constIte) return false;
  return collect(e->a[1], out, mkBin(K_AND, cond, e->a[0]), limit) && collect(e->a[2], out, mkBin(K_AND, cond, mkNot(e->a[0])), limit);
}
bool constIteLeaves(E e, std::vector<std::pair<E, u128>>& out, E cond, size_t limit) {
  std::vector<std::pair<E, u128>> tmp; if (!collect(e, tmp, cond, limit * 2)) return false;
  for (auto& t : tmp) { bool f = false; for (auto& o : out) if (o.second == t.second) { o.first = mkBin(K_OR, o.first, t.first); f = true; break; } if (!f) out.push_back(t); }
  return out.size() <= limit;
}

E mkNot(E a) { return mkBin(K_XOR, a, mkConst(~(u128)0, a->w)); }

static bool isCommut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FEQ || k == K_FUNO; }
static bool isCmp(Kind k) { return k == K_EQ || k == K_ULT || k == K_ULE || k == K_SLT || k == K_SLE || k == K_FLT || k == K_FLE || k == K_FEQ || k == K_FUNO; }
static bool isFpArith(Kind k) { return k == K_FADD || k == K_FSUB || k == K_FMUL || k == K_FDIV || k == K_FREM; }

// integral-valued double ("grid"): returns signed integer expr or null
static E gridOf(E e) {
  if (e->w != 64) return nullptr;
  if (e->k == K_SITOFP && e->a[0]->w <= 48) return e->a[0];
  if (e->isConst()) { double d = asD(e->c); if (d == 0 && std::signbit(d)) return nullptr; if (d == std::floor(d) && std::fabs(d) < 1e6) return mkConst((u128)(i128)d, 24); }
  return nullptr;
}
static E gridMk(E x) { return mkFUn(K_SITOFP, x, 64); }
static E sx(E a, unsigned w) { return a->w >= w ? a : mkSExt(a, w); }
static E shrinkS(E x) { // reduce width using the signed range
  SRange r = srange(x); unsigned w = 2; while (w < x->w && !(r.lo >= -((i128)1 << (w - 1)) && r.hi <= ((i128)1 << (w - 1)) - 1)) w++;
  if (w < x->w) return mkExtract(x, 0, w); return x;
}

static E icmpGridRange(Kind k, E a, E b) { // a grid, b non-grid with narrow range strictly inside (n, n+1)
  E ga = gridOf(a); if (!ga) return nullptr;
  FRange r = frange(b); if (r.nan || std::isinf(r.lo) || std::isinf(r.hi)) return nullptr;
  double n = std::floor(r.lo);
  if (!(r.lo > n && r.hi < n + 1)) return nullptr;
  if (std::fabs(n) > 1e12) return nullptr;
  unsigned w = std::max<unsigned>(ga->w, 44);
  if (k == K_FLT || k == K_FLE) return mkBin(K_SLE, sx(ga, w), mkConst((u128)(i128)n, w)); // a < b <=> a <= n
  if (k == K_FEQ) return mkFalse();
  return nullptr;
}
static E icmpRangeGrid(Kind k, E b, E a) { // b OP a, a grid
  E ga = gridOf(a); if (!ga) return nullptr;
  FRange r = frange(b); if (r.nan || std::isinf(r.lo) || std::isinf(r.hi)) return nullptr;
  double n = std::floor(r.lo);
  if (!(r.lo > n && r.hi < n + 1)) return nullptr;
  if (std::fabs(n) > 1e12) return nullptr;
  unsigned w = std::max<unsigned>(ga->w, 44);
  if (k == K_FLT || k == K_FLE) return mkBin(K_SLT, mkConst((u128)(i128)n, w), sx(ga, w)); // b < a <=> a >= n+1
  return nullptr;
}

// Doubles whose value is i * 2^-sh for a small integer expression i: sums, differences and products of such values are exact in IEEE double
// arithmetic, so that comparisons can be decided on the integers (the sign of zero is lost, which no comparison observes).
struct Fix { E i; int sh; };
static std::unordered_map<E, Fix> g_fix;
static unsigned sbits(E x) { SRange r = srange(x); unsigned w = 1; while (w < 64 && !(r.lo >= -((i128)1 << (w - 1)) && r.hi <= ((i128)1 << (w - 1)) - 1)) w++; return w; }
static E fixAlign(E i, int d, unsigned w) { i = sx(i, w); return d ? mkBin(K_SHL, i, mkConst(d, w)) : i; }
static Fix fixOf(E e) {
  const Fix none{nullptr, 0};
  if (e->w != 64) return none;
  switch (e->k) { case K_CONST: case K_SITOFP: case K_FADD: case K_FSUB: case K_FMUL: case K_ITE: case K_XOR: case K_AND: case K_FRND: break; default: return none; }
  auto it = g_fix.find(e); if (it != g_fix.end()) return it->second;
  Fix r = none;
  switch (e->k) {
    case K_CONST: { double d = asD(e->c); if (!std::isfinite(d) || std::fabs(d) >= 1e12) break; int sh = 0; while (sh < 24 && d != std::floor(d)) { d *= 2; sh++; } if (d == std::floor(d) && std::fabs(d) < 4e12) { i128 v = (i128)d; unsigned w = 2; while (!(v >= -((i128)1 << (w - 1)) && v <= ((i128)1 << (w - 1)) - 1)) w++; r = {mkConst((u128)v, w), sh}; } break; }
    case K_SITOFP: if (e->a[0]->w <= 64 && sbits(e->a[0]) <= 44) r = {shrinkS(e->a[0]), 0}; break;
    case K_FADD: case K_FSUB: { Fix x = fixOf(e->a[0]); if (!x.i) break; Fix y = fixOf(e->a[1]); if (!y.i) break; int sh = std::max(x.sh, y.sh); unsigned w = std::max(x.i->w + sh - x.sh, y.i->w + sh - y.sh) + 1; if (w > 52) break;
      r = {shrinkS(mkBin(e->k == K_FADD ? K_ADD : K_SUB, fixAlign(x.i, sh - x.sh, w), fixAlign(y.i, sh - y.sh, w))), sh}; break; }
    case K_FMUL: { Fix x = fixOf(e->a[0]); if (!x.i) break; Fix y = fixOf(e->a[1]); if (!y.i) break; unsigned w = x.i->w + y.i->w; if (w > 52) break; r = {shrinkS(mkBin(K_MUL, sx(x.i, w), sx(y.i, w))), x.sh + y.sh}; break; }
    case K_ITE: { Fix x = fixOf(e->a[1]); if (!x.i) break; Fix y = fixOf(e->a[2]); if (!y.i) break; int sh = std::max(x.sh, y.sh); unsigned w = std::max(x.i->w + sh - x.sh, y.i->w + sh - y.sh); if (w > 52) break; r = {mkIte(e->a[0], fixAlign(x.i, sh - x.sh, w), fixAlign(y.i, sh - y.sh, w)), sh}; break; }
    case K_XOR: if (e->a[1]->isConst() && e->a[1]->c == (u128)1 << 63) { Fix x = fixOf(e->a[0]); if (x.i && x.i->w < 52) r = {mkBin(K_SUB, mkConst(0, x.i->w + 1), sx(x.i, x.i->w + 1)), x.sh}; } break;
    case K_AND: if (e->a[1]->isConst() && e->a[1]->c == 0x7fffffffffffffffull) { Fix x = fixOf(e->a[0]); if (x.i && x.i->w < 52) { unsigned w = x.i->w + 1; E i = sx(x.i, w), z = mkConst(0, w); r = {shrinkS(mkIte(mkBin(K_SLT, i, z), mkBin(K_SUB, z, i), i)), x.sh}; } } break;
    case K_FRND: { Fix x = fixOf(e->a[0]); if (!x.i || x.i->w > 50) break; if (!x.sh) { r = x; break; } unsigned w = std::max<unsigned>(x.i->w + 2, x.sh + 2); if (w > 60) break; E i = sx(x.i, w), z = mkConst(0, w), one = mkConst(((u128)1 << x.sh) - 1, w), s = mkConst(x.sh, w); E fl = mkBin(K_ASHR, i, s), ce = mkBin(K_ASHR, mkBin(K_ADD, i, one), s);
      if (e->p == 0) r = {shrinkS(fl), 0}; else if (e->p == 1) r = {shrinkS(ce), 0}; else if (e->p == 2) r = {shrinkS(mkIte(mkBin(K_SLT, i, z), ce, fl)), 0}; break; }
    default: break;
  }
  while (r.i && r.i->isConst() && r.sh > 0 && !(r.i->c & 1)) { i128 v = sextw(r.i->c, r.i->w) >> 1; r = {mkConst((u128)v, r.i->w), r.sh - 1}; }
  g_fix[e] = r; return r;
}
// Quotients of such values with a positive divisor: two of them that differ, differ by far more than the rounding of a double while the integers
// are small, so that comparing the rounded quotients is the same as cross-multiplying.
struct Rat { E n, d; int sh; }; // n / d * 2^-sh, d > 0
static Rat ratOf(E e) {
  Fix x = fixOf(e); if (x.i) return {x.i, nullptr, x.sh};
  if (e->k == K_FDIV && e->w == 64) { Fix n = fixOf(e->a[0]), d = fixOf(e->a[1]); if (n.i && d.i) { SRange r = srange(d.i); if (r.lo > 0) return {n.i, d.i, n.sh - d.sh}; if (r.hi < 0) { unsigned w = std::max(n.i->w, d.i->w) + 1; E z = mkConst(0, w); return {shrinkS(mkBin(K_SUB, z, sx(n.i, w))), shrinkS(mkBin(K_SUB, z, sx(d.i, w))), n.sh - d.sh}; } } }
  return {nullptr, nullptr, 0};
}
static E ratCmp(Kind k, E a, E b, int depth = 0) {
  Rat x = ratOf(a), y = ratOf(b);
  if (x.n && y.n && (x.d || y.d)) { // x.n * y.d * 2^-x.sh  vs  y.n * x.d * 2^-y.sh
    unsigned bn = std::max(x.n->w, y.n->w), bd = std::max(x.d ? x.d->w : 1, y.d ? y.d->w : 1); int sa = x.sh, sb = y.sh, m = std::max(sa, sb); unsigned da = m - sa, db = m - sb;
    if (bn + bd + std::max(da, db) > 46) return nullptr;
    unsigned w = bn + bd + std::max(da, db) + 2; E p = sx(x.n, w), q = sx(y.n, w); if (y.d) p = mkBin(K_MUL, p, sx(y.d, w)); if (x.d) q = mkBin(K_MUL, q, sx(x.d, w));
    if (da) p = mkBin(K_SHL, p, mkConst(da, w)); if (db) q = mkBin(K_SHL, q, mkConst(db, w));
    return mkBin(k == K_FLT ? K_SLT : k == K_FLE ? K_SLE : K_EQ, p, q);
  }
  if (depth < 6 && a->k == K_ITE && !x.n) { E l = ratCmp(k, a->a[1], b, depth + 1); if (!l) l = mkBin(k, a->a[1], b); E r = ratCmp(k, a->a[2], b, depth + 1); if (!r) r = mkBin(k, a->a[2], b); return l && r ? mkIte(a->a[0], l, r) : nullptr; }
  if (depth < 6 && b->k == K_ITE && !y.n) { E l = ratCmp(k, a, b->a[1], depth + 1); if (!l) l = mkBin(k, a, b->a[1]); E r = ratCmp(k, a, b->a[2], depth + 1); if (!r) r = mkBin(k, a, b->a[2]); return l && r ? mkIte(b->a[0], l, r) : nullptr; }
  return nullptr;
}
static bool hasRat(E e, int depth = 0) { if (e->k == K_FDIV) return ratOf(e).n; if (e->k == K_ITE && depth < 6) return (ratOf(e->a[1]).n || hasRat(e->a[1], depth + 1)) && (ratOf(e->a[2]).n || hasRat(e->a[2], depth + 1)); return false; }
static E fixCmp(Kind k, E a, E b) {
  if ((hasRat(a) && (ratOf(b).n || hasRat(b))) || (hasRat(b) && ratOf(a).n)) if (E r = ratCmp(k, a, b)) return r;
  Fix x = fixOf(a), y = fixOf(b);
  auto limit = [&](double c, int sh, double& s) { s = std::ldexp(c, sh); return std::isfinite(s) && std::fabs(s) < 1e15; };
  if (x.i && y.i) { int sh = std::max(x.sh, y.sh); unsigned w = std::max(x.i->w + sh - x.sh, y.i->w + sh - y.sh); if (w > 100) return nullptr; E p = fixAlign(x.i, sh - x.sh, w), q = fixAlign(y.i, sh - y.sh, w); return mkBin(k == K_FLT ? K_SLT : k == K_FLE ? K_SLE : K_EQ, p, q); }
  double s; unsigned w = 54;
  if (x.i && b->isConst() && limit(asD(b->c), x.sh, s)) { double f = std::floor(s), c = std::ceil(s); E i = sx(x.i, w); if (k == K_FEQ) return f == s ? mkEq(i, mkConst((u128)(i128)f, w)) : mkFalse(); return k == K_FLT ? mkBin(K_SLT, i, mkConst((u128)(i128)c, w)) : mkBin(K_SLE, i, mkConst((u128)(i128)f, w)); }
  if (y.i && a->isConst() && limit(asD(a->c), y.sh, s)) { double f = std::floor(s), c = std::ceil(s); E i = sx(y.i, w); if (k == K_FEQ) return f == s ? mkEq(i, mkConst((u128)(i128)f, w)) : mkFalse(); return k == K_FLT ? mkBin(K_SLT, mkConst((u128)(i128)f, w), i) : mkBin(K_SLE, mkConst((u128)(i128)c, w), i); }
  return nullptr;
}

static E simpFCmp(Kind k, E a, E b) {
  if (a->w != 64) return nullptr;
  if (k == K_FUNO) {
    FRange x = frange(a), y = frange(b); if (x.nan && ratOf(a).n) x.nan = false; if (y.nan && ratOf(b).n) y.nan = false;
    if (!x.nan && !y.nan) return mkFalse();
    if (a != b) { if (!x.nan) return mkBin(K_FUNO, b, b); if (!y.nan) return mkBin(K_FUNO, a, a); }
    return nullptr;
  }
  if (a == b) { if (k == K_FLT) return mkFalse(); FRange x = frange(a); if (!x.nan) return mkTrue(); return mkNot(mkBin(K_FUNO, a, a)); }
  FRange x = frange(a), y = frange(b);
  if (!x.nan && !y.nan) {
    if (x.hi < y.lo) return k == K_FEQ ? mkFalse() : mkTrue();
    if (x.lo > y.hi) return mkFalse();
    if (k == K_FLE && x.hi <= y.lo) return mkTrue();
    if (k == K_FLT && x.lo >= y.hi) return mkFalse();
  } else {
    // NaN makes every ordered comparison false
    if (x.lo > y.hi && x.lo <= x.hi && y.lo <= y.hi) return mkFalse();
    if (k == K_FLT && x.lo >= y.hi && x.lo <= x.hi && y.lo <= y.hi) return mkFalse();
    if (k == K_FEQ && (x.hi < y.lo) && x.lo <= x.hi && y.lo <= y.hi) return mkFalse();
  }
  if (a->isConst() && asD(a->c) != asD(a->c)) return mkFalse();
  if (b->isConst() && asD(b->c) != asD(b->c)) return mkFalse();
  E ga = gridOf(a), gb = gridOf(b);
  if (ga && gb) { unsigned w = std::max(ga->w, gb->w); E p = sx(ga, w), q = sx(gb, w); return mkBin(k == K_FLT ? K_SLT : k == K_FLE ? K_SLE : K_EQ, p, q); }
  if (ga && b->isConst()) {
    double c = asD(b->c); unsigned w = std::max<unsigned>(ga->w, 44);
    if (std::fabs(c) < 1e12) {
      double f = std::floor(c);
      if (k == K_FEQ) return f == c ? mkEq(sx(ga, w), mkConst((u128)(i128)f, w)) : mkFalse();
      if (k == K_FLT) { double ce = std::ceil(c); return mkBin(K_SLT, sx(ga, w), mkConst((u128)(i128)ce, w)); }
      return mkBin(K_SLE, sx(ga, w), mkConst((u128)(i128)f, w));
    }
  }
  if (gb && a->isConst()) {
    double c = asD(a->c); unsigned w = std::max<unsigned>(gb->w, 44);
    if (std::fabs(c) < 1e12) {
      double f = std::floor(c);
      if (k == K_FEQ) return f == c ? mkEq(sx(gb, w), mkConst((u128)(i128)f, w)) : mkFalse();
      if (k == K_FLT) return mkBin(K_SLT, mkConst((u128)(i128)f, w), sx(gb, w));
      double ce = std::ceil(c); return mkBin(K_SLE, mkConst((u128)(i128)ce, w), sx(gb, w));
    }
  }
  if (E r = fixCmp(k, a, b)) return r;
  if (E r = icmpGridRange(k, a, b)) return r;
  if (E r = icmpRangeGrid(k, a, b)) return r;
  // a-b > 0  <=>  a > b  (gradual underflow), a-b < 0 <=> a < b
  if (k == K_FLT) {
    if (a->isConst() && (uint64_t)(a->c << 1) == 0 && b->k == K_FSUB) return mkBin(K_FLT, b->a[1], b->a[0]);
    if (b->isConst() && (uint64_t)(b->c << 1) == 0 && a->k == K_FSUB) return mkBin(K_FLT, a->a[0], a->a[1]);
  }
  // push through ite when it folds at least one arm
  if (a->k == K_ITE && (a->a[1]->isConst() || a->a[2]->isConst() || gridOf(a->a[1]) || gridOf(a->a[2])) && (b->isConst() || gridOf(b) || a->a[1] == b || a->a[2] == b))
    return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
  if (b->k == K_ITE && (b->a[1]->isConst() || b->a[2]->isConst() || gridOf(b->a[1]) || gridOf(b->a[2])) && (a->isConst() || gridOf(a) || b->a[1] == a || b->a[2] == a))
    return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
  return nullptr;
}

static bool noNegZero(E x) {
  switch (x->k) {
    case K_CONST: return !(x->c == 0x8000000000000000ull);
    case K_SITOFP: case K_UITOFP: return true;
    case K_AND: return x->a[1]->isConst() && x->a[1]->c == 0x7fffffffffffffffull;
    case K_ITE: return noNegZero(x->a[1]) && noNegZero(x->a[2]);
    case K_FADD: return noNegZero(x->a[0]) && noNegZero(x->a[1]);
    case K_FSQRT: return noNegZero(x->a[0]);
    default: return false;
  }
}
static E simpFArith(Kind k, E a, E b) {
  if (a->w != 64) return nullptr;
  E ga = gridOf(a), gb = gridOf(b);
  if (ga && gb && (k == K_FADD || k == K_FSUB)) {
    unsigned w = std::max(ga->w, gb->w) + 1;
    if (w <= 44) return gridMk(shrinkS(mkBin(k == K_FADD ? K_ADD : K_SUB, sx(ga, w), sx(gb, w))));
  }
  if (ga && gb && k == K_FMUL) {
    // keep away from negative zero: at least one side a constant > 0, or both ranges >= 0
    SRange ra = srange(ga), rb = srange(gb);
    bool ok = (ra.lo > 0 && rb.lo > 0) || (ra.lo >= 0 && rb.lo >= 0) || (ra.lo > 0) || (rb.lo > 0);
    unsigned w = ga->w + gb->w;
    if (ok && w <= 44) return gridMk(shrinkS(mkBin(K_MUL, sx(ga, w), sx(gb, w))));
  }
  if (k == K_FMUL) {
    for (int s = 0; s < 2; s++) {
      E c = s ? b : a, x = s ? a : b;
      if (c->isConst()) {
        double d = asD(c->c); FRange r = frange(x);
        if (d == 1.0) return x;
        if (d == 0 && !std::signbit(d) && !r.nan && r.lo >= 0 && r.hi < INF && noNegZero(x)) return mkConst(0, 64);
      }
    }
  }
  if (k == K_FDIV && b->isConst() && asD(b->c) == 1.0) return a;
  if (k == K_FADD && b->isConst() && asD(b->c) == 0.0 && ga) return a;
  if (k == K_FADD && a->isConst() && asD(a->c) == 0.0 && gb) return b;
  if (k == K_FSUB && b->isConst() && b->c == 0) return a; // x - (+0) == x for every x (NaN payload aside)
  // const-ite leaves are handled by the generic distribution
  return nullptr;
}

// The input variables of some terms, with the number of their bits; false if there are too many bits or nodes.
static bool support(const std::vector<E>& es, std::vector<uint32_t>& vs, unsigned& bits, unsigned maxBits, unsigned maxNodes) {
  std::vector<E> st(es); std::set<E> seen; unsigned nodes = 0; bits = 0;
  while (!st.empty()) {
    E x = st.back(); st.pop_back(); if (x->isConst() || !seen.insert(x).second) continue; if (++nodes > maxNodes) return false;
    if (x->k == K_VAR) { vs.push_back(x->p); bits += x->w; if (bits > maxBits) return false; continue; }
    for (int i = 0; i < x->nops; i++) st.push_back(x->a[i]);
  }
  std::sort(vs.begin(), vs.end()); return bits > 0;
}
// A function of terms with few input bits as its table of values: every valuation of the input bits is evaluated, and the table is rebuilt as a
// decision diagram over those bits. Exact, and the solver never sees the arithmetic.
static E table(const std::vector<uint32_t>& vs, unsigned bits, unsigned w, const std::function<u128(const Model&)>& f) {
  std::vector<std::pair<uint32_t, unsigned>> pos; for (uint32_t v : vs) for (unsigned i = g_vars[v].w; i--;) pos.push_back({v, i});
  std::vector<u128> t((size_t)1 << bits); Model m; m.v.assign(g_vars.size(), 0);
  for (size_t n = 0; n < t.size(); n++) {
    for (uint32_t v : vs) m.v[v] = 0;
    for (unsigned i = 0; i < bits; i++) if (n >> (bits - 1 - i) & 1) m.v[pos[i].first] |= (u128)1 << pos[i].second;
    m.gen = ++g_modelGen; t[n] = f(m);
  }
  std::map<std::pair<unsigned, std::vector<u128>>, E> memo;
  std::function<E(size_t, size_t, unsigned)> build = [&](size_t lo, size_t hi, unsigned d) -> E {
    bool same = true; for (size_t n = lo; n < hi && same; n++) same = t[n] == t[lo]; if (same) return mkConst(t[lo], w);
    auto key = std::make_pair(d, std::vector<u128>(t.begin() + lo, t.begin() + hi)); auto it = memo.find(key); if (it != memo.end()) return it->second;
    size_t mid = lo + (hi - lo) / 2; E l = build(lo, mid, d + 1), h = build(mid, hi, d + 1);
    E bit = mkExtract(intern(K_VAR, g_vars[pos[d].first].w, pos[d].first, 0), pos[d].second, 1);
    return memo[key] = l == h ? l : mkIte(bit, h, l);
  };
  return build(0, t.size(), 0);
}
E tabulateFn(const std::vector<E>& args, unsigned w, const std::function<u128(const std::vector<u128>&)>& f, unsigned maxBits) {
  std::vector<uint32_t> vs; unsigned bits; if (!support(args, vs, bits, maxBits, 400)) return nullptr;
  return table(vs, bits, w, [&](const Model& m) { std::vector<u128> v; for (E e : args) v.push_back(evalExpr(e, m)); return f(v); });
}
// floating-point comparisons over few input bits which no exact rewriting could decide (square roots, quotients, tabulated functions)
static E tabulate(Kind k, E a, E b) {
  static std::map<std::tuple<int, E, E>, E> done; auto it = done.find({(int)k, a, b}); if (it != done.end()) return it->second;
  std::vector<uint32_t> vs; unsigned bits; E r = nullptr;
  if (support({a, b}, vs, bits, 12, 400)) r = table(vs, bits, 1, [&](const Model& m) -> u128 { double x = asD(evalExpr(a, m)), y = asD(evalExpr(b, m)); return k == K_FLT ? x < y : k == K_FLE ? x <= y : x == y; });
  return done[{(int)k, a, b}] = r;
}
E mkBin(Kind k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = isCmp(k) ? 1 : a->w;
  if (a->isConst() && b->isConst()) { u128 v[3] = {a->c, b->c, 0}; unsigned ws[3] = {a->w, b->w, 0}; return mkConst(evalOp(k, w, 0, v, ws), w); }
  if (isCommut(k)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  u128 M = maskw(w);
  switch (k) {
    case K_ADD:
      if (b->isConst()) { if (!b->c) return a; if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, a->a[0], mkConst(a->a[1]->c + b->c, w)); }
      break;
    case K_SUB:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K_ADD, a, mkConst(0 - b->c, w));
      if (a->k == K_ADD && b->k == K_ADD && a->a[0] == b->a[0]) return mkBin(K_SUB, a->a[1], b->a[1]);
      if (a->k == K_ADD && a->a[0] == b) return a->a[1];
      if (a->k == K_ADD && a->a[1] == b) return a->a[0];
      if (b->k == K_ADD && b->a[0] == a) return mkBin(K_SUB, mkConst(0, w), b->a[1]);
      if (b->k == K_ADD && b->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a, b->a[0]), mkConst(0 - b->a[1]->c, w));
      if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_SUB, a->a[0], b), a->a[1]);
      break;
    case K_MUL:
      if (b->isConst()) {
        if (!b->c) return b; if (b->c == 1) return a;
        if ((b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_MUL, a->a[0], b), mkConst(a->a[1]->c * b->c, w));
      }
      break;
    case K_UDIV: if (b->isConst()) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); } SRange r = srange(a); if (r.lo >= 0 && r.hi < (i128)b->c) return mkConst(0, w); } break;
    case K_SDIV: if (b->isConst()) { if (b->c == 1) return a; SRange r = srange(a); if (r.lo >= 0 && sextw(b->c, w) > 0) return mkBin(K_UDIV, a, b); } break;
    case K_UREM: if (b->isConst()) { if (b->c == 1) return mkConst(0, w); if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K_AND, a, mkConst(b->c - 1, w)); SRange r = srange(a); if (r.lo >= 0 && r.hi < (i128)b->c) return a; } break;
    case K_SREM: if (b->isConst()) { SRange r = srange(a); if (r.lo >= 0 && sextw(b->c, w) > 0) return mkBin(K_UREM, a, b); } break;
    case K_AND:
      if (a == b) return a;
      if (b->isConst()) { if (!b->c) return b; if (b->c == M) return a;
        if (a->k == K_AND && a->a[1]->isConst()) return mkBin(K_AND, a->a[0], mkConst(a->a[1]->c & b->c, w));
        if (a->k == K_ZEXT && (b->c & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
        if ((b->c & (b->c + 1)) == 0) { SRange r = srange(a); if (r.lo >= 0 && r.hi <= (i128)b->c) return a; }
        if (w == 64 && b->c == 0x7fffffffffffffffull) { // fabs
          if (E g = gridOf(a)) { unsigned gw = g->w + 1; E s = sx(g, gw); return gridMk(shrinkS(mkIte(mkBin(K_SLT, s, mkConst(0, gw)), mkBin(K_SUB, mkConst(0, gw), s), s))); }
          if (a->k == K_XOR && a->a[1]->isConst() && a->a[1]->c == 0x8000000000000000ull) return mkBin(K_AND, a->a[0], b);
          if (a->k == K_ITE && (gridOf(a->a[1]) || gridOf(a->a[2]))) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
        }
      }
      if (w == 1) { if (isNotOf(a, b) || isNotOf(b, a)) return mkFalse();
        if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a; if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return b; if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return a; }
      break;
    case K_OR:
      if (a == b) return a;
      if (b->isConst()) { if (!b->c) return a; if (b->c == M) return b; }
      if (w == 1) { if (isNotOf(a, b) || isNotOf(b, a)) return mkTrue();
        if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return a; if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return b;
        if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return b; if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return a; }
      break;
    case K_XOR:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (!b->c) return a;
        if (a->k == K_XOR && a->a[1]->isConst()) return mkBin(K_XOR, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
        if (w == 1) {
          if (a->k == K_ULT) return mkBin(K_ULE, a->a[1], a->a[0]);
          if (a->k == K_ULE) return mkBin(K_ULT, a->a[1], a->a[0]);
          if (a->k == K_SLT) return mkBin(K_SLE, a->a[1], a->a[0]);
          if (a->k == K_SLE) return mkBin(K_SLT, a->a[1], a->a[0]);
          if (a->k == K_ITE && (a->a[1]->isConst() || a->a[2]->isConst())) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2]));
        }
      }
      break;
    case K_SHL: if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w); if (a->k == K_SHL && a->a[1]->isConst()) { u128 s = a->a[1]->c + b->c; return s >= w ? mkConst(0, w) : mkBin(K_SHL, a->a[0], mkConst(s, w)); }
        if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_ADD, mkBin(K_SHL, a->a[0], b), mkConst(a->a[1]->c << (int)b->c, w)); }
      if (a->isConst() && !a->c) return a;
      break;
    case K_LSHR: if (b->isConst()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w);
        if (a->k == K_SHL && a->a[1] == b) { SRange r = srange(a->a[0]); if (r.lo >= 0 && r.hi < ((i128)1 << (w - (int)b->c))) return a->a[0]; }
        SRange r = srange(a); if (r.lo >= 0 && r.hi < ((i128)1 << (int)b->c)) return mkConst(0, w); }
      if (a->isConst() && !a->c) return a;
      break;
    case K_ASHR: if (b->isConst()) { if (!b->c) return a;
        if (a->k == K_SHL && a->a[1] == b && b->c < w) { SRange r = srange(a->a[0]); i128 lim = (i128)1 << (w - 1 - (int)b->c); if (r.lo >= -lim && r.hi < lim) return a->a[0]; }
        SRange r = srange(a); if (r.lo >= 0) return mkBin(K_LSHR, a, b); }
      break;
    case K_EQ:
      if (a == b) return mkTrue();
      if (w == 1 && a->w == 1 && b->isConst()) return b->c ? a : mkNot(a);
      if (b->isConst()) {
        SRange r = srange(a); i128 c = sextw(b->c, a->w); if (c < r.lo || c > r.hi) return mkFalse();
        if (a->k == K_ADD && a->a[1]->isConst()) return mkBin(K_EQ, a->a[0], mkConst(b->c - a->a[1]->c, a->w));
        if (a->k == K_XOR && a->a[1]->isConst()) return mkBin(K_EQ, a->a[0], mkConst(b->c ^ a->a[1]->c, a->w));
        if (a->k == K_ZEXT) { if (b->c >> a->a[0]->w) return mkFalse(); return mkBin(K_EQ, a->a[0], mkConst(b->c, a->a[0]->w)); }
        if (a->k == K_SEXT) { unsigned iw = a->a[0]->w; if (((u128)sextw(b->c, iw) & maskw(a->w)) != b->c) return mkFalse(); return mkBin(K_EQ, a->a[0], mkConst(b->c, iw)); }
        if (a->k == K_CONCAT) { unsigned lw = a->a[1]->w; return mkBin(K_AND, mkBin(K_EQ, a->a[0], mkConst(b->c >> lw, a->a[0]->w)), mkBin(K_EQ, a->a[1], mkConst(b->c, lw))); }
        if (a->k == K_SHL && a->a[1]->isConst()) { unsigned s = (unsigned)a->a[1]->c; if (b->c & maskw(s)) return mkFalse(); SRange q = srange(a->a[0]); if (q.lo >= 0 && q.hi < ((i128)1 << (a->w - s))) return mkBin(K_EQ, a->a[0], mkConst(b->c >> s, a->w)); i128 lim = (i128)1 << (a->w - 1 - s); if (s < a->w - 1 && q.lo >= -lim && q.hi < lim) return mkBin(K_EQ, a->a[0], mkConst((u128)(sextw(b->c, a->w) >> s), a->w)); }
        if (a->k == K_ITE && (a->a[1]->isConst() || a->a[2]->isConst())) {
          E t = mkBin(K_EQ, a->a[1], b), f = mkBin(K_EQ, a->a[2], b);
          return mkIte(a->a[0], t, f);
        }
        if (a->k == K_SUB && !b->c) return mkBin(K_EQ, a->a[0], a->a[1]);
      } else {
        if ((a->k == K_ZEXT && b->k == K_ZEXT) || (a->k == K_SEXT && b->k == K_SEXT)) if (a->a[0]->w == b->a[0]->w) return mkBin(K_EQ, a->a[0], b->a[0]);
        if (a->k == K_ADD && b->k == K_ADD && a->a[0] == b->a[0]) return mkBin(K_EQ, a->a[1], b->a[1]);
        if (a->k == K_ADD && b->k == K_ADD && a->a[1]->isConst() && b->a[1]->isConst() && a->a[1] == b->a[1]) return mkBin(K_EQ, a->a[0], b->a[0]);
        SRange x = srange(a), y = srange(b); if (x.hi < y.lo || y.hi < x.lo) return mkFalse();
        if (a->w > 1 && a->k == K_ITE && a->constIte) return mkIte(a->a[0], mkBin(K_EQ, a->a[1], b), mkBin(K_EQ, a->a[2], b));
        if (b->w > 1 && b->k == K_ITE && b->constIte) return mkIte(b->a[0], mkBin(K_EQ, a, b->a[1]), mkBin(K_EQ, a, b->a[2]));
      }
      break;
    case K_ULT: case K_ULE: {
      if (a == b) return mkConst(k == K_ULE, 1);
      if (k == K_ULT && b->isConst() && !b->c) return mkFalse();
      if (k == K_ULT && b->isConst() && b->c == 1) return mkBin(K_EQ, a, mkConst(0, a->w));
      if (k == K_ULE && a->isConst() && !a->c) return mkTrue();
      if (k == K_ULE && b->isConst() && !b->c) return mkBin(K_EQ, a, b);
      if (k == K_ULT && a->isConst() && !a->c) return mkNot(mkBin(K_EQ, b, a));
      if (k == K_ULE && b->isConst() && b->c == maskw(b->w)) return mkTrue();
      if (k == K_ULT && a->isConst() && a->c == maskw(a->w)) return mkFalse();
      if (a->w == 1) { return k == K_ULT ? mkBin(K_AND, mkNot(a), b) : mkBin(K_OR, mkNot(a), b); }
      SRange x = srange(a), y = srange(b);
      if (x.lo >= 0 && y.lo >= 0) { if (k == K_ULT) { if (x.hi < y.lo) return mkTrue(); if (x.lo >= y.hi) return mkFalse(); } else { if (x.hi <= y.lo) return mkTrue(); if (x.lo > y.hi) return mkFalse(); } }
      else if (x.lo >= 0 && y.hi < 0) return mkTrue();
      else if (x.hi < 0 && y.lo >= 0) return mkFalse();
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
      if (a->k == K_ZEXT && b->isConst()) { if (b->c >> a->a[0]->w) return mkTrue(); return mkBin(k, a->a[0], mkConst(b->c, a->a[0]->w)); }
      if (b->k == K_ZEXT && a->isConst()) { if (a->c >> b->a[0]->w) return mkFalse(); return mkBin(k, mkConst(a->c, b->a[0]->w), b->a[0]); }
      break; }
    case K_SLT: case K_SLE: {
      if (a == b) return mkConst(k == K_SLE, 1);
      SRange x = srange(a), y = srange(b);
      if (k == K_SLT) { if (x.hi < y.lo) return mkTrue(); if (x.lo >= y.hi) return mkFalse(); } else { if (x.hi <= y.lo) return mkTrue(); if (x.lo > y.hi) return mkFalse(); }
      if (a->w == 1) break;
      if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkBin(k, a->a[0], b->a[0]);
      if (a->k == K_SEXT && b->isConst()) { unsigned iw = a->a[0]->w; if (sextw(b->c, b->w) == sextw(b->c, iw)) return mkBin(k, a->a[0], mkConst(b->c, iw)); }
      if (b->k == K_SEXT && a->isConst()) { unsigned iw = b->a[0]->w; if (sextw(a->c, a->w) == sextw(a->c, iw)) return mkBin(k, mkConst(a->c, iw), b->a[0]); }
      if (x.lo >= 0 && y.lo >= 0) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
      break; }
    case K_FLT: case K_FLE: case K_FEQ: case K_FUNO: if (E r = simpFCmp(k, a, b)) return r; break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: if (E r = simpFArith(k, a, b)) return r; break;
    default: break;
  }
  // distribute over constant-leaf ite
  if (a->k == K_ITE && a->constIte && b->isConst() && leafCount(a) <= 32) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
  if (b->k == K_ITE && b->constIte && a->isConst() && leafCount(b) <= 32) return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
  if ((isFpArith(k) || isCmp(k)) && a->k == K_ITE && b->k == K_ITE && a->a[0] == b->a[0]) return mkIte(a->a[0], mkBin(k, a->a[1], b->a[1]), mkBin(k, a->a[2], b->a[2]));
  if ((k == K_FLT || k == K_FLE || k == K_FEQ) && a->w == 64) if (E r = tabulate(k, a, b)) return r;
  return intern(k, w, 0, 0, a, b);
}

E mkIte(E c, E a, E b) {
  assert(c->w == 1 && a->w == b->w);
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
    if (a->isConst()) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
    if (b->isConst()) return b->c ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    if (a == c) return mkBin(K_OR, c, b);
    if (b == c) return mkBin(K_AND, c, a);
  }
  if (c->k == K_XOR && c->a[1]->isConst()) return mkIte(c->a[0], b, a); // not
  if (a->k == K_ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
  if (b->k == K_ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
  if (b->k == K_ITE && b->a[1] == a) return mkIte(mkBin(K_OR, c, b->a[0]), a, b->a[2]);
  if (a->w == 64) {
    E ga = gridOf(a), gb = gridOf(b);
    if (ga && gb && (a->k == K_SITOFP || b->k == K_SITOFP)) { unsigned w = std::max(ga->w, gb->w); return gridMk(shrinkS(mkIte(c, sx(ga, w), sx(gb, w)))); }
  }
  if (a->k == K_ZEXT && b->k == K_ZEXT && a->a[0]->w == b->a[0]->w) return mkZExt(mkIte(c, a->a[0], b->a[0]), a->w);
  if (a->k == K_SEXT && b->k == K_SEXT && a->a[0]->w == b->a[0]->w) return mkSExt(mkIte(c, a->a[0], b->a[0]), a->w);
  return intern(K_ITE, a->w, 0, 0, c, a, b);
}
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (a->isConst()) return mkConst(a->c, w);
  if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
  if (a->k == K_ITE && a->constIte && leafCount(a) <= 32) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
  if (a->k == K_EXTRACT && a->p == 0 && a->a[0]->w == w) { SRange r = srange(a->a[0]); if (r.lo >= 0 && r.hi <= (i128)maskw(a->w)) return a->a[0]; }
  return intern(K_ZEXT, w, 0, 0, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a; assert(a->w < w);
  if (a->isConst()) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a[0], w);
  if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
  if (a->k == K_ITE && a->constIte && leafCount(a) <= 32) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  if (a->w > 1) { SRange r = srange(a); if (r.lo >= 0) return mkZExt(a, w); }
  if (a->k == K_EXTRACT && a->p == 0 && a->a[0]->w == w) { SRange r = srange(a->a[0]); if (r.lo >= -((i128)1 << (a->w - 1)) && r.hi < ((i128)1 << (a->w - 1))) return a->a[0]; }
  return intern(K_SEXT, w, 0, 0, a);
}
static E mkExtract1(E a, unsigned lo, unsigned w);
// the slices of shared sub-terms are remembered: hash mixing functions are deep dags, not trees
E mkExtract(E a, unsigned lo, unsigned w) {
  if (a->isConst() || a->k == K_EXTRACT || a->k == K_CONCAT || (lo == 0 && w == a->w) || !(a->k == K_ITE || a->k == K_ADD || a->k == K_SUB || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR || a->k == K_LSHR || a->k == K_SHL)) return mkExtract1(a, lo, w);
  struct Key { E a; uint32_t p; bool operator==(const Key&) const = default; }; struct H { size_t operator()(const Key& k) const { return (size_t)(uintptr_t)k.a * 0x9e3779b97f4a7c15ull ^ k.p * 0x85ebca6bu; } };
  static std::unordered_map<Key, E, H> memo; Key k{a, (lo << 16) | w}; auto it = memo.find(k); if (it != memo.end()) return it->second;
  E r = mkExtract1(a, lo, w); if (memo.size() > 1000000) memo.clear(); memo[k] = r; return r;
}
static E mkExtract1(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a; assert(lo + w <= a->w);
  if (a->isConst()) return mkConst(a->c >> lo, w);
  if (a->k == K_EXTRACT) return mkExtract(a->a[0], a->p + lo, w);
  if (a->k == K_CONCAT) { unsigned lw = a->a[1]->w; if (lo + w <= lw) return mkExtract(a->a[1], lo, w); if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo)); }
  if (a->k == K_ZEXT) { unsigned iw = a->a[0]->w; if (lo >= iw) return mkConst(0, w); if (lo + w <= iw) return mkExtract(a->a[0], lo, w); if (lo == 0) return mkZExt(a->a[0], w); return mkZExt(mkExtract(a->a[0], lo, iw - lo), w); }
  if (a->k == K_SEXT) { unsigned iw = a->a[0]->w; if (lo + w <= iw) return mkExtract(a->a[0], lo, w); if (lo == 0) return mkSExt(a->a[0], w); }
  if (a->k == K_ITE && a->constIte && leafCount(a) <= 32) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  if (a->k == K_ITE && (a->a[1]->isConst() || a->a[2]->isConst())) return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  if (a->depth > 40) return intern(K_EXTRACT, w, lo, 0, a); // hash mixing: slicing all of it again multiplies the term
  if (lo == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR)) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
  if (lo && (a->k == K_AND || a->k == K_OR || a->k == K_XOR)) return mkBin(a->k, mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  if (a->k == K_LSHR && a->a[1]->isConst() && (unsigned)a->a[1]->c + lo + w <= a->w) return mkExtract(a->a[0], (unsigned)a->a[1]->c + lo, w);
  if (a->k == K_SHL && a->a[1]->isConst()) { unsigned s = (unsigned)a->a[1]->c; if (lo >= s) return mkExtract(a->a[0], lo - s, w); if (lo + w <= s) return mkConst(0, w); }
  return intern(K_EXTRACT, w, lo, 0, a);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->isConst() && !hi->c) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->p == lo->p + lo->w) return mkExtract(hi->a[0], lo->p, w);
  if (lo->k == K_CONCAT && hi->k == K_EXTRACT && lo->a[0]->k == K_EXTRACT && lo->a[0]->a[0] == hi->a[0] && hi->p == lo->a[0]->p + lo->a[0]->w) return mkConcat(mkExtract(hi->a[0], lo->a[0]->p, hi->w + lo->a[0]->w), lo->a[1]);
  if (hi->k == K_EXTRACT && hi->p == lo->w && hi->a[0]->w > hi->p && lo == mkExtract(hi->a[0], 0, lo->w)) return mkExtract(hi->a[0], 0, w);
  return intern(K_CONCAT, w, 0, 0, hi, lo);
}
E mkFUn(Kind k, E a, unsigned w, unsigned p) {
  if (a->isConst()) { u128 v[3] = {a->c, 0, 0}; unsigned ws[3] = {a->w, 0, 0}; return mkConst(evalOp(k, w, p, v, ws), w); }
  if (a->k == K_ITE && a->constIte && leafCount(a) <= 32) return mkIte(a->a[0], mkFUn(k, a->a[1], w, p), mkFUn(k, a->a[2], w, p));
  if (w == 64 && (k == K_SITOFP || k == K_UITOFP)) {
    SRange r = srange(a);
    if (r.lo >= -((i128)1 << 40) && r.hi < ((i128)1 << 40) && (k == K_SITOFP || r.lo >= 0)) {
      E s = a; while (s->k == K_SEXT) s = s->a[0];
      if (s->k == K_ZEXT) s = mkZExt(s->a[0], s->a[0]->w + 1);
      s = shrinkS(s);
      return intern(K_SITOFP, 64, 0, 0, s);
    }
  }
  if ((k == K_FPTOSI || k == K_FPTOUI) && a->w == 64) { if (E g = gridOf(a)) { SRange r = srange(g); if (w >= g->w && (k == K_FPTOSI || r.lo >= 0)) return mkSExt(g, w); if (r.lo >= -((i128)1 << (w - 1)) && r.hi < ((i128)1 << (w - 1)) && (k == K_FPTOSI || r.lo >= 0)) return mkExtract(g, 0, w); } }
  if ((k == K_FPTOSI || k == K_FPTOUI) && a->w == 64) { Fix x = fixOf(a); if (x.i && x.sh && x.i->w <= 50) { unsigned fw = std::max<unsigned>(x.i->w + 2, x.sh + 2); E i = sx(x.i, fw), z = mkConst(0, fw), s = mkConst(x.sh, fw), one = mkConst(((u128)1 << x.sh) - 1, fw); E t = shrinkS(mkIte(mkBin(K_SLT, i, z), mkBin(K_ASHR, mkBin(K_ADD, i, one), s), mkBin(K_ASHR, i, s))); SRange r = srange(t); if (r.lo >= (k == K_FPTOSI ? -((i128)1 << (w - 1)) : 0) && r.hi < ((i128)1 << (w - 1))) return w >= t->w ? mkSExt(t, w) : mkExtract(t, 0, w); } }
  if (k == K_FRND && gridOf(a)) return a;
  if (k == K_FPCVT && a->w == w) return a;
  return intern(k, w, p, 0, a);
}
E mkFma(E a, E b, E c) {
  if (a->isConst() && b->isConst() && c->isConst()) { u128 v[3] = {a->c, b->c, c->c}; unsigned ws[3] = {a->w, a->w, a->w}; return mkConst(evalOp(K_FMA, a->w, 0, v, ws), a->w); }
  return intern(K_FMA, a->w, 0, 0, a, b, c);
}

static const char* kn[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat", "fadd", "fsub", "fmul", "fdiv", "fsqrt", "frem", "flt", "fle", "feq", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpcvt", "frnd", "fma"};
std::string exprStr(E e, int depth) {
  char buf[64];
  if (e->isConst()) { snprintf(buf, 64, "%llu", (unsigned long long)e->c); return buf; }
  if (e->k == K_VAR) return g_vars[e->p].name + "#" + std::to_string(e->p);
  if (!depth) return "..";
  std::string s = std::string("(") + kn[e->k];
  if (e->k == K_EXTRACT || e->k == K_ZEXT || e->k == K_SEXT) s += std::to_string(e->w) + (e->k == K_EXTRACT ? "@" + std::to_string(e->p) : "");
  for (int i = 0; i < e->nops; i++) s += " " + exprStr(e->a[i], depth - 1);
  return s + ")";
}
