// Builtin functions: allocation, C library, exception ABI, maths, threads, and the harness primitives.
#include "xi.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <algorithm>
using namespace llvm;

typedef std::vector<Val> Args;
static State* ST(Exec& X) { return X.S; }
static void ret(Exec& X, const Inst& I, Val v) { if (I.dst >= 0) X.F->regs[I.dst] = v; }
#define BUILTIN(n) static int n(Exec& X, FnCode* fn, const Inst& I, const CallSite& cs, Args& a)

bool Exec::assume(State* s, E c) {
  if (c->isConst()) { if (!c->c) { assumeKilled++; throw PathEnd{"assume"}; } return true; }
  if (evalExpr(c, s->model)) { addPC(s, c); return true; }
  Model m; Res r = query(s, c, &m);
  if (r == SAT) { s->model = std::move(m); addPC(s, c); return true; }
  if (r == UNKNOWN) { incomplete = true; throw PathEnd{"unknown-assume"}; }
  assumeKilled++; throw PathEnd{"assume"};
}

// ------------------------------------------------------------------ allocation
static Val newObj(Exec& X, uint64_t n, uint8_t kind, bool zero) {
  if (n > (1ull << 24) - 64) X.unsupported(ST(X), "allocation larger than 16 MB");
  uint32_t id = ST(X)->mem.alloc(n, kind, zero); return CV(addrOf(id));
}
static bool allocFails(Exec& X) {
  State* s = ST(X); if (!s->allocFaults) return false;
  E v = X.inputVar(s, "alloc_fails", 0, 1, 0, 0); bool b = X.decide(s, v); s->inputs.push_back({"alloc_fails", 0, mkConst(b, 1)}); return b;
}
BUILTIN(b_new) { uint64_t n = X.conc(ST(X), a[0]); if (n > (1ull << 24) - 64) { if (n > (1ull << 47)) { X.throwStd(ST(X), "_ZTISt9bad_alloc"); return 1; } X.unsupported(ST(X), "allocation larger than 16 MB"); } if (allocFails(X)) { X.throwStd(ST(X), "_ZTISt9bad_alloc"); return 1; } ST(X)->heapLive++; ret(X, I, newObj(X, n, fn->name[3] == 'a' ? 4 : 3, false)); return 0; }
BUILTIN(b_newnt) { uint64_t n = X.conc(ST(X), a[0]); ST(X)->heapLive++; ret(X, I, newObj(X, n, fn->name[3] == 'a' ? 4 : 3, false)); return 0; }
static void doFree(Exec& X, const Val& p, uint8_t kind, Val* size) {
  State* s = ST(X); uint64_t ad = X.conc(s, p); if (!ad) return;
  const Obj* o = (ad >> SEG) < s->mem.next ? s->mem.get(ad >> SEG) : nullptr;
  if (!o) X.memViolation(s, "double-free", ad, 0, true);
  if ((ad & 0xffffff) || (o->kind != 2 && o->kind != 3 && o->kind != 4)) X.memViolation(s, "invalid-free", ad, 0, true);
  if (o->kind != kind) X.memViolation(s, "alloc-dealloc-mismatch", ad, 0, true);
  if (size) { uint64_t n = X.conc(s, *size); if (n != o->size) X.memViolation(s, "sized-delete-mismatch", ad, n, true); }
  s->heapLive--; if (s->mt) X.raceRange(s, ad, o->size, true); s->mem.release(ad >> SEG);
}
BUILTIN(b_delete) { doFree(X, a[0], fn->name[3] == 'a' ? 4 : 3, nullptr); return 0; }
BUILTIN(b_delete_sz) { doFree(X, a[0], fn->name[3] == 'a' ? 4 : 3, &a[1]); return 0; }
BUILTIN(b_malloc) { ST(X)->heapLive++; ret(X, I, newObj(X, X.conc(ST(X), a[0]), 2, false)); return 0; }
BUILTIN(b_calloc) { uint64_t n = X.conc(ST(X), a[0]), m = X.conc(ST(X), a[1]); ST(X)->heapLive++; ret(X, I, newObj(X, n * m, 2, true)); return 0; }
BUILTIN(b_aligned) { uint64_t n = X.conc(ST(X), a[1]); ST(X)->heapLive++; ret(X, I, newObj(X, n, 2, false)); return 0; }
BUILTIN(b_free) { doFree(X, a[0], 2, nullptr); return 0; }
BUILTIN(b_realloc) { State* s = ST(X); uint64_t p = X.conc(s, a[0]), n = X.conc(s, a[1]); Val q = newObj(X, n, 2, false); s->heapLive++; if (p) { uint64_t k = std::min<uint64_t>(n, s->mem.get(p >> SEG)->size); X.memCopy(s, q.c, p, k); doFree(X, a[0], 2, nullptr); } ret(X, I, q); return 0; }

// ------------------------------------------------------------------ memory / strings
BUILTIN(b_memcpy) { State* s = ST(X); uint64_t n = X.conc(s, a[2]), d = X.conc(s, a[0]), q = X.conc(s, a[1]); if (s->mt) { X.raceRange(s, q, n, false); X.raceRange(s, d, n, true); } X.memCopy(s, d, q, n); ret(X, I, CV(d)); return 0; }
BUILTIN(b_memset) { State* s = ST(X); uint64_t n = X.conc(s, a[2]), d = X.conc(s, a[0]); X.memSet(s, d, fromE(mkExtract(toE(a[1], 32), 0, 8)), n); ret(X, I, CV(d)); return 0; }
BUILTIN(b_memcmp) {
  State* s = ST(X); uint64_t n = X.conc(s, a[2]), p = X.conc(s, a[0]), q = X.conc(s, a[1]); bool eqOnly = fn->name == "bcmp";
  E r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) { E x = toE(X.loadMem(s, CV(p + i), 0, 1, 8), 8), y = toE(X.loadMem(s, CV(q + i), 0, 1, 8), 8); r = mkIte(mkEq(x, y), r, eqOnly ? mkConst(1, 32) : mkIte(mkBin(K_ULT, x, y), mkConst(~0u, 32), mkConst(1, 32))); }
  ret(X, I, fromE(r)); return 0;
}
BUILTIN(b_memchr) { State* s = ST(X); uint64_t p = X.conc(s, a[0]), n = X.conc(s, a[2]); E c = mkExtract(toE(a[1], 32), 0, 8); for (uint64_t i = 0; i < n; i++) { E x = toE(X.loadMem(s, CV(p + i), 0, 1, 8), 8); if (X.decide(s, mkEq(x, c))) { ret(X, I, CV(p + i)); return 0; } } ret(X, I, CV(0)); return 0; }
BUILTIN(b_strlen) { State* s = ST(X); uint64_t p = X.conc(s, a[0]), n = 0; while (true) { E x = toE(X.loadMem(s, CV(p + n), 0, 1, 8), 8); if (X.decide(s, mkEq(x, mkConst(0, 8)))) break; n++; } ret(X, I, CV(n)); return 0; }
BUILTIN(b_strcmp) { State* s = ST(X); std::string x = X.readStr(s, X.conc(s, a[0])), y = X.readStr(s, X.conc(s, a[1])); ret(X, I, CV((uint32_t)(x < y ? -1 : x > y ? 1 : 0))); return 0; }

// ------------------------------------------------------------------ runtime
BUILTIN(b_noop) { return 0; }
BUILTIN(b_zero) { ret(X, I, CV(0)); return 0; }
BUILTIN(b_one) { ret(X, I, CV(1)); return 0; }
BUILTIN(b_arg0) { ret(X, I, a[0]); return 0; }
BUILTIN(b_guard_acquire) { State* s = ST(X); Val v = X.loadMem(s, a[0], 0, 1, 8); ret(X, I, CV(v.c ? 0 : 1)); return 0; }
BUILTIN(b_guard_release) { X.storeMem(ST(X), a[0], 0, 1, 8, CV(1)); return 0; }
[[noreturn]] static void die(Exec& X, const char* label, const std::string& d) { X.violation(ST(X), label, d, ST(X)->model); throw PathEnd{"abort"}; }
BUILTIN(b_abort) { die(X, "abort", demangle(fn->name)); }
BUILTIN(b_terminate) { die(X, "uncaught-exception", "std::terminate called"); }
BUILTIN(b_assert_fail) { State* s = ST(X); die(X, "assert", X.readStr(s, a[0].c) + " in " + X.readStr(s, a[1].c) + ":" + std::to_string(a[2].c)); }
BUILTIN(b_glibcxx_assert) { State* s = ST(X); die(X, "assert", X.readStr(s, a[3].c) + " (libstdc++) in " + X.readStr(s, a[2].c)); }
BUILTIN(b_throw_std) {
  static const std::vector<std::pair<const char*, const char*>> m = {{"length_error", "_ZTISt12length_error"}, {"out_of_range", "_ZTISt12out_of_range"}, {"invalid_argument", "_ZTISt16invalid_argument"}, {"logic_error", "_ZTISt11logic_error"}, {"runtime_error", "_ZTISt13runtime_error"}, {"bad_alloc", "_ZTISt9bad_alloc"}, {"bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"bad_function_call", "_ZTISt17bad_function_call"}, {"domain_error", "_ZTISt12domain_error"}, {"bad_cast", "_ZTISt8bad_cast"}, {"bad_optional_access", "_ZTISt19bad_optional_access"}, {"bad_variant_access", "_ZTISt18bad_variant_access"}, {"system_error", "_ZTISt12system_error"}};
  std::string n = demangle(fn->name); size_t p = n.find("__throw_"); n = n.substr(p + 8); n = n.substr(0, n.find('(')); if (n.rfind("out_of_range", 0) == 0) n = "out_of_range";
  for (auto& k : m) if (n == k.first) { X.throwStd(ST(X), k.second); return 1; }
  die(X, "uncaught-exception", demangle(fn->name));
}
BUILTIN(b_alloc_exc) { uint64_t n = X.conc(ST(X), a[0]); Val p = newObj(X, n, 5, false); ST(X)->exc[p.c] = ExcMeta{0, 0, 1, 0}; ret(X, I, p); return 0; }
BUILTIN(b_free_exc) { State* s = ST(X); s->mem.release(a[0].c >> SEG); s->exc.erase(a[0].c); return 0; }
BUILTIN(b_throw) { State* s = ST(X); auto& e = s->exc[a[0].c]; e.ti = a[1].c; e.dtor = a[2].c; X.unwind(s, a[0].c, false); return 1; }
static void release(Exec& X, uint64_t p, bool& pushed) {
  State* s = ST(X); auto it = s->exc.find(p); if (it == s->exc.end()) return;
  if (--it->second.refs > 0) return;
  // the destructor of the thrown object is run by pushing its frame
  uint64_t d = it->second.dtor; s->exc.erase(it);
  if (d) { auto f = X.fnByAddr.find(d); if (f != X.fnByAddr.end() && !f->second->decl) { X.pushFrame(s, f->second, {CV(p)}, 1); pushed = true; } }
}
BUILTIN(b_begin_catch) { State* s = ST(X); uint64_t p = a[0].c; s->exc[p].handlers++; s->th[s->cur].caught.push_back(p); ret(X, I, CV(p)); return 0; }
BUILTIN(b_end_catch) {
  State* s = ST(X); auto& c = s->th[s->cur].caught; if (c.empty()) return 0; uint64_t p = c.back(); c.pop_back();
  auto it = s->exc.find(p); if (it == s->exc.end()) return 0;
  it->second.handlers--; bool pushed = false; release(X, p, pushed);
  return pushed ? 1 : 0;
}
BUILTIN(b_rethrow) { State* s = ST(X); auto& c = s->th[s->cur].caught; if (c.empty()) die(X, "uncaught-exception", "rethrow without an exception"); uint64_t p = c.back(); s->exc[p].refs++; X.unwind(s, p, false); return 1; }
BUILTIN(b_current_exc) { State* s = ST(X); auto& c = s->th[s->cur].caught; uint64_t p = c.empty() ? 0 : c.back(); if (p) s->exc[p].refs++; X.storeMem(s, a[0], 0, 8, 64, CV(p)); return 0; }
BUILTIN(b_rethrow_exc) { State* s = ST(X); uint64_t p = X.conc(s, X.loadMem(s, a[0], 0, 8, 64)); if (!p || !s->exc.count(p)) die(X, "abort", "rethrow_exception of an empty or dead exception pointer"); s->exc[p].refs++; X.unwind(s, p, false); return 1; }
BUILTIN(b_ep_addref) { State* s = ST(X); uint64_t p = X.conc(s, X.loadMem(s, a[0], 0, 8, 64)); if (p) s->exc[p].refs++; return 0; }
BUILTIN(b_ep_release) { State* s = ST(X); uint64_t p = X.conc(s, X.loadMem(s, a[0], 0, 8, 64)); bool pushed = false; if (p) { X.storeMem(s, a[0], 0, 8, 64, CV(0)); release(X, p, pushed); } return pushed ? 1 : 0; }
BUILTIN(b_ep_swap) { State* s = ST(X); Val p = X.loadMem(s, a[0], 0, 8, 64), q = X.loadMem(s, a[1], 0, 8, 64); X.storeMem(s, a[0], 0, 8, 64, q); X.storeMem(s, a[1], 0, 8, 64, p); return 0; }
BUILTIN(b_uncaught) { ret(X, I, CV(0)); return 0; }

// ------------------------------------------------------------------ maths
typedef double (*D1)(double); typedef double (*D2)(double, double);
static const std::map<std::string, D1> d1 = {{"exp", std::exp}, {"exp2", std::exp2}, {"expm1", std::expm1}, {"log", std::log}, {"log2", std::log2}, {"log10", std::log10}, {"log1p", std::log1p}, {"sin", std::sin}, {"cos", std::cos}, {"tan", std::tan}, {"asin", std::asin}, {"acos", std::acos}, {"atan", std::atan}, {"sinh", std::sinh}, {"cosh", std::cosh}, {"tanh", std::tanh}, {"cbrt", std::cbrt}, {"lgamma", std::lgamma}, {"tgamma", std::tgamma}, {"erf", std::erf}, {"erfc", std::erfc}};
static const std::map<std::string, D2> d2 = {{"pow", std::pow}, {"atan2", std::atan2}, {"hypot", std::hypot}, {"fmod", std::fmod}, {"remainder", std::remainder}, {"nextafter", std::nextafter}};
Val Exec::libm(State* s, const char* fn, std::vector<E> args, unsigned w) {
  bool conc = true; for (E e : args) if (!e->isConst()) conc = false;
  if (conc && w == 64) {
    auto i = d1.find(fn); if (i != d1.end()) return CV((uint64_t)fromD(i->second(asD(args[0]->c))));
    auto j = d2.find(fn); if (j != d2.end()) return CV((uint64_t)fromD(j->second(asD(args[0]->c), asD(args[1]->c))));
    if (!strcmp(fn, "ldexp")) return CV((uint64_t)fromD(std::ldexp(asD(args[0]->c), (int)args[1]->c)));
  }
  if (conc && w == 80) {
    long double x = 0, y = 0; memcpy(&x, &args[0]->c, 10); if (args.size() > 1) memcpy(&y, &args[1]->c, 10); long double r;
    std::string n = fn; if (n == "log") r = std::log(x); else if (n == "log2") r = std::log2(x); else if (n == "exp") r = std::exp(x); else if (n == "pow") r = std::pow(x, y); else unsupported(s, std::string("long double ") + fn);
    u128 b = 0; memcpy(&b, &r, 10); return {0, mkConst(b, 80)};
  }
  if (conc && w == 32) { auto i = d1.find(fn); if (i != d1.end()) return CV((uint64_t)fromF((float)i->second(asF(args[0]->c)))); auto j = d2.find(fn); if (j != d2.end()) return CV((uint64_t)fromF((float)j->second(asF(args[0]->c), asF(args[1]->c)))); }
  // constant-leaf argument: table of the possible values
  std::vector<std::pair<E, u128>> lv;
  if (w == 64 && args.size() == 1 && args[0]->constIte && constIteLeaves(args[0], lv, mkTrue(), 64) && d1.count(fn)) { E r = nullptr; for (auto& l : lv) { E v = mkConst(fromD(d1.at(fn)(asD(l.second))), 64); r = r ? mkIte(l.first, v, r) : v; } return fromE(r); }
  if (w == 64 && (d1.count(fn) || d2.count(fn))) if (E r = tabulateFn(args, 64, [&](const std::vector<u128>& v) -> u128 { return fromD(d1.count(fn) ? d1.at(fn)(asD(v[0])) : d2.at(fn)(asD(v[0]), asD(v[1]))); }, 10)) return fromE(r);
  std::string key = std::string("libm_") + fn; contracts.insert(fn);
  E v = freshVar(s, key.c_str(), w, args[0]->id, args.size() > 1 ? args[1]->id : 0);
  if (w == 64) {
    E x = args[0]; E one = mkConst(fromD(1), 64), zero = mkConst(fromD(0), 64), mone = mkConst(fromD(-1), 64), inf = mkConst(fromD(INFINITY), 64);
    auto imp = [&](E p, E q) { assume(s, mkBin(K_OR, mkNot(p), q)); };
    auto nn = [&](E q) { return mkNot(mkBin(K_FUNO, q, q)); };
    std::string n = fn;
    imp(mkNot(nn(x)), n == "pow" ? mkTrue() : mkNot(nn(v)));
    if (n == "exp" || n == "exp2") { imp(nn(x), mkBin(K_FLE, zero, v)); imp(mkBin(K_FLE, x, zero), mkBin(K_FLE, v, one)); imp(mkBin(K_FLE, zero, x), mkBin(K_FLE, one, v)); imp(mkEq(mkBin(K_AND, x, mkConst(maskw(63), 64)), zero), mkEq(v, one)); }
    else if (n == "log" || n == "log2" || n == "log10") { imp(mkBin(K_FLE, zero, x), nn(v)); imp(mkBin(K_FLT, x, zero), mkNot(nn(v))); imp(mkBin(K_AND, mkBin(K_FLE, zero, x), mkBin(K_FLE, x, one)), mkBin(K_FLE, v, zero)); imp(mkBin(K_FLE, one, x), mkBin(K_FLE, zero, v)); imp(mkBin(K_AND, mkBin(K_FLT, zero, x), mkBin(K_FLT, x, inf)), mkBin(K_AND, mkBin(K_FLE, mkConst(fromD(-1100), 64), v), mkBin(K_FLE, v, mkConst(fromD(1100), 64)))); }
    else if (n == "sin" || n == "cos" || n == "tanh" || n == "erf") { E fin = mkBin(K_FLT, mkBin(K_AND, x, mkConst(maskw(63), 64)), inf); imp(fin, mkBin(K_AND, mkBin(K_FLE, mone, v), mkBin(K_FLE, v, one))); }
    else if (n == "pow") {
      E y = args[1]; E ynn = nn(y); E x01 = mkBin(K_AND, mkBin(K_FLE, zero, x), mkBin(K_FLE, x, one)), x1 = mkBin(K_FLE, one, x), yp = mkBin(K_FLE, zero, y), yn = mkBin(K_FLE, y, zero);
      imp(mkBin(K_AND, mkBin(K_FLE, zero, x), ynn), mkBin(K_FLE, zero, v)); imp(mkBin(K_AND, x01, yp), mkBin(K_FLE, v, one)); imp(mkBin(K_AND, x1, yp), mkBin(K_FLE, one, v)); imp(mkBin(K_AND, x1, yn), mkBin(K_FLE, v, one));
    } else if (n == "hypot") { imp(mkBin(K_AND, nn(x), nn(args[1])), mkBin(K_FLE, zero, v)); }
  }
  return fromE(v);
}
BUILTIN(b_libm) {
  std::string n = fn->name; unsigned w = cs.retw; 
  if (w == 32 && n.back() == 'f' && n != "erf") n.pop_back(); if (w == 80 && n.back() == 'l') n.pop_back();
  std::vector<E> e; for (size_t i = 0; i < a.size(); i++) e.push_back(toE(a[i], cs.argw[i]));
  if (n == "sqrt") { ret(X, I, fromE(mkFUn(K_FSQRT, e[0], w))); return 0; }
  if (n == "floor" || n == "ceil" || n == "trunc" || n == "round") { ret(X, I, fromE(mkFUn(K_FRND, e[0], w, n == "floor" ? 0 : n == "ceil" ? 1 : n == "trunc" ? 2 : 3))); return 0; }
  if (n == "fmod") { ret(X, I, fromE(mkBin(K_FREM, e[0], e[1]))); return 0; }
  if (n == "lround" || n == "llround") { E r = mkFUn(K_FRND, e[0], cs.argw[0], 3); ret(X, I, fromE(mkFUn(K_FPTOSI, r, 64))); return 0; }
  static std::vector<std::string> keep; keep.push_back(n);
  ret(X, I, X.libm(ST(X), n.c_str(), e, w)); return 0;
}

// ------------------------------------------------------------------ harness primitives
static const char* cname(Exec& X, const Val& v) { static std::set<std::string> pool; return pool.insert(X.readStr(ST(X), v.c)).first->c_str(); }
E Exec::inputVar(State* s, const char* name, uint8_t kind, unsigned w, uint64_t k1, uint64_t k2) {
  std::string nm = std::string("in") + std::to_string(s->inputs.size()) + ":" + name + "/" + std::to_string(kind) + "/" + std::to_string(k1) + "/" + std::to_string(k2);
  return freshVar(s, nm.c_str(), w, 0, 0);
}
static void setDefault(State* s, E v, u128 val) { if (s->model.v.size() <= v->p) s->model.v.resize(g_vars.size(), 0); s->model.v[v->p] = val; s->model.gen = ++g_modelGen; }
BUILTIN(b_sym_bits) { State* s = ST(X); unsigned w = a[1].c; const char* n = cname(X, a[0]); E v = X.inputVar(s, n, 0, w, 0, 0); s->inputs.push_back({n, 0, mkZExt(v, 64)}); ret(X, I, fromE(mkZExt(v, 64))); return 0; }
static E rangeVar(Exec& X, const char* n, int64_t lo, int64_t hi) {
  State* s = ST(X); if (lo == hi) return mkConst((uint64_t)lo, 64);
  uint64_t span = (uint64_t)hi - (uint64_t)lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  E v = X.inputVar(s, n, 0, w, lo, hi);
  if (span != mask64(w)) { E c = mkBin(K_ULE, v, mkConst(span, w)); if (!evalExpr(c, s->model)) setDefault(s, v, 0); X.addPC(s, c); }
  return mkBin(K_ADD, mkZExt(v, 64), mkConst((uint64_t)lo, 64));
}
BUILTIN(b_sym_range) { const char* n = cname(X, a[0]); E e = rangeVar(X, n, a[1].c, a[2].c); ST(X)->inputs.push_back({n, 0, e}); ret(X, I, fromE(e)); return 0; }
BUILTIN(b_sym_grid) { const char* n = cname(X, a[0]); E e = rangeVar(X, n, a[1].c, a[2].c); E d = mkFUn(K_SITOFP, e, 64); ST(X)->inputs.push_back({n, 1, d}); ret(X, I, fromE(d)); return 0; }
BUILTIN(b_sym_choice) { State* s = ST(X); const char* n = cname(X, a[0]); uint64_t cnt = a[1].c; if (cnt <= 1) { s->inputs.push_back({n, 0, mkConst(0, 64)}); ret(X, I, CV(0)); return 0; } E e = rangeVar(X, n, 0, cnt - 1); uint64_t v = X.concretize(s, e); s->inputs.push_back({n, 0, mkConst(v, 64)}); ret(X, I, CV(v)); return 0; }
BUILTIN(b_sym_min) { ret(X, I, a[0].e ? CV((uint64_t)srange(a[0].e).lo) : a[0]); return 0; }
BUILTIN(b_sym_max) { ret(X, I, a[0].e ? CV((uint64_t)srange(a[0].e).hi) : a[0]); return 0; }
BUILTIN(b_sym_double) { State* s = ST(X); const char* n = cname(X, a[0]); E v = X.inputVar(s, n, 1, 64, 0, 0); s->inputs.push_back({n, 1, v}); ret(X, I, fromE(v)); return 0; }
BUILTIN(b_sym_double_in) {
  State* s = ST(X); const char* n = cname(X, a[0]); double lo = asD(a[1].c), hi = asD(a[2].c); E v = X.inputVar(s, n, 1, 64, a[1].c, a[2].c);
  E c = mkTrue();
  if (!v->fr) { // range facts are attached to the variable; the same facts are asserted in every path that creates it
    if (lo == 0 && !std::signbit(lo)) c = mkBin(K_ULE, v, mkConst(fromD(hi), 64));
    else c = mkBin(K_AND, mkBin(K_FLE, mkConst(a[1].c, 64), v), mkBin(K_FLE, v, mkConst(a[2].c, 64)));
    X.sharedVars["c:" + std::to_string(v->id)] = c; v->fr = new FRange{lo, hi, false};
  } else c = X.sharedVars["c:" + std::to_string(v->id)];
  if (!evalExpr(c, s->model)) setDefault(s, v, fromD(lo));
  X.addPC(s, c); s->inputs.push_back({n, 1, v}); ret(X, I, fromE(v)); return 0;
}
BUILTIN(b_sym_assume) { State* s = ST(X); E c = mkExtract(toE(a[0], cs.argw[0]), 0, 1); if (cs.argw[0] > 1) c = mkNot(mkEq(toE(a[0], cs.argw[0]), mkConst(0, cs.argw[0]))); X.assume(s, c); return 0; }
BUILTIN(b_sym_assert) {
  State* s = ST(X); std::string label = X.readStr(s, a[1].c); E c = toE(a[0], cs.argw[0]); if (cs.argw[0] > 1) c = mkNot(mkEq(c, mkConst(0, cs.argw[0])));
  auto& st = X.asserts[label]; st.checks++;
  if (c->isConst()) { if (!c->c) { if (X.known.count(label)) X.knownHit[label]++; X.violation(s, label, "assertion is false on this path", s->model); throw PathEnd{"violated"}; } return 0; }
  st.sym++;
  Model m; Res r = X.query(s, mkNot(c), &m);
  if (r == SAT) { if (X.known.count(label)) X.knownHit[label]++; X.violation(s, label, "solver found a falsifying assignment", m); }
  else if (r == UNKNOWN) { X.incomplete = true; }
  else st.proved++;
  if (r != UNSAT) X.assume(s, c);
  return 0;
}
BUILTIN(b_sym_reach) { X.reached[X.readStr(ST(X), a[0].c)]++; return 0; }
// the condition has to be satisfiable on at least one path of the whole exploration (decided by the driver once everything is exhausted)
BUILTIN(b_sym_possible) {
  State* s = ST(X); std::string l = X.readStr(s, a[1].c); E c = toE(a[0], cs.argw[0]); if (cs.argw[0] > 1) c = mkNot(mkEq(c, mkConst(0, cs.argw[0])));
  X.reached["wanted:" + l]++; if (X.reached.count("possible:" + l)) return 0;
  if (c->isConst()) { if (c->c) X.reached["possible:" + l]++; return 0; }
  Model m; Res r = X.query(s, c, &m); if (r != UNSAT) X.reached["possible:" + l]++; return 0;
}
BUILTIN(b_sym_conc) { uint64_t v = X.conc(ST(X), a[0]); ret(X, I, CV(v)); return 0; }
BUILTIN(b_sym_alloc_faults) { ST(X)->allocFaults = a[0].c != 0; return 0; }
BUILTIN(b_sym_heap_live) { ret(X, I, CV(ST(X)->heapLive)); return 0; }
BUILTIN(b_sym_print) { if (getenv("SYMEX_PRINT")) fprintf(stderr, "PRINT %s = %lld %s\n", X.readStr(ST(X), a[0].c).c_str(), (long long)a[1].c, a[1].e ? exprStr(a[1].e, 8).c_str() : ""); return 0; }
BUILTIN(b_sym_and) { ret(X, I, fromE(mkBin(K_AND, toE(a[0], cs.argw[0]), toE(a[1], cs.argw[1])))); return 0; }
BUILTIN(b_sym_or) { ret(X, I, fromE(mkBin(K_OR, toE(a[0], cs.argw[0]), toE(a[1], cs.argw[1])))); return 0; }
BUILTIN(b_sym_ite) { E c = toE(a[0], cs.argw[0]); if (c->w > 1) c = mkNot(mkEq(c, mkConst(0, c->w))); ret(X, I, fromE(mkIte(c, toE(a[1], cs.argw[1]), toE(a[2], cs.argw[2])))); return 0; }

// ------------------------------------------------------------------ threads (sequentially consistent interleavings, happens-before race detection)
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(State* s) { auto& v = s->th[s->cur].vc; if (v.size() <= (size_t)s->cur) v.resize(s->cur + 1, 0); v[s->cur]++; }
void Exec::visibleDone(State* s, bool write) { Thread& t = s->th[s->cur]; t.granted = false; if (write) { s->epoch++; t.ownWrites++; } }
void Exec::syncAcq(State* s, uint64_t a) { auto it = s->syncvc.find(a); if (it != s->syncvc.end()) vcJoin(s->th[s->cur].vc, it->second); }
void Exec::syncRel(State* s, uint64_t a) { vcJoin(s->syncvc[a], s->th[s->cur].vc); vcTick(s); }
void Exec::syncLoad(State* s, uint64_t a, unsigned fl) { auto it = s->syncvc.find(a); if (it != s->syncvc.end()) { if (fl & 4) vcJoin(s->th[s->cur].vc, it->second); else vcJoin(s->th[s->cur].acqPend, it->second); } visibleDone(s, false); }
void Exec::syncStore(State* s, uint64_t a, unsigned fl) { Thread& t = s->th[s->cur]; auto& v = s->syncvc[a]; v.clear(); if (fl & 8) { v = t.vc; vcTick(s); } else v = t.relFence; visibleDone(s, true); }
void Exec::syncRmw(State* s, uint64_t a, unsigned fl) { Thread& t = s->th[s->cur]; auto& v = s->syncvc[a]; if (fl & 4) vcJoin(t.vc, v); else vcJoin(t.acqPend, v); if (fl & 8) { vcJoin(v, t.vc); vcTick(s); } else vcJoin(v, t.relFence); visibleDone(s, true); }
void Exec::syncFence(State* s, unsigned fl) { Thread& t = s->th[s->cur]; if (fl & 4) { vcJoin(t.vc, t.acqPend); } if (fl & 8) { t.relFence = t.vc; vcTick(s); } }
static bool hb(const std::vector<uint32_t>& vc, size_t t, uint32_t clk) { return t < vc.size() && vc[t] >= clk; }
// an atomic access is unordered with a plain one unless happens-before orders them; two atomic accesses never race (bit 8 of a mask: the access was atomic)
void Exec::raceRange(State* s, uint64_t a, uint64_t n, bool write, bool atomic) {
  if (!n) return; Thread& t = s->th[s->cur]; if (t.vc.size() <= (size_t)s->cur) t.vc.resize(s->cur + 1, 0); if (!t.vc[s->cur]) t.vc[s->cur] = 1;
  racesChecked++;
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    uint32_t m = 0; for (int i = 0; i < 8; i++) { uint64_t b = g * 8 + i; if (b >= a && b < a + n) m |= 1u << i; } uint32_t kind = atomic ? 0x100 : 0; auto clash = [&](uint32_t o) { return (o & m & 0xff) && !(atomic && (o & 0x100)); };
    auto& r = s->races[g]; // w: triples (tid, clock, mask), r: triples
    bool bad = false;
    for (size_t i = 0; i < r.w.size(); i += 3) if ((int)r.w[i] != s->cur && clash(r.w[i + 2]) && !hb(t.vc, r.w[i], r.w[i + 1])) bad = true;
    if (write) for (size_t i = 0; i < r.r.size(); i += 3) if ((int)r.r[i] != s->cur && clash(r.r[i + 2]) && !hb(t.vc, r.r[i], r.r[i + 1])) bad = true;
    if (bad) { violation(s, "data-race", write ? "unordered write" : "unordered read", s->model); throw PathEnd{"race"}; }
    auto put = [&](std::vector<uint32_t>& v) { for (size_t i = 0; i < v.size(); i += 3) if ((int)v[i] == s->cur && (v[i + 2] & 0x100) == kind) { if (v[i + 1] == t.vc[s->cur]) { v[i + 2] |= m; return; } if (!(v[i + 2] & 0xff & ~m)) { v[i + 1] = t.vc[s->cur]; v[i + 2] = m | kind; return; } } v.push_back(s->cur); v.push_back(t.vc[s->cur]); v.push_back(m | kind); };
    if (write) { bool full = m == 0xff && !atomic; if (full) { r.w.clear(); r.r.clear(); } put(r.w); } else put(r.r);
  }
}
void Exec::raceAcc(State* s, const Val& p, uint64_t off, uint32_t n, bool write, bool atomic) {
  if (p.e) return; uint64_t a = p.c + off; const Obj* o = (a >> SEG) < s->mem.next ? s->mem.get(a >> SEG) : nullptr; if (!o || o->ro) return;
  raceRange(s, a, n, write, atomic);
}
uint64_t Exec::choose(State* s, const char* name, uint64_t n) {
  if (n <= 1) return 0; schedPoints++;
  std::string nm = std::string("sched") + std::to_string(s->sched.size()) + name;
  unsigned w = 1; while ((1ull << w) < n) w++;
  E v = freshVar(s, nm.c_str(), w, n, 0); if ((1ull << w) != n) { E c = mkBin(K_ULT, v, mkConst(n, w)); if (!evalExpr(c, s->model)) setDefault(s, v, 0); addPC(s, c); }
  uint64_t r = concretize(s, v); s->sched.push_back((int)r); return r;
}
enum VK { V_NONE, V_ATOMIC, V_LOCK, V_TRYLOCK, V_CVWAIT, V_NOTIFY, V_JOIN, V_YIELD, V_UNLOCK };
static VK kindOf(Exec& X, State* s, int t) {
  Thread& th = s->th[t]; if (th.frames.empty()) return V_NONE; Frame* f = th.frames.back(); const Inst& I = f->fn->code[f->pc];
  if (I.op == O_LOAD || I.op == O_STORE || I.op == O_RMW || I.op == O_CMPXCHG) return (I.flags & 1) ? V_ATOMIC : V_NONE;
  if (I.op == O_CALL) { FnCode* d = f->fn->calls[I.aux].direct; if (!d) return V_NONE; const std::string& n = d->name; if (n[0] != 'p' && n[0] != '_' && n[0] != 's') return V_NONE;
    if (n == "pthread_mutex_lock") return V_LOCK; if (n == "pthread_mutex_trylock") return V_TRYLOCK; if (n == "pthread_mutex_unlock") return V_UNLOCK;
    if (n == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE") return V_CVWAIT; if (n == "_ZNSt18condition_variable10notify_oneEv" || n == "_ZNSt18condition_variable10notify_allEv") return V_NOTIFY;
    if (n == "_ZNSt6thread4joinEv") return V_JOIN; if (n == "sched_yield") return V_YIELD; }
  if (I.op == O_INTR && I.aux == Intrinsic::x86_sse2_pause) return V_YIELD;
  return V_NONE;
}
static uint64_t argOf(State* s, int t, int k) { Frame* f = s->th[t].frames.back(); const Inst& I = f->fn->code[f->pc]; int32_t o = f->fn->calls[I.aux].args[k]; const Val& v = o >= 0 ? f->regs[o] : f->fn->consts[~o]; return v.c; }
bool Exec::enabled(State* s, int t) {
  Thread& th = s->th[t]; if (th.status == 2) return false;
  if (th.yielded) { uint64_t others = s->epoch - th.ownWrites; if (others <= th.yieldAt) return false; }
  switch (kindOf(*this, s, t)) {
    case V_LOCK: { auto it = s->mutexOwner.find(argOf(s, t, 0)); return it == s->mutexOwner.end() || it->second == 0; }
    case V_CVWAIT: { if (th.stage == 0) return true; if (th.stage == 1) return false; auto it = s->mutexOwner.find(th.waitAux); return it == s->mutexOwner.end() || it->second == 0; }
    case V_JOIN: { Val h = loadMem(s, CV(argOf(s, t, 0)), 0, 8, 64); for (auto& x : s->th) if (x.handle == h.c) return x.status == 2; return true; }
    default: return true;
  }
}
void Exec::switchTo(State* s, int t) { if (t != s->cur) threadSwitches++; s->cur = t; frameW(s); }
bool Exec::schedule(State* s) {
  Thread& t = s->th[s->cur]; bool fin = t.status == 2;
  if (!fin) { if (t.granted) return true; VK k = kindOf(*this, s, s->cur); if (k == V_NONE || k == V_UNLOCK) return true;
    if (!t.haveSeen) { t.haveSeen = true; t.seenOthers = s->epoch - t.ownWrites; } }
  VK k = fin ? V_NONE : kindOf(*this, s, s->cur);
  std::vector<int> opts; bool curOk = !fin && enabled(s, s->cur);
  bool freeSwitch = fin || !curOk || k == V_YIELD;
  if (curOk) opts.push_back(s->cur);
  if (freeSwitch || s->preempt < maxPreempt) for (size_t i = 0; i < s->th.size(); i++) if ((int)i != s->cur && enabled(s, i)) opts.push_back(i);
  if (opts.empty()) {
    bool all = true; for (auto& x : s->th) if (x.status != 2) all = false;
    if (all) { finishPath(s); return false; }
    violation(s, "deadlock", "no thread can make progress", s->model); throw PathEnd{"deadlock"};
  }
  int c = opts[choose(s, fin ? "f" : "", opts.size())]; s->trace += (char)('0' + c);
  if (c != s->cur && !freeSwitch) s->preempt++;
  Thread& n = s->th[c]; n.granted = kindOf(*this, s, c) != V_NONE; if (n.yielded) { n.yielded = false; }
  switchTo(s, c); return true;
}
bool Exec::threadEnd(State* s, Val rv) {
  if (!s->mt || s->cur == 0) return false;
  Thread& t = s->th[s->cur];
  if (!t.tlsDtors.empty()) { auto d = t.tlsDtors.back(); t.tlsDtors.pop_back(); auto it = fnByAddr.find(d.first); if (it == fnByAddr.end()) unsupported(s, "thread local destructor"); pushFrame(s, it->second, {CV(d.second)}, 0); return true; }
  for (auto& x : t.tls) s->mem.release((uint32_t)(x.second >> SEG)); t.tls.clear();
  t.status = 2; t.granted = false; s->epoch++; t.ownWrites++; return true;
}
static void doYield(Exec& X) { State* s = ST(X); Thread& t = s->th[s->cur]; if (!s->mt) return; uint64_t others = s->epoch - t.ownWrites; if (others <= t.seenOthers) { t.yielded = true; t.yieldAt = others; } t.haveSeen = false; X.visibleDone(s, false); }
void symexYield(Exec& X) { doYield(X); }
BUILTIN(b_yield) { doYield(X); ret(X, I, CV(0)); return 0; }
BUILTIN(b_mutex_lock) { State* s = ST(X); if (s->mt) { auto& o = s->mutexOwner[a[0].c]; if (o) die(X, "deadlock", "mutex locked twice"); o = s->cur + 1; X.syncAcq(s, a[0].c); X.visibleDone(s, true); } ret(X, I, CV(0)); return 0; }
BUILTIN(b_mutex_trylock) { State* s = ST(X); if (s->mt) { auto& o = s->mutexOwner[a[0].c]; X.visibleDone(s, true); if (o) { ret(X, I, CV(16)); return 0; } o = s->cur + 1; X.syncAcq(s, a[0].c); } ret(X, I, CV(0)); return 0; }
BUILTIN(b_mutex_unlock) { State* s = ST(X); if (s->mt) { auto& o = s->mutexOwner[a[0].c]; if (o != (uint64_t)s->cur + 1 && o != 0) die(X, "memory:unlock", "unlock of a mutex held by another thread"); o = 0; X.syncRel(s, a[0].c); s->epoch++; s->th[s->cur].ownWrites++; } ret(X, I, CV(0)); return 0; }
BUILTIN(b_cv_wait) {
  State* s = ST(X); Thread& t = s->th[s->cur]; uint64_t mtx = X.conc(s, X.loadMem(s, a[1], 0, 8, 64));
  if (!s->mt) die(X, "deadlock", "condition wait without other threads");
  if (t.stage == 0) { t.stage = 1; t.waitAddr = a[0].c; t.waitAux = mtx; s->mutexOwner[mtx] = 0; X.syncRel(s, mtx); X.visibleDone(s, true); return 1; }
  t.stage = 0; s->mutexOwner[mtx] = s->cur + 1; X.syncAcq(s, mtx); X.visibleDone(s, true); return 0;
}
BUILTIN(b_cv_notify_all) { State* s = ST(X); for (auto& t : s->th) if (t.stage == 1 && t.waitAddr == a[0].c) t.stage = 2; if (s->mt) X.visibleDone(s, true); return 0; }
BUILTIN(b_cv_notify_one) { State* s = ST(X); std::vector<int> w; for (size_t i = 0; i < s->th.size(); i++) if (s->th[i].stage == 1 && s->th[i].waitAddr == a[0].c) w.push_back(i); if (!w.empty()) { int k = w[X.choose(s, "n", w.size())]; s->th[k].stage = 2; } if (s->mt) X.visibleDone(s, true); return 0; }
BUILTIN(b_thread_atexit) { State* s = ST(X); if (s->mt && s->cur != 0) s->th[s->cur].tlsDtors.push_back({X.conc(s, a[0]), X.conc(s, a[1])}); ret(X, I, CV(0)); return 0; }
BUILTIN(b_hwc) { ret(X, I, CV(X.hwc)); return 0; }
BUILTIN(b_self) { State* s = ST(X); ret(X, I, CV(s->cur == 0 ? 0x7000 : s->th[s->cur].handle)); return 0; }
BUILTIN(b_thread_start) {
  // std::thread::_M_start_thread(unique_ptr<_State>, void(*)())
  State* s = ST(X); uint64_t stp = X.conc(s, X.loadMem(s, a[1], 0, 8, 64)); X.storeMem(s, a[1], 0, 8, 64, CV(0));
  uint64_t vt = X.conc(s, X.loadMem(s, CV(stp), 0, 8, 64)); uint64_t run = X.conc(s, X.loadMem(s, CV(vt), 16, 8, 64));
  auto it = X.fnByAddr.find(run); if (it == X.fnByAddr.end()) X.unsupported(s, "thread entry");
  s->mt = true; int parent = s->cur; if (s->th[parent].vc.size() <= (size_t)parent) s->th[parent].vc.resize(parent + 1, 0); if (!s->th[parent].vc[parent]) s->th[parent].vc[parent] = 1;
  Thread nt; nt.handle = 0x7000 + 16 * s->th.size(); nt.vc = s->th[parent].vc; size_t id = s->th.size(); nt.vc.resize(id + 1, 0); nt.vc[id] = 1;
  uint64_t h = nt.handle; s->th.push_back(std::move(nt)); X.storeMem(s, a[0], 0, 8, 64, CV(h));
  FnCode* fc = it->second; Frame* keep = X.F; s->cur = id; X.pushFrame(s, fc, {CV(stp)}, 0); s->cur = parent; X.F = keep;
  vcTick(s); return 0;
}
BUILTIN(b_thread_join) { State* s = ST(X); uint64_t h = X.conc(s, X.loadMem(s, a[0], 0, 8, 64)); for (auto& t : s->th) if (t.handle == h) { if (t.status != 2) die(X, "deadlock", "join"); vcJoin(s->th[s->cur].vc, t.vc); } X.storeMem(s, a[0], 0, 8, 64, CV(0)); X.visibleDone(s, false); return 0; }
BUILTIN(b_thread_detach) { X.storeMem(ST(X), a[0], 0, 8, 64, CV(0)); return 0; }

// ------------------------------------------------------------------ lookup
static const std::map<std::string, Builtin>& table() {
  static std::map<std::string, Builtin> t;
  if (!t.empty()) return t;
  for (auto n : {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) t[n] = b_new;
  for (auto n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) t[n] = b_newnt;
  for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) t[n] = b_delete;
  for (auto n : {"_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) t[n] = b_delete_sz;
  t["malloc"] = b_malloc; t["calloc"] = b_calloc; t["free"] = b_free; t["realloc"] = b_realloc; t["aligned_alloc"] = b_aligned;
  t["memcpy"] = t["memmove"] = b_memcpy; t["memset"] = b_memset; t["memcmp"] = t["bcmp"] = b_memcmp; t["memchr"] = b_memchr; t["strlen"] = b_strlen; t["strcmp"] = b_strcmp;
  t["__cxa_guard_acquire"] = b_guard_acquire; t["__cxa_guard_release"] = b_guard_release; t["__cxa_guard_abort"] = b_noop; t["__cxa_atexit"] = b_zero; t["atexit"] = b_zero; t["__cxa_thread_atexit"] = b_thread_atexit;
  t["abort"] = t["_exit"] = t["exit"] = t["__cxa_pure_virtual"] = t["__stack_chk_fail"] = t["quick_exit"] = b_abort; t["_ZSt9terminatev"] = b_terminate; t["__assert_fail"] = b_assert_fail; t["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = b_glibcxx_assert;
  t["__cxa_allocate_exception"] = b_alloc_exc; t["__cxa_free_exception"] = b_free_exc; t["__cxa_throw"] = b_throw; t["__cxa_begin_catch"] = b_begin_catch; t["__cxa_end_catch"] = b_end_catch; t["__cxa_rethrow"] = b_rethrow; t["__cxa_get_exception_ptr"] = b_arg0; t["__cxa_throw_bad_array_new_length"] = b_throw_std; t["__clang_call_terminate"] = b_terminate;
  t["_ZSt17current_exceptionv"] = b_current_exc; t["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = b_rethrow_exc; t["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = b_ep_addref; t["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = b_ep_release; t["_ZNSt15__exception_ptr13exception_ptrD1Ev"] = b_ep_release; t["_ZNSt15__exception_ptr13exception_ptr4swapERS0_"] = b_ep_swap;
  t["_ZSt18uncaught_exceptionv"] = t["_ZSt19uncaught_exceptionsv"] = b_uncaught;
  for (auto& k : d1) { t[k.first] = b_libm; t[k.first + "f"] = b_libm; t[k.first + "l"] = b_libm; } for (auto& k : d2) { t[k.first] = b_libm; t[k.first + "f"] = b_libm; t[k.first + "l"] = b_libm; }
  for (auto n : {"sqrt", "floor", "ceil", "trunc", "round", "lround", "llround", "sqrtf", "floorf", "ceilf", "sqrtl", "floorl", "ceill", "truncl", "roundl"}) t[n] = b_libm;
  t["_ZNSt6chrono3_V212system_clock3nowEv"] = t["_ZNSt6chrono3_V212steady_clock3nowEv"] = b_zero;
  t["_ZNSt8ios_base4InitC1Ev"] = t["_ZNSt8ios_base4InitD1Ev"] = t["puts"] = t["printf"] = t["fprintf"] = t["fflush"] = t["perror"] = b_zero;
  t["sym_bits"] = b_sym_bits; t["sym_range"] = b_sym_range; t["sym_grid"] = b_sym_grid; t["sym_choice"] = b_sym_choice; t["sym_double"] = b_sym_double; t["sym_double_in"] = b_sym_double_in; t["sym_assume"] = b_sym_assume; t["sym_assert"] = b_sym_assert; t["sym_reach"] = b_sym_reach; t["sym_possible"] = b_sym_possible; t["sym_concretize"] = b_sym_conc; t["sym_min"] = b_sym_min; t["sym_max"] = b_sym_max; t["sym_alloc_faults"] = b_sym_alloc_faults; t["sym_heap_live"] = b_sym_heap_live; t["sym_print"] = b_sym_print; t["sym_and"] = b_sym_and; t["sym_or"] = b_sym_or; t["sym_ite"] = b_sym_ite;
  t["sched_yield"] = b_yield; t["pthread_mutex_lock"] = b_mutex_lock; t["pthread_mutex_trylock"] = b_mutex_trylock; t["pthread_mutex_unlock"] = b_mutex_unlock; t["pthread_self"] = b_self; t["__gthread_active_p"] = b_one;
  t["_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"] = b_cv_wait; t["_ZNSt18condition_variable10notify_oneEv"] = b_cv_notify_one; t["_ZNSt18condition_variable10notify_allEv"] = b_cv_notify_all; t["_ZNSt18condition_variableC1Ev"] = t["_ZNSt18condition_variableD1Ev"] = b_noop;
  t["_ZNSt6thread20hardware_concurrencyEv"] = b_hwc; t["_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE"] = b_thread_start; t["_ZNSt6thread4joinEv"] = b_thread_join; t["_ZNSt6thread6detachEv"] = b_thread_detach; t["_ZNSt6thread6_StateD2Ev"] = b_noop; t["pthread_create"] = b_zero; t["pthread_mutex_destroy"] = t["pthread_mutex_init"] = b_zero;
  return t;
}
Builtin Exec::findBuiltin(FnCode* fn) {
  auto& t = table(); auto it = t.find(fn->name); if (it != t.end()) return it->second;
  if (!fn->decl) return nullptr;
  std::string d = demangle(fn->name);
  if (d.rfind("std::__throw_", 0) == 0) return b_throw_std;
  static const std::vector<std::string> exc = {"std::runtime_error::", "std::logic_error::", "std::invalid_argument::", "std::out_of_range::", "std::length_error::", "std::domain_error::", "std::exception::", "std::bad_alloc::", "std::bad_function_call::", "std::bad_array_new_length::", "std::range_error::", "std::overflow_error::", "std::bad_exception::", "std::bad_cast::"};
  for (auto& e : exc) if (d.rfind(e, 0) == 0 && d.find("what") == std::string::npos) return b_noop;
  return nullptr;
}
