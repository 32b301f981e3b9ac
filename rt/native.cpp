// Native replay of one counterexample: the harness primitives read the recorded inputs; with a recorded schedule the
// threads run one at a time in the recorded order (compiled without sanitizers so that it adds no happens-before edges).
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <atomic>
#include <exception>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
static std::vector<uint64_t>& g_inp() { static auto* v = new std::vector<uint64_t>; return *v; } static size_t g_pos = 0; static const char* g_trace = ""; static bool g_faults = false; static std::atomic<uint64_t> g_live{0};
[[noreturn]] static void stop(int code, const char* a, const char* b = "") { fprintf(stderr, "REPLAY-%s %s\n", a, b); fflush(stderr); _exit(code); }
static uint64_t take(const char* n) { if (g_pos >= g_inp().size()) stop(45, "DIVERGED inputs exhausted at", n); return g_inp()[g_pos++]; }
static double asD(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
extern "C" {
  uint64_t sym_bits(const char* n, unsigned bits) noexcept { uint64_t v = take(n); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
  int64_t sym_range(const char* n, int64_t lo, int64_t hi) noexcept { if (lo == hi) { take(n); return lo; } int64_t v = (int64_t)take(n); if (v < lo || v > hi) stop(45, "DIVERGED range", n); return v; }
  uint64_t sym_choice(const char* n, uint64_t) noexcept { return take(n); }
  double sym_grid(const char* n, int64_t, int64_t) noexcept { return asD(take(n)); }
  double sym_double(const char* n) noexcept { return asD(take(n)); }
  double sym_double_in(const char* n, double, double) noexcept { return asD(take(n)); }
  void sym_assume(bool c) noexcept { if (!c) stop(45, "DIVERGED", "assumption"); }
  void sym_assert(bool c, const char* label) noexcept { if (!c) stop(42, "ASSERT", label); }
  void sym_reach(const char*) noexcept {}
  void sym_possible(bool, const char*) noexcept {}
  uint64_t sym_concretize(uint64_t v) noexcept { return v; }
  int64_t sym_min(int64_t) noexcept { return INT64_MIN; }
  int64_t sym_max(int64_t) noexcept { return INT64_MAX; }
  void sym_alloc_faults(bool on) noexcept { g_faults = on; }
  uint64_t sym_heap_live() noexcept { return g_live; }
  void sym_print(const char* n, uint64_t v) noexcept { double d = asD(v); fprintf(stderr, "  %s = %lld (as double %.17g)\n", n, (long long)v, d); }
  bool sym_and(bool a, bool b) noexcept { return a & b; }
  bool sym_or(bool a, bool b) noexcept { return a | b; }
  uint64_t sym_ite(bool c, uint64_t a, uint64_t b) noexcept { return c ? a : b; }
  unsigned symrt_hwc() { const char* h = getenv("SYMRT_HWC"); return h ? atoi(h) : 1; }
  void symrt_throw_bad_alloc_native() { throw std::bad_alloc(); }
}
#ifndef SYMRT_NO_NEW
static void* doNew(size_t n, size_t al = 0) { if (g_faults) if (take("alloc_fails")) throw std::bad_alloc(); if (n > (1ull << 40)) throw std::bad_alloc(); g_live++; return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1); }
static void doDel(void* p) { if (p) { g_live--; free(p); } }
void* operator new(size_t n) { return doNew(n); }
void* operator new[](size_t n) { return doNew(n); }
void* operator new(size_t n, std::align_val_t a) { return doNew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return doNew(n, (size_t)a); }
void operator delete(void* p) noexcept { doDel(p); }
void operator delete[](void* p) noexcept { doDel(p); }
void operator delete(void* p, size_t) noexcept { doDel(p); }
void operator delete[](void* p, size_t) noexcept { doDel(p); }
void operator delete(void* p, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void* p, std::align_val_t) noexcept { doDel(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { doDel(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { doDel(p); }
#endif
// ---------------------------------------------------------------- schedule replay
struct Th { pthread_t p; bool used = false, fin = false; int kind = 0; void* addr = nullptr; bool granted = false; int stage = 0; void* cv = nullptr; void* mtx = nullptr; };
static Th g_th[16]; static int g_n = 1; static std::atomic<int> g_baton{0}; static std::atomic<bool> g_mt{false}; static bool g_on = false; static thread_local int g_me = 0;
static std::map<void*, int>* g_owner = nullptr;
static void waitTurn(int me) { while (g_baton.load(std::memory_order_relaxed) != me) sched_yield(); }
static bool runnable(int t) { Th& x = g_th[t]; if (x.fin || x.kind == 8) return false; if (x.kind == 2) return !g_owner->count(x.addr); if (x.kind == 4) return x.stage == 0 || (x.stage == 2 && !g_owner->count(x.mtx)); if (x.kind == 7) { pthread_t h = *(pthread_t*)x.addr; for (int i = 0; i < g_n; i++) if (g_th[i].used && pthread_equal(g_th[i].p, h)) return g_th[i].fin; return true; } return true; }
// called when the current thread reaches a visible operation or ends: hand the baton to the thread recorded next
static void next(int me) {
  if (!*g_trace) { bool any = false; for (int i = 0; i < g_n; i++) if (runnable(i)) any = true; if (!any) stop(43, "DEADLOCK"); 
    // past the recorded schedule: continue deterministically with the current thread if possible
    int c = me; if (!runnable(me)) for (int i = 0; i < g_n; i++) if (runnable(i)) { c = i; break; } g_th[c].granted = g_th[c].kind != 0; g_baton = c; if (!g_th[me].fin) waitTurn(me); return; }
  int c = *g_trace++ - '0'; if (c < 0 || c >= g_n || g_th[c].fin) stop(45, "DIVERGED schedule");
  g_th[c].granted = g_th[c].kind != 0; g_baton = c; if (!g_th[me].fin) waitTurn(me);
}
extern "C" void symrt_sched(int kind, void* addr) {
  if (!g_on || !g_mt.load(std::memory_order_relaxed)) return;
  Th& t = g_th[g_me]; t.kind = kind; t.addr = addr;
  if (!t.granted) next(g_me);
  t.granted = false;
  if (kind == 5 || kind == 6) { for (int i = 0; i < g_n; i++) if (g_th[i].stage == 1 && g_th[i].cv == addr) { g_th[i].stage = 2; if (kind == 5) break; } }
}
extern "C" void symrt_cv_notify(void*) {}
extern "C" int symrt_mutex_lock(pthread_mutex_t* m) { if (g_on && g_mt) (*g_owner)[m] = g_me + 1; return pthread_mutex_lock(m); }
extern "C" int symrt_mutex_trylock(pthread_mutex_t* m) { int r = pthread_mutex_trylock(m); if (g_on && g_mt && !r) (*g_owner)[m] = g_me + 1; return r; }
extern "C" int symrt_mutex_unlock(pthread_mutex_t* m) { if (g_on && g_mt) g_owner->erase(m); return pthread_mutex_unlock(m); }
extern "C" void symrt_cv_wait(void* cv, void** ul) {
  pthread_mutex_t* m = (pthread_mutex_t*)*ul; Th& t = g_th[g_me];
  if (!g_on || !g_mt) stop(43, "DEADLOCK", "condition wait without other threads");
  t.kind = 4; t.addr = cv; t.stage = 0; t.cv = cv; t.mtx = m; if (!t.granted) next(g_me); t.granted = false;
  t.stage = 1; g_owner->erase(m); pthread_mutex_unlock(m);
  next(g_me); t.granted = false; t.stage = 0; (*g_owner)[m] = g_me + 1; pthread_mutex_lock(m);
}
// the destructors of the thread local objects of a recorded thread run as part of its schedule
static thread_local std::vector<std::pair<void (*)(void*), void*>>* g_dtors = nullptr;
extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* o, void* dso) {
  if (!g_on || !g_me) return g_on ? 0 : __cxa_thread_atexit_impl(f, o, dso);
  if (!g_dtors) g_dtors = new std::vector<std::pair<void (*)(void*), void*>>; g_dtors->push_back({f, o}); return 0;
}
struct TState { virtual ~TState(); virtual void run(); };
static void* tmain(void* a) {
  auto* s = ((std::pair<void*, int>*)a); g_me = s->second; void* st = s->first; waitTurn(g_me);
  using Run = void (*)(void*); (*(Run**)st)[2](st);
  while (g_dtors && !g_dtors->empty()) { auto d = g_dtors->back(); g_dtors->pop_back(); d.first(d.second); }
  Th& t = g_th[g_me]; t.fin = true; t.kind = 0; next(g_me); return nullptr;
}
extern "C" void symrt_thread_start(pthread_t* self, void** st, void (*)()) {
  if (!g_on) { auto* p = new std::pair<void*, int>(*st, 0); *st = nullptr; pthread_create(self, nullptr, [](void* a) -> void* { auto* s = (std::pair<void*, int>*)a; using Run = void (*)(void*); (*(Run**)s->first)[2](s->first); return nullptr; }, p); return; }
  int id = g_n++; g_th[id].used = true; auto* p = new std::pair<void*, int>(*st, id); *st = nullptr; g_mt = true; pthread_create(&g_th[id].p, nullptr, tmain, p); *self = g_th[id].p; 
}
// before the static initialisers of the program (they may start threads)
__attribute__((constructor(101))) static void setup() {
  // stacks too large for the cache of the C library: the thread local storage of a joined thread is unmapped, an access to it crashes
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20); pthread_setattr_default_np(&at);
  const char* in = getenv("SYMRT_INPUTS"); const char* tf = getenv("SYMRT_TRACE");
  if (in) { FILE* f = fopen(in, "r"); unsigned long long v; while (f && fscanf(f, "%llu", &v) == 1) g_inp().push_back(v); if (f) fclose(f); }
  std::string tr; if (tf) { FILE* f = fopen(tf, "r"); int c; while (f && (c = fgetc(f)) != EOF) if ((c >= '0' && c <= '9') || (c >= ':' && c < '@')) tr += (char)c; if (f) fclose(f); }
  g_trace = strdup(tr.c_str()); g_on = tf != nullptr; g_owner = new std::map<void*, int>; g_th[0].used = true; g_th[0].p = pthread_self();
}
int main() { harness(); fprintf(stderr, "REPLAY-END\n"); fflush(stderr); _exit(0); }
