// Interpreter data structures.
#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace llvm { class Function; class Module; class Instruction; class Type; class DataLayout; class GlobalVariable; }

struct Val { uint64_t c; E e; };
static inline Val CV(uint64_t c) { return {c, nullptr}; }
static inline bool isC(const Val& v) { return !v.e || v.e->isConst(); }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->isConst() && e->w <= 64) return {(uint64_t)e->c, nullptr}; return {0, e}; }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

enum Op : uint8_t {
  O_NOP, O_COPY, O_BIN, O_FBIN, O_FNEG, O_ICMP, O_FCMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_FPCAST,
  O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_CALL, O_BR, O_CBR, O_SWITCH, O_RET, O_UNREACHABLE, O_RESUME, O_LANDINGPAD,
  O_RMW, O_CMPXCHG, O_FENCE, O_INTR, O_UNSUPPORTED
};

struct Inst {
  Op op; uint8_t sub; uint16_t w, w2; uint8_t flags; // flags: 1 = atomic, 2 = invoke
  int32_t dst, a, b, c; uint32_t aux; uint32_t n;
  llvm::Instruction* src;
};

struct Edge { uint32_t target; uint32_t copyStart, copyCount; };

struct CallSite {
  int32_t callee;            // operand or INT32_MIN when direct
  struct FnCode* direct;
  std::vector<int32_t> args; // flattened slots
  std::vector<uint16_t> argw;
  std::vector<std::pair<unsigned, uint32_t>> byval; // slot index -> size
  uint32_t retSlots; uint16_t retw;
  bool invoke; uint32_t normalEdge, unwindEdge;
};
struct LPad { bool cleanup; std::vector<uint64_t> catches; };  // typeinfo addresses, 0 = catch all

typedef int (*Builtin)(struct Exec& X, struct FnCode* callee, const Inst& I, const CallSite& cs, std::vector<Val>& args);

struct FnCode {
  llvm::Function* F; bool translated = false; bool decl = false; bool nounwind = false; bool executed = false;
  unsigned nregs = 0; std::vector<Inst> code; std::vector<Val> consts; std::vector<int32_t> aux; std::vector<Edge> edges;
  std::vector<std::pair<int32_t, int32_t>> copies; std::vector<CallSite> calls; std::vector<LPad> lpads;
  std::vector<std::vector<std::pair<uint64_t, uint32_t>>> switches; // value -> edge
  std::vector<uint16_t> argw; unsigned nargslots = 0;
  Builtin builtin = nullptr; bool builtinLooked = false; std::string name;
  uint64_t addr = 0; uint64_t nexec = 0;
};

struct Cell { uint32_t off; uint32_t n; E e; };
struct Obj {
  int ref = 1; uint32_t size = 0; uint8_t kind = 0; bool ro = false; // kind: 0 global 1 stack 2 malloc 3 new 4 new[] 5 exception 6 external
  uint8_t* bytes = nullptr; uint8_t* init = nullptr; std::vector<Cell> cells; const char* what = nullptr;
  ~Obj() { free(bytes); free(init); }
};
struct Chunk { int ref = 1; Obj* o[64]; };
struct Mem {
  std::vector<Chunk*> ch; uint32_t next = 1;
  Mem() {}
  Mem(const Mem& m) : ch(m.ch), next(m.next) { for (Chunk* c : ch) if (c) c->ref++; }
  Mem& operator=(const Mem&) = delete;
  ~Mem() { for (Chunk* c : ch) rel(c); }
  static void relObj(Obj* o) { if (o && --o->ref == 0) delete o; }
  static void rel(Chunk* c) { if (c && --c->ref == 0) { for (Obj* o : c->o) relObj(o); delete c; } }
  const Obj* get(uint32_t id) const { uint32_t k = id >> 6; return k < ch.size() && ch[k] ? ch[k]->o[id & 63] : nullptr; }
  Chunk* wchunk(uint32_t k) {
    if (k >= ch.size()) ch.resize(k + 1, nullptr);
    Chunk* c = ch[k];
    if (!c) { c = new Chunk; memset(c->o, 0, sizeof c->o); ch[k] = c; }
    else if (c->ref > 1) { Chunk* d = new Chunk; memcpy(d->o, c->o, sizeof c->o); for (Obj* o : d->o) if (o) o->ref++; c->ref--; ch[k] = c = d; }
    return c;
  }
  Obj* getw(uint32_t id) {
    Chunk* c = wchunk(id >> 6); Obj*& o = c->o[id & 63]; if (!o) return nullptr;
    if (o->ref > 1) { Obj* n = new Obj; n->size = o->size; n->kind = o->kind; n->ro = o->ro; n->what = o->what; n->cells = o->cells;
      n->bytes = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->bytes, o->bytes, o->size);
      if (o->init) { n->init = (uint8_t*)malloc(o->size ? o->size : 1); memcpy(n->init, o->init, o->size); }
      o->ref--; o = n; }
    return o;
  }
  uint32_t alloc(uint32_t size, uint8_t kind, bool zero) {
    uint32_t id = next++; Obj* o = new Obj; o->size = size; o->kind = kind; o->bytes = (uint8_t*)calloc(size ? size : 1, 1);
    if (!zero) o->init = (uint8_t*)calloc(size ? size : 1, 1);
    wchunk(id >> 6)->o[id & 63] = o; return id;
  }
  void release(uint32_t id) { Chunk* c = wchunk(id >> 6); Obj*& o = c->o[id & 63]; relObj(o); o = nullptr; }
};
static const unsigned SEG = 24;
static inline uint64_t addrOf(uint32_t id) { return (uint64_t)id << SEG; }

struct Frame {
  int ref = 1; FnCode* fn; uint32_t pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; uint8_t flags = 0; // 1: result discarded (pushed by a builtin)
};
struct Thread {
  std::vector<Frame*> frames; std::vector<uint64_t> caught; uint8_t status = 0; // 0 runnable 1 blocked 2 finished
  uint8_t waitKind = 0; uint64_t waitAddr = 0, waitAux = 0; std::map<uint64_t, uint64_t> tls; uint8_t stage = 0; uint64_t handle = 0; bool joined = false;
  std::vector<uint32_t> vc, relFence, acqPend; bool granted = false; uint64_t ownWrites = 0, seenOthers = 0; bool haveSeen = false, yielded = false; uint64_t yieldAt = 0; std::vector<std::pair<uint64_t, uint64_t>> tlsDtors;
};
struct ExcMeta { uint64_t ti; uint64_t dtor; int refs; int handlers; };
struct Input { const char* name; uint8_t kind; E e; };  // kind 0 bits 1 double
struct State {
  Mem mem; std::vector<Thread> th; int cur = 0; std::vector<E> pc; Model model; std::vector<Input> inputs;
  std::map<uint64_t, ExcMeta> exc; uint64_t steps = 0; uint32_t depth = 0; int preempt = 0; bool allocFaults = false; bool mt = false;
  std::map<uint64_t, uint64_t> mutexOwner; std::vector<int> sched; std::string trace; uint64_t heapLive = 0; std::map<uint64_t, std::pair<std::string, int64_t>> notes;
  std::map<std::pair<uint64_t, uint32_t>, int> dummy; std::vector<uint64_t> atexits;
  std::map<uint64_t, std::vector<uint32_t>> syncvc; // synchronisation address -> vector clock
  struct Acc { std::vector<uint32_t> w, r; }; std::map<uint64_t, Acc> races; uint64_t epoch = 0;
  State() {}
  State(const State& s) : mem(s.mem), th(s.th), cur(s.cur), pc(s.pc), model(s.model), inputs(s.inputs), exc(s.exc), steps(s.steps), depth(s.depth), preempt(s.preempt),
    allocFaults(s.allocFaults), mt(s.mt), mutexOwner(s.mutexOwner), sched(s.sched), trace(s.trace), heapLive(s.heapLive), notes(s.notes), atexits(s.atexits), syncvc(s.syncvc), races(s.races), epoch(s.epoch) { for (auto& t : th) for (Frame* f : t.frames) f->ref++; }
  ~State() { for (auto& t : th) for (Frame* f : t.frames) if (--f->ref == 0) delete f; }
};

struct Violation { std::string label, detail, stack; std::vector<std::pair<std::string, std::pair<int, uint64_t>>> inputs; std::vector<int> sched; std::string trace; bool uninit = false; std::string contracts; };
