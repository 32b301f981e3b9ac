#pragma once
#include "exec.h"
#include <llvm/IR/GlobalValue.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <deque>
#include <atomic>

struct PathEnd { const char* why; };

struct Exec {
  llvm::Module* M; const llvm::DataLayout* DL; State* initState = nullptr; State* S = nullptr; Frame* F = nullptr;
  std::map<const llvm::GlobalValue*, uint64_t> gaddr; std::map<llvm::Function*, std::unique_ptr<FnCode>> fns; std::map<uint64_t, FnCode*> fnByAddr;
  std::map<std::string, uint64_t> extTi; std::map<uint64_t, int> selectors; std::map<std::string, E> sharedVars;
  std::vector<Val> tmpCopies; std::deque<State*> stack;
  std::vector<Violation> viols, wits; std::map<std::string, int> violCount; std::map<std::string, uint64_t> pathEnds; std::set<std::string> unsup;
  std::map<std::string, uint64_t> reached; struct AStat { uint64_t checks = 0, sym = 0, proved = 0; }; std::map<std::string, AStat> asserts;
  std::set<std::string> known; std::map<std::string, uint64_t> knownHit;
  uint64_t forks = 0, pathsDone = 0, totalSteps = 0, nQueries = 0, nCacheHits = 0, nModelHits = 0, unknowns = 0, symLoads = 0, symStores = 0, nbranch = 0, stepLimited = 0, schedPoints = 0, threadSwitches = 0, racesChecked = 0;
  uint64_t maxSteps = 30000000; bool verbose = false, incomplete = false; double deadline = 0; int hwc = 1; int maxPreempt = 2; uint64_t assumeKilled = 0;
  std::set<std::string> contracts;

  uint64_t globalAddr(const llvm::GlobalValue* g);
  void initConst(uint8_t* p, const llvm::Constant* c);
  Val constVal(const llvm::Constant* c);
  void flatten(llvm::Type* t, std::vector<llvm::Type*>& out);
  void flattenOff(llvm::Type* t, uint64_t off, std::vector<std::pair<llvm::Type*, uint64_t>>& out);
  unsigned widthOf(llvm::Type* t);
  FnCode* fnFor(llvm::Function* f);
  void translate(FnCode* fc);
  E cachedVarSet(E e);
  void addPC(State* s, E c);
  Res query(State* s, E extra, Model* m);
  State* fork(State* s);
  bool decide(State* s, E c);
  uint64_t concretize(State* s, E e);
  uint64_t conc(State* s, const Val& v);
  void frameW(State* s);
  void objStore(Obj* o, uint32_t off, uint32_t n, unsigned w, const Val& v);
  Val objLoad(State* s, uint32_t id, uint32_t off, uint32_t n, unsigned w);
  const Obj* checkAcc(State* s, uint64_t addr, uint64_t n, bool write);
  [[noreturn]] void memViolation(State* s, const char* kind, uint64_t addr, uint64_t n, bool write);
  bool resolve(State* s, E addr, uint32_t n, bool write, uint32_t& id, E& off, std::vector<uint32_t>& cand);
  Val loadMem(State* s, const Val& p, uint64_t coff, uint32_t n, unsigned w);
  void storeMem(State* s, const Val& p, uint64_t coff, uint32_t n, unsigned w, const Val& v);
  void memCopy(State* s, uint64_t d, uint64_t src, uint64_t n);
  void memSet(State* s, uint64_t d, const Val& v, uint64_t n);
  std::string readStr(State* s, uint64_t a, size_t max = 200);
  void pushFrame(State* s, FnCode* fn, const std::vector<Val>& args, uint8_t flags);
  void popFrame(State* s);
  void takeEdge(uint32_t ei);
  void afterCall(State* s);
  std::string location(State* s);
  bool typeMatches(uint64_t thrown, uint64_t caught);
  std::string tiName(uint64_t a);
  std::vector<std::string> tiBases(const std::string& n);
  uint64_t typeinfoByName(const std::string& n);
  void unwind(State* s, uint64_t obj, bool fromResume);
  int selectorFor(uint64_t ti);
  void throwStd(State* s, const std::string& ti);
  void violation(State* s, const std::string& label, const std::string& detail, const Model& m);
  E freshVar(State* s, const char* nm, unsigned w, uint64_t k1, uint64_t k2);
  Val libm(State* s, const char* fn, std::vector<E> args, unsigned w);
  void intrinsic(State* s, const Inst& I);
  [[noreturn]] void unsupported(State* s, const std::string& what);
  void doCall(State* s, const Inst& I);
  void runState(State* s);
  void finishPath(State* s);
  Builtin findBuiltin(FnCode* fn);
  // threads
  bool schedule(State* s);
  bool threadEnd(State* s, Val rv);
  bool isVisible(State* s, int t);
  bool enabled(State* s, int t);
  void switchTo(State* s, int t);
  uint64_t choose(State* s, const char* name, uint64_t n);
  void raceAcc(State* s, const Val& p, uint64_t off, uint32_t n, bool write, bool atomic = false);
  void raceRange(State* s, uint64_t a, uint64_t n, bool write, bool atomic = false);
  void syncAcq(State* s, uint64_t a); void syncRel(State* s, uint64_t a); void syncLoad(State* s, uint64_t a, unsigned fl); void syncStore(State* s, uint64_t a, unsigned fl); void syncRmw(State* s, uint64_t a, unsigned fl); void syncFence(State* s, unsigned fl);
  void visibleDone(State* s, bool write);
  bool assume(State* s, E c);
  E inputVar(State* s, const char* name, uint8_t kind, unsigned w, uint64_t k1, uint64_t k2);

  bool timeUp(); void push(State* s) { stack.push_back(s); }
  Val& R(int32_t x) { return x >= 0 ? F->regs[x] : F->fn->consts[~x]; }
  bool setup(llvm::Module* m, const std::string& entry);
};
const std::vector<uint32_t>& varsOfExpr(E e);
