// symex prep: link, replace stubbed functions, optimise.   symex run: explore.
#include <llvm/IR/ReplaceConstant.h>
#include "xi.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <regex>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <csignal>
#include <ctime>
#include <atomic>
#include <algorithm>
using namespace llvm;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::atomic<double>* g_stopAt = nullptr; static double g_grace = 0; // shared by the workers: stop some time after the first violation
bool Exec::timeUp() { return now() > deadline || (g_stopAt && now() > g_stopAt->load()); }

static int prep(std::vector<std::string> in, const std::string& out, const std::string& stubs, const std::string& entry, bool opt, std::vector<std::string> keepStub) {
  LLVMContext C; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto& f : in) { auto m = parseIRFile(f, err, C); if (!m) { err.print("symex", errs()); return 2; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) return 2; }
  // stub table: "regex => name", applied to the demangled function name
  std::vector<std::tuple<std::regex, std::string, std::string>> rules; std::ifstream sf(stubs); std::string line;
  while (std::getline(sf, line)) { size_t p = line.find(" => "); if (line.empty() || line[0] == '#' || p == std::string::npos) continue; rules.emplace_back(std::regex(line.substr(0, p)), line.substr(p + 4), line); }
  std::vector<std::string> applied;
  for (Function& F : *M) {
    if (F.isIntrinsic()) continue; std::string d = demangle(F.getName().str());
    for (auto& r : rules) if (std::regex_match(d, std::get<0>(r))) {
      std::string target = std::get<1>(r); if (target == "-") { break; }
      Function* T = M->getFunction(target); if (!T) { errs() << "symex: stub " << target << " missing\n"; return 2; }
      if (&F == T) break; if (F.isDeclaration() && F.use_empty()) break;
      if (F.arg_size() != T->arg_size() || F.getReturnType() != T->getReturnType()) { errs() << "symex: stub signature mismatch for " << d << " / " << target << "\n"; F.getFunctionType()->print(errs()); errs() << " vs "; T->getFunctionType()->print(errs()); errs() << "\n"; return 2; }
      if (!F.isDeclaration()) F.deleteBody(); else F.setName("stubbed." + F.getName()); F.setDSOLocal(true); F.setComdat(nullptr); F.setLinkage(GlobalValue::InternalLinkage);
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      BasicBlock* b = BasicBlock::Create(C, "entry", &F); IRBuilder<> B(b); std::vector<Value*> args; for (auto& a : F.args()) args.push_back(&a);
      F.setPersonalityFn(nullptr); F.setMemoryEffects(MemoryEffects::unknown()); F.removeFnAttr(Attribute::WillReturn);
      CallInst* c = B.CreateCall(T, args); if (F.getReturnType()->isVoidTy()) B.CreateRetVoid(); else B.CreateRet(c);
      F.setSubprogram(nullptr);
      applied.push_back(d + " -> " + target); break;
    }
  }
  for (auto& s : applied) std::cout << "stub " << s << "\n";
  // everything but the entry becomes internal
  internalizeModule(*M, [&](const GlobalValue& g) { return g.getName() == entry || g.getName().starts_with("_ZTI") || g.getName().starts_with("symrt_"); });
  if (opt) {
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
    PassBuilder pb(nullptr, pto); LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O2); mpm.addPass(GlobalDCEPass()); mpm.run(*M, mam);
  }
  if (verifyModule(*M, &errs())) return 2;
  std::error_code ec; raw_fd_ostream os(out, ec, sys::fs::OF_None); WriteBitcodeToFile(*M, os); os.flush();
  return 0;
}

// Turn the checked module into one that replays a counterexample natively: sanitizer attributes, and (for schedules) a call to the replay scheduler before every visible operation.
static int nativePrep(const std::string& in, const std::string& out, const std::string& san, bool sched) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(in, err, C); if (!M) { err.print("symex", errs()); return 2; }
  FunctionCallee sp = M->getOrInsertFunction("symrt_sched", Type::getVoidTy(C), Type::getInt32Ty(C), PointerType::getUnqual(C));
  auto redirect = [&](const char* from, const char* to) { if (Function* f = M->getFunction(from)) { if (!f->isDeclaration()) return; if (Function* g = M->getFunction(to)) f->replaceAllUsesWith(g); else f->setName(to); } };
  for (Function& F : *M) {
    if (F.isDeclaration()) continue;
    if (san == "address") F.addFnAttr(Attribute::SanitizeAddress); if (san == "thread") F.addFnAttr(Attribute::SanitizeThread);
    if (!sched) continue;
    std::vector<std::tuple<Instruction*, int, Value*>> pts;
    for (auto& B : F) for (auto& I : B) {
      if (auto* l = dyn_cast<LoadInst>(&I)) { if (l->isAtomic()) pts.push_back({&I, 1, l->getPointerOperand()}); }
      else if (auto* st = dyn_cast<StoreInst>(&I)) { if (st->isAtomic()) pts.push_back({&I, 1, st->getPointerOperand()}); }
      else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) pts.push_back({&I, 1, r->getPointerOperand()});
      else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) pts.push_back({&I, 1, x->getPointerOperand()});
      else if (auto* cb = dyn_cast<CallBase>(&I)) { Function* f = cb->getCalledFunction(); if (!f) continue; StringRef n = f->getName();
        if (n == "pthread_mutex_lock") pts.push_back({&I, 2, cb->getArgOperand(0)}); else if (n == "pthread_mutex_trylock") pts.push_back({&I, 3, cb->getArgOperand(0)});
        else if (n == "_ZNSt18condition_variable10notify_oneEv") pts.push_back({&I, 5, cb->getArgOperand(0)}); else if (n == "_ZNSt18condition_variable10notify_allEv") pts.push_back({&I, 6, cb->getArgOperand(0)});
        else if (n == "_ZNSt6thread4joinEv") pts.push_back({&I, 7, cb->getArgOperand(0)}); else if (n == "sched_yield" || n == "llvm.x86.sse2.pause") pts.push_back({&I, 8, nullptr}); }
    }
    for (auto& [i, k, p] : pts) { IRBuilder<> B(i); B.CreateCall(sp, {B.getInt32(k), p ? p : (Value*)ConstantPointerNull::get(PointerType::getUnqual(C))}); }
  }
  if (sched) { redirect("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "symrt_cv_wait"); redirect("_ZNSt18condition_variable10notify_oneEv", "symrt_cv_notify"); redirect("_ZNSt18condition_variable10notify_allEv", "symrt_cv_notify"); redirect("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "symrt_thread_start"); redirect("pthread_mutex_unlock", "symrt_mutex_unlock"); redirect("pthread_mutex_lock", "symrt_mutex_lock"); redirect("pthread_mutex_trylock", "symrt_mutex_trylock"); }
  redirect("_ZNSt6thread20hardware_concurrencyEv", "symrt_hwc");
  if (verifyModule(*M, &errs())) return 2;
  std::error_code ec; raw_fd_ostream os(out, ec, sys::fs::OF_None); WriteBitcodeToFile(*M, os); os.flush(); return 0;
}

static std::string js(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void dump(Exec& X, const std::string& file, bool complete, uint64_t pending) {
  std::string tmp = file + ".tmp"; std::ofstream o(tmp); struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"complete\":" << (complete ? "true" : "false") << ",\"pending\":" << pending << ",\"paths\":" << X.pathsDone << ",\"forks\":" << X.forks << ",\"steps\":" << X.totalSteps << ",\"queries_asked\":" << X.nQueries << ",\"cache_hits\":" << X.nCacheHits << ",\"model_hits\":" << X.nModelHits << ",\"solver_queries\":" << g_sstats.queries << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown + X.unknowns << ",\"solver_time\":" << g_sstats.time << ",\"max_query\":" << g_sstats.maxq << ",\"fp_defs\":" << g_sstats.fpdefs << ",\"resets\":" << g_sstats.resets << ",\"symbolic_branches\":" << X.nbranch << ",\"sym_loads\":" << X.symLoads << ",\"sym_stores\":" << X.symStores << ",\"sched_points\":" << X.schedPoints << ",\"thread_switches\":" << X.threadSwitches << ",\"race_checks\":" << X.racesChecked << ",\"assume_killed\":" << X.assumeKilled << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"step_limited\":" << X.stepLimited << ",\"incomplete_flag\":" << (X.incomplete ? "true" : "false");
  o << ",\"reached\":{"; bool f = true; for (auto& r : X.reached) { o << (f ? "" : ",") << js(r.first) << ":" << r.second; f = false; }
  o << "},\"path_ends\":{"; f = true; for (auto& r : X.pathEnds) { o << (f ? "" : ",") << js(r.first) << ":" << r.second; f = false; }
  o << "},\"unsupported\":["; f = true; for (auto& r : X.unsup) { o << (f ? "" : ",") << js(r); f = false; }
  o << "],\"contracts\":["; f = true; for (auto& r : X.contracts) { o << (f ? "" : ",") << js(r); f = false; }
  o << "],\"asserts\":{"; f = true; for (auto& r : X.asserts) { o << (f ? "" : ",") << js(r.first) << ":[" << r.second.checks << "," << r.second.sym << "," << r.second.proved << "]"; f = false; }
  o << "},\"violations\":["; f = true;
  auto dumpV = [&](const std::vector<Violation>& vs) { f = true;
  for (auto& v : vs) { o << (f ? "" : ",") << "{\"label\":" << js(v.label) << ",\"detail\":" << js(v.detail) << ",\"stack\":" << js(v.stack) << ",\"sched\":["; for (size_t i = 0; i < v.sched.size(); i++) o << (i ? "," : "") << v.sched[i]; o << "],\"trace\":" << js(v.trace) << ",\"uninit\":" << (v.uninit ? "true" : "false") << ",\"contracts\":" << js(v.contracts) << ",\"inputs\":["; bool g = true; for (auto& i : v.inputs) { char b[40]; snprintf(b, 40, "%llu", (unsigned long long)i.second.second); o << (g ? "" : ",") << "[" << js(i.first) << "," << i.second.first << ",\"" << b << "\"]"; g = false; } o << "]}"; f = false; }
  };
  dumpV(X.viols); o << "],\"witnesses\":["; dumpV(X.wits);
  o << "],\"functions\":["; f = true;
  for (auto& p : X.fns) { if (!p.second->executed) continue; std::string file; unsigned line = 0; if (auto* sp = p.first->getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
    std::set<std::string> inl; 
    o << (f ? "" : ",") << "[" << js(demangle(p.second->name)) << "," << js(file) << "," << line << "," << p.second->nexec << ",["; 
    bool g = true; for (auto& bb : *p.first) for (auto& in : bb) if (auto& dl = in.getDebugLoc()) { DILocation* L = dl.get(); while (L) { if (auto* s2 = L->getScope()->getSubprogram()) { std::string k = s2->getFilename().str() + "\t" + s2->getName().str(); if (inl.insert(k).second && s2->getFilename().contains("/repo/src/")) { o << (g ? "" : ",") << js(k); g = false; } } L = L->getInlinedAt(); } }
    o << "]]"; f = false; }
  o << "]}\n"; o.close(); rename(tmp.c_str(), file.c_str());
}

// clang refers to its thread local guards directly: every use of a thread local variable has to go through its per thread address
static void threadLocals(Module* m) {
  std::vector<Constant*> gs; for (auto& g : m->globals()) if (g.isThreadLocal()) gs.push_back(&g);
  if (gs.empty()) return; convertUsersOfConstantsToInstructions(gs);
  for (auto* g : gs) {
    std::vector<Use*> us; for (auto& u : g->uses()) if (auto* in = dyn_cast<Instruction>(u.getUser())) { auto* c = dyn_cast<IntrinsicInst>(in); if (!c || c->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
    for (auto* u : us) { auto* in = cast<Instruction>(u->getUser()); Instruction* at = in; if (auto* ph = dyn_cast<PHINode>(in)) at = ph->getIncomingBlock(*u)->getTerminator(); IRBuilder<> b(at); u->set(b.CreateThreadLocalAddress(g)); }
  }
}

bool Exec::setup(Module* m, const std::string& entry) {
  threadLocals(m);
  M = m; DL = &m->getDataLayout(); initState = new State; initState->model.gen = ++g_modelGen;
  for (auto& g : m->globals()) globalAddr(&g);
  for (auto& f : *m) if (!f.isIntrinsic()) globalAddr(&f);
  for (auto& g : m->globals()) if (g.hasInitializer()) { Obj* o = initState->mem.getw(globalAddr(&g) >> SEG); initConst(o->bytes, g.getInitializer()); }
  for (auto& g : m->globals()) if (g.isConstant() && g.hasInitializer()) initState->mem.getw(globalAddr(&g) >> SEG)->ro = true;
  for (auto n : {"_ZTISt9exception", "_ZTISt11logic_error", "_ZTISt13runtime_error", "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt17bad_function_call", "_ZTISt20bad_array_new_length", "_ZTISt12domain_error", "_ZTISt8bad_cast", "_ZTISt19bad_optional_access", "_ZTISt18bad_variant_access", "_ZTISt12system_error"}) if (!m->getGlobalVariable(n, true)) { auto* g = new GlobalVariable(*m, Type::getInt8Ty(m->getContext()), true, GlobalValue::ExternalLinkage, nullptr, n); globalAddr(g); }
  Function* f = m->getFunction(entry); if (!f) { errs() << "symex: entry " << entry << " not found\n"; return false; }
  initState->th.emplace_back();
  // constructors in priority order, then the entry: executed as a chain of frames (last pushed runs first)
  std::vector<std::pair<uint64_t, Function*>> ct;
  if (auto* gc = m->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* cf = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf}); }
  std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; });
  // synthesize an init function calling them all
  LLVMContext& C = m->getContext(); Function* st = Function::Create(FunctionType::get(Type::getVoidTy(C), false), GlobalValue::InternalLinkage, "__symex_start", m); BasicBlock* b = BasicBlock::Create(C, "e", st); IRBuilder<> B(b);
  for (auto& c : ct) B.CreateCall(c.second); B.CreateCall(f); B.CreateRetVoid();
  S = initState; State* s0 = new State(*initState); S = s0; pushFrame(s0, fnFor(st), {}, 0); push(s0);
  return true;
}

static int run(const std::string& bc, const std::string& entry, const std::string& out, double tlimit, int workers, Exec& X, unsigned frontier) {
  LLVMContext C; SMDiagnostic err; auto M = parseIRFile(bc, err, C); if (!M) { err.print("symex", errs()); return 2; }
  double t0 = now(); X.deadline = t0 + tlimit; g_solverTimeout = (unsigned)std::max(1000.0, tlimit * 1000); solverInit();
  if (!X.setup(M.get(), entry)) return 2;
  auto* page = (char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto* ctr = new (page) std::atomic<uint32_t>(0); g_stopAt = new (page + 64) std::atomic<double>(1e300); std::string me = out + ".0"; size_t seen = 0;
  auto popRun = [&](bool front) { State* s; if (front) { s = X.stack.front(); X.stack.pop_front(); } else { s = X.stack.back(); X.stack.pop_back(); } X.runState(s); delete s;
    if (X.viols.size() > seen) { seen = X.viols.size(); if (g_grace > 0 && g_stopAt->load() > 1e299) g_stopAt->store(now() + g_grace); dump(X, me, false, 1); } };
  while (!X.stack.empty() && !X.timeUp() && (workers <= 1 || X.stack.size() < frontier || now() - t0 < 1.0)) popRun(workers > 1);
  if (X.stack.empty() || X.timeUp() || workers <= 1) { if (!X.stack.empty()) X.incomplete = true; dump(X, out + ".0", X.stack.empty() && !X.incomplete, X.stack.size()); return 0; }
  std::vector<State*> all(X.stack.begin(), X.stack.end()); X.stack.clear();
  fflush(stdout); fflush(stderr); std::vector<pid_t> kids;
  for (int w = 1; w <= workers; w++) {
    pid_t p = ::fork();
    if (p == 0) {
      // fresh counters, the parent reports its own part
      me = out + "." + std::to_string(w); seen = 0; X.viols.clear(); X.wits.clear(); X.pathsDone = X.forks = X.totalSteps = X.nQueries = X.nCacheHits = X.nModelHits = X.unknowns = X.nbranch = X.symLoads = X.symStores = X.schedPoints = X.threadSwitches = X.racesChecked = X.assumeKilled = X.stepLimited = 0; g_sstats = SolverStats(); X.reached.clear(); X.asserts.clear(); X.pathEnds.clear(); X.incomplete = false;
      while (true) { uint32_t k = ctr->fetch_add(1); if (k >= all.size()) break; X.push(all[k]); while (!X.stack.empty() && !X.timeUp()) popRun(false); if (X.timeUp()) break; }
      uint32_t left = ctr->load(); uint64_t pend = X.stack.size() + (X.timeUp() && left < all.size() ? 1 : 0); if (pend) X.incomplete = true;
      dump(X, out + "." + std::to_string(w), !X.incomplete, pend); _exit(0);
    }
    kids.push_back(p);
  }
  dump(X, out + ".0", !X.incomplete, 0);
  auto hardAt = [&] { return std::min(X.deadline, g_stopAt->load()) + 20; };
  while (!kids.empty()) { for (size_t i = 0; i < kids.size();) { int st; pid_t r = waitpid(kids[i], &st, WNOHANG); if (r == kids[i]) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) fprintf(stderr, "symex: worker ended abnormally (status %d)\n", st); kids.erase(kids.begin() + i); } else i++; } if (now() > hardAt()) { for (pid_t p : kids) kill(p, SIGKILL); fprintf(stderr, "symex: workers killed at the hard limit\n"); for (pid_t p : kids) waitpid(p, nullptr, 0); break; } usleep(20000); }
  return 0;
}

// Random check of the expression simplifier: terms over grid variables are built through the simplifying constructors and compared with direct evaluation.
static int selftest(unsigned n) {
  srand(1); unsigned bad = 0, folded = 0;
  for (unsigned t = 0; t < n; t++) {
    std::vector<E> iv; Model m; m.gen = ++g_modelGen; std::vector<std::pair<E, double>> pool;
    for (int i = 0; i < 3; i++) { unsigned w = 2 + rand() % 6; E v = mkVar("t" + std::to_string(g_vars.size()), w); m.v.resize(g_vars.size(), 0); u128 x = rand() & maskw(w); m.v[v->p] = x; E s = rand() % 2 ? mkSExt(v, w + 2) : mkZExt(v, w + 2); double d = (double)sextw(evalExpr(s, m), w + 2); pool.push_back({mkFUn(K_SITOFP, s, 64), d}); }
    static const double cs[] = {0.0, 1.0, -1.0, 0.5, 0.25, 2.0, 3.0, 0.1, -0.0, 100.0, 1.0 / 64, 1.0 / 3}; for (int i = 0; i < 3; i++) { double c = cs[rand() % 12]; pool.push_back({mkConst(fromD(c), 64), c}); }
    std::vector<std::pair<E, bool>> conds;
    for (int i = 0; i < 12; i++) {
      auto& a = pool[rand() % pool.size()]; auto& b = pool[rand() % pool.size()]; E r = nullptr; double d = 0;
      switch (rand() % 9) { case 0: r = mkBin(K_FADD, a.first, b.first); d = a.second + b.second; break; case 1: r = mkBin(K_FSUB, a.first, b.first); d = a.second - b.second; break; case 2: r = mkBin(K_FMUL, a.first, b.first); d = a.second * b.second; break; case 3: r = mkBin(K_FDIV, a.first, b.first); d = a.second / b.second; break;
        case 4: r = mkBin(K_AND, a.first, mkConst(maskw(63), 64)); d = std::fabs(a.second); break; case 5: r = mkBin(K_XOR, a.first, mkConst((u128)1 << 63, 64)); d = -a.second; break; case 6: r = mkFUn(K_FRND, a.first, 64, rand() % 3); d = r->k == K_FRND ? asD(evalOp(K_FRND, 64, r->p, (u128[]){fromD(a.second)}, (unsigned[]){64})) : asD(evalExpr(r, m)); break;
        default: if (!conds.empty()) { auto& c = conds[rand() % conds.size()]; r = mkIte(c.first, a.first, b.first); d = c.second ? a.second : b.second; } }
      if (!r || d != d) continue; double g = asD(evalExpr(r, m)); if (!(g == d)) { bad++; fprintf(stderr, "value %g expected %g: %s\n", g, d, exprStr(r).c_str()); } pool.push_back({r, d});
      auto& p = pool[rand() % pool.size()]; auto& q = pool[rand() % pool.size()]; Kind k = rand() % 3 == 0 ? K_FEQ : rand() % 2 ? K_FLT : K_FLE; E c = mkBin(k, p.first, q.first); bool want = k == K_FEQ ? p.second == q.second : k == K_FLT ? p.second < q.second : p.second <= q.second;
      if (c->k != K_FLT && c->k != K_FLE && c->k != K_FEQ) folded++; if ((bool)evalExpr(c, m) != want) { bad++; fprintf(stderr, "compare %d of %a and %a: %s / %s\n -> %s\n", k, p.second, q.second, exprStr(p.first).c_str(), exprStr(q.first).c_str(), exprStr(c).c_str()); } conds.push_back({c, want});
      E ti = mkFUn(K_FPTOSI, p.first, 32); if (std::fabs(p.second) < 1e9 && (int32_t)evalExpr(ti, m) != (int32_t)p.second) { bad++; fprintf(stderr, "fptosi of %g: %s\n", p.second, exprStr(ti).c_str()); }
    }
    if (bad > 10) return 1;
  }
  printf("selftest: %u terms, %u comparisons rewritten, %u mismatches\n", n, folded, bad); return bad != 0;
}

int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : ""; std::vector<std::string> in; std::string out = "out", entry = "harness", stubs = "/dev/null"; double tl = 600; int workers = 8; bool opt = true, sched = false; std::string san; unsigned frontier = 400; Exec* X = new Exec; std::vector<std::string> clopts;
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "-o") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--stubs") stubs = nx(); else if (a == "--no-opt") opt = false; else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--frontier") frontier = atoi(nx().c_str()); else if (a == "--max-steps") X->maxSteps = atoll(nx().c_str()); else if (a == "--hwc") X->hwc = atoi(nx().c_str()); else if (a == "--preempt") X->maxPreempt = atoi(nx().c_str()); else if (a == "--known") X->known.insert(nx()); else if (a == "--grace") g_grace = atof(nx().c_str()); else if (a == "--rlimit") g_solverRlimit = atoll(nx().c_str()); else if (a == "--san") san = nx(); else if (a == "--sched") sched = true; else if (a == "-v") X->verbose = true; else in.push_back(a); }
  if (cmd == "prep") {
    const char* o[] = {"symex", "-two-entry-phi-node-folding-threshold=12", "-phi-node-folding-threshold=8", "-speculate-one-expensive-inst=true"}; cl::ParseCommandLineOptions(4, o);
    return prep(in, out, stubs, entry, opt, {}); }
  if (cmd == "selftest") return selftest(atoi(in.at(0).c_str()));
  if (cmd == "native") return nativePrep(in.at(0), out, san, sched);
  if (cmd == "run") return run(in.at(0), entry, out, tl, workers, *X, frontier);
  fprintf(stderr, "usage: symex prep|run ...\n"); return 2;
}
