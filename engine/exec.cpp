// Symbolic executor for LLVM IR: translation and interpretation.
#include "xi.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <cmath>
#include <climits>
#include <algorithm>
#include <ctime>
using namespace llvm;
void symexYield(Exec& X);

// ------------------------------------------------------------------ globals
uint64_t Exec::globalAddr(const GlobalValue* g) {
  if (auto* ga = dyn_cast<GlobalAlias>(g)) return (uint64_t)constVal(ga->getAliasee()).c;
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto* f = dyn_cast<Function>(g)) {
    uint32_t id = initState->mem.alloc(1, 0, true); uint64_t a = addrOf(id); gaddr[g] = a; FnCode* fc = fnFor(const_cast<Function*>(f)); fc->addr = a; fnByAddr[a] = fc; return a;
  }
  auto* v = cast<GlobalVariable>(g);
  uint64_t sz = v->getValueType()->isSized() ? DL->getTypeAllocSize(v->getValueType()) : 8;
  if (v->isDeclaration() && sz < 512) sz = 512;
  uint32_t id = initState->mem.alloc(sz, v->isDeclaration() ? 6 : 0, true);
  gaddr[g] = addrOf(id); return addrOf(id);
}
void Exec::initConst(uint8_t* p, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(p + sl->getElementOffset(i), ca->getOperand(i)); }
    else { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(p + es * i, ca->getOperand(i)); }
    return;
  }
  Val v = constVal(c); unsigned n = DL->getTypeStoreSize(t);
  if (v.e) { u128 x = v.e->c; memcpy(p, &x, n); } else memcpy(p, &v.c, n);
}
Val Exec::constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    const APInt& a = ci->getValue(); if (a.getBitWidth() <= 64) return CV(a.getZExtValue());
    u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64; return {0, mkConst(v, a.getBitWidth())};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return CV(a.getZExtValue());
    u128 v = a.extractBitsAsZExtValue(64, 0); v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64; return {0, mkConst(v, a.getBitWidth())};
  }
  if (isa<ConstantPointerNull>(c)) return CV(0);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned w = t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t); return w > 64 ? Val{0, mkConst(0, w)} : CV(0); }
  if (auto* gv = dyn_cast<GlobalValue>(c)) return CV(globalAddr(gv));
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* go = cast<GEPOperator>(ce); APInt off(64, 0); if (!go->accumulateConstantOffset(*DL, off)) break;
        return CV(constVal(cast<Constant>(go->getPointerOperand())).c + off.getSExtValue()); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constVal(ce->getOperand(0)); v.c &= mask64(t->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(t)); return v; }
      case Instruction::Sub: return CV((constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c) & mask64(DL->getTypeSizeInBits(t)));
      case Instruction::Add: return CV((constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c) & mask64(DL->getTypeSizeInBits(t)));
      case Instruction::Trunc: return CV(constVal(ce->getOperand(0)).c & mask64(DL->getTypeSizeInBits(t)));
      case Instruction::ICmp: { uint64_t a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return CV(a == b); case CmpInst::ICMP_NE: return CV(a != b); case CmpInst::ICMP_ULT: return CV(a < b); case CmpInst::ICMP_UGT: return CV(a > b); default: break; } break; }
      default: break;
    }
  }
  if (isa<DSOLocalEquivalent>(c)) return constVal(cast<DSOLocalEquivalent>(c)->getGlobalValue());
  std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "symex: unsupported constant %s\n", s.c_str()); 
  return CV(0);
}

void Exec::flatten(Type* t, std::vector<Type*>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { for (Type* e : st->elements()) flatten(e, out); }
  else if (t->isArrayTy()) { for (unsigned i = 0; i < t->getArrayNumElements(); i++) flatten(t->getArrayElementType(), out); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back(vt->getElementType()); }
  else if (!t->isVoidTy()) out.push_back(t);
}
void Exec::flattenOff(Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flattenOff(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (t->isArrayTy()) { uint64_t es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); i++) flattenOff(t->getArrayElementType(), off + es * i, out); }
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({vt->getElementType(), off + es * i}); }
  else if (!t->isVoidTy()) out.push_back({t, off});
}
unsigned Exec::widthOf(Type* t) { if (t->isPointerTy()) return 64; return (unsigned)DL->getTypeSizeInBits(t); }

FnCode* Exec::fnFor(Function* f) {
  auto it = fns.find(f); if (it != fns.end()) return it->second.get();
  auto p = std::make_unique<FnCode>(); p->F = f; p->name = f->getName().str(); p->decl = f->isDeclaration(); p->nounwind = f->hasFnAttribute(Attribute::NoUnwind);
  FnCode* r = p.get(); fns[f] = std::move(p); return r;
}

// ------------------------------------------------------------------ translation
namespace {
struct Trans {
  Exec& X; FnCode& fc; Function& F; const DataLayout& DL;
  std::map<const Value*, int32_t> slot; std::map<const BasicBlock*, uint32_t> bstart; std::vector<std::pair<uint32_t, std::pair<const BasicBlock*, const BasicBlock*>>> pendingEdges;
  std::map<std::pair<uint64_t, E>, int32_t> constIdx;
  Trans(Exec& x, FnCode& f) : X(x), fc(f), F(*f.F), DL(*x.DL) {}
  int32_t addConst(Val v) { auto k = std::make_pair(v.c, v.e); auto it = constIdx.find(k); if (it != constIdx.end()) return it->second; int32_t id = ~(int32_t)fc.consts.size(); fc.consts.push_back(v); constIdx[k] = id; return id; }
  // operand number i of the flattened value
  int32_t opnd(const Value* v, unsigned i = 0) {
    if (auto* c = dyn_cast<Constant>(v)) {
      Type* t = c->getType();
      if (t->isAggregateType() || t->isVectorTy()) {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { std::vector<Type*> fl; X.flatten(t, fl); unsigned w = X.widthOf(fl[i]); return addConst(w > 64 ? Val{0, mkConst(0, w)} : CV(0)); }
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned k = 0; k < n; k++) { Constant* e = c->getAggregateElement(k); std::vector<Type*> fl; X.flatten(e->getType(), fl); if (i < fl.size()) return opnd(e, i); i -= fl.size(); }
      }
      return addConst(X.constVal(c));
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return addConst(CV(0));
    auto it = slot.find(v); assert(it != slot.end()); return it->second + i;
  }
  unsigned nslots(Type* t) { std::vector<Type*> fl; X.flatten(t, fl); return fl.size(); }
  Inst& emit(Op op, Instruction* I) { fc.code.push_back(Inst{op, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, I}); return fc.code.back(); }
  uint32_t edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e{0, (uint32_t)fc.copies.size(), 0};
    for (const PHINode& p : to->phis()) { const Value* v = p.getIncomingValueForBlock(from); unsigned n = nslots(p.getType()); if (isa<UndefValue>(v)) continue; for (unsigned i = 0; i < n; i++) { int32_t s = opnd(v, i); if (s != slot[&p] + (int)i) { fc.copies.push_back({slot[&p] + (int)i, s}); e.copyCount++; } } }
    fc.edges.push_back(e); pendingEdges.push_back({(uint32_t)fc.edges.size() - 1, {from, to}}); return fc.edges.size() - 1;
  }
  unsigned aggIndex(Type* t, ArrayRef<unsigned> idx) {
    unsigned off = 0;
    for (unsigned k : idx) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < k; j++) off += nslots(st->getElementType(j)); t = st->getElementType(k); } else { t = t->getArrayElementType(); off += k * nslots(t); } }
    return off;
  }
  void run() {
    for (Argument& a : F.args()) { slot[&a] = fc.nregs; std::vector<Type*> fl; X.flatten(a.getType(), fl); for (Type* t : fl) fc.argw.push_back(X.widthOf(t)); fc.nregs += fl.size(); }
    fc.nargslots = fc.nregs;
    for (BasicBlock& b : F) for (Instruction& I : b) if (!I.getType()->isVoidTy()) { slot[&I] = fc.nregs; fc.nregs += nslots(I.getType()); }
    for (BasicBlock& b : F) { bstart[&b] = fc.code.size(); for (Instruction& I : b) inst(I); }
    for (auto& pe : pendingEdges) fc.edges[pe.first].target = bstart[pe.second.second];
    fc.translated = true;
  }
  void unsupported(Instruction& I) { emit(O_UNSUPPORTED, &I); }
  void inst(Instruction& I) {
    Type* t = I.getType(); int32_t d = t->isVoidTy() ? -1 : slot[&I];
    switch (I.getOpcode()) {
      case Instruction::PHI: return;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Kind k; switch (I.getOpcode()) { case Instruction::Add: k = K_ADD; break; case Instruction::Sub: k = K_SUB; break; case Instruction::Mul: k = K_MUL; break; case Instruction::UDiv: k = K_UDIV; break; case Instruction::SDiv: k = K_SDIV; break; case Instruction::URem: k = K_UREM; break; case Instruction::SRem: k = K_SREM; break; case Instruction::And: k = K_AND; break; case Instruction::Or: k = K_OR; break; case Instruction::Xor: k = K_XOR; break; case Instruction::Shl: k = K_SHL; break; case Instruction::LShr: k = K_LSHR; break; default: k = K_ASHR; }
        for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i); Inst& q = emit(O_BIN, &I); q.sub = k; q.w = X.widthOf(t->getScalarType()); q.dst = d + i; q.a = a; q.b = b; }
        return; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Kind k; switch (I.getOpcode()) { case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break; case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break; default: k = K_FREM; }
        for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i); Inst& q = emit(O_FBIN, &I); q.sub = k; q.w = X.widthOf(t->getScalarType()); q.dst = d + i; q.a = a; q.b = b; }
        return; }
      case Instruction::FNeg: for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = opnd(I.getOperand(0), i); Inst& q = emit(O_FNEG, &I); q.w = X.widthOf(t->getScalarType()); q.dst = d + i; q.a = a; } return;
      case Instruction::ICmp: case Instruction::FCmp: {
        auto& C = cast<CmpInst>(I);
        for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i); Inst& q = emit(I.getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP, &I); q.sub = C.getPredicate(); q.w = X.widthOf(I.getOperand(0)->getType()->getScalarType()); q.dst = d + i; q.a = a; q.b = b; }
        return; }
      case Instruction::Select: {
        bool vc = I.getOperand(0)->getType()->isVectorTy(); std::vector<Type*> fl; X.flatten(t, fl);
        for (unsigned i = 0; i < fl.size(); i++) { int32_t c = opnd(I.getOperand(0), vc ? i : 0), a = opnd(I.getOperand(1), i), b = opnd(I.getOperand(2), i); Inst& q = emit(O_SELECT, &I); q.w = X.widthOf(fl[i]); q.dst = d + i; q.a = c; q.b = a; q.c = b; }
        return; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: {
        for (unsigned i = 0, n = nslots(t); i < n; i++) {
          int32_t a = opnd(I.getOperand(0), i); Op o = I.getOpcode() == Instruction::ZExt ? O_ZEXT : I.getOpcode() == Instruction::SExt ? O_SEXT : I.getOpcode() == Instruction::Trunc ? O_TRUNC : O_FPCAST;
          Inst& q = emit(o, &I); q.dst = d + i; q.a = a; q.w = X.widthOf(t->getScalarType()); q.w2 = X.widthOf(I.getOperand(0)->getType()->getScalarType());
          if (o == O_FPCAST) switch (I.getOpcode()) { case Instruction::FPTrunc: case Instruction::FPExt: q.sub = K_FPCVT; break; case Instruction::SIToFP: q.sub = K_SITOFP; break; case Instruction::UIToFP: q.sub = K_UITOFP; break; case Instruction::FPToSI: q.sub = K_FPTOSI; break; default: q.sub = K_FPTOUI; }
        }
        return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
        Value* s = I.getOperand(0); unsigned n = nslots(t), m = nslots(s->getType());
        if (n != m) return unsupported(I);
        std::vector<Type*> f1, f2; X.flatten(t, f1); X.flatten(s->getType(), f2);
        for (unsigned i = 0; i < n; i++) { int32_t a = opnd(s, i); unsigned w = X.widthOf(f1[i]), w2 = X.widthOf(f2[i]); Inst& q = emit(w == w2 ? O_COPY : w < w2 ? O_TRUNC : O_ZEXT, &I); q.dst = d + i; q.a = a; q.w = w; q.w2 = w2; }
        return; }
      case Instruction::ExtractValue: { auto& E = cast<ExtractValueInst>(I); unsigned off = aggIndex(E.getAggregateOperand()->getType(), E.getIndices()); for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = opnd(E.getAggregateOperand(), off + i); Inst& q = emit(O_COPY, &I); q.dst = d + i; q.a = a; } return; }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I); unsigned off = aggIndex(t, E.getIndices()), n = nslots(t), m = nslots(E.getInsertedValueOperand()->getType()); bool und = isa<UndefValue>(E.getAggregateOperand());
        for (unsigned i = 0; i < n; i++) { bool in = i >= off && i < off + m; if (!in && und) continue; int32_t a = in ? opnd(E.getInsertedValueOperand(), i - off) : opnd(E.getAggregateOperand(), i); Inst& q = emit(O_COPY, &I); q.dst = d + i; q.a = a; }
        return; }
      case Instruction::ExtractElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) return unsupported(I); int32_t a = opnd(I.getOperand(0), ci->getZExtValue()); Inst& q = emit(O_COPY, &I); q.dst = d; q.a = a; return; }
      case Instruction::InsertElement: { auto* ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) return unsupported(I); unsigned k = ci->getZExtValue(); for (unsigned i = 0, n = nslots(t); i < n; i++) { int32_t a = i == k ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), i); Inst& q = emit(O_COPY, &I); q.dst = d + i; q.a = a; } return; }
      case Instruction::ShuffleVector: { auto& S = cast<ShuffleVectorInst>(I); int m = nslots(I.getOperand(0)->getType()); auto mask = S.getShuffleMask(); for (unsigned i = 0; i < mask.size(); i++) { int k = mask[i]; if (k < 0) k = 0; int32_t a = k < m ? opnd(I.getOperand(0), k) : opnd(I.getOperand(1), k - m); Inst& q = emit(O_COPY, &I); q.dst = d + i; q.a = a; } return; }
      case Instruction::Load: {
        auto& L = cast<LoadInst>(I); std::vector<std::pair<Type*, uint64_t>> fl; X.flattenOff(t, 0, fl); int32_t p = opnd(L.getPointerOperand());
        for (unsigned i = 0; i < fl.size(); i++) { Inst& q = emit(O_LOAD, &I); q.dst = d + i; q.a = p; q.aux = fl[i].second; q.w = X.widthOf(fl[i].first); q.n = DL.getTypeStoreSize(fl[i].first); q.flags = L.isAtomic() ? 1 | (isAcquireOrStronger(L.getOrdering()) ? 4 : 0) : 0; }
        return; }
      case Instruction::Store: {
        auto& S = cast<StoreInst>(I); std::vector<std::pair<Type*, uint64_t>> fl; X.flattenOff(S.getValueOperand()->getType(), 0, fl); int32_t p = opnd(S.getPointerOperand());
        if (isa<UndefValue>(S.getValueOperand())) return;
        for (unsigned i = 0; i < fl.size(); i++) { int32_t v = opnd(S.getValueOperand(), i); Inst& q = emit(O_STORE, &I); q.a = p; q.b = v; q.aux = fl[i].second; q.w = X.widthOf(fl[i].first); q.n = DL.getTypeStoreSize(fl[i].first); q.flags = S.isAtomic() ? 1 | (isReleaseOrStronger(S.getOrdering()) ? 8 : 0) : 0; }
        return; }
      case Instruction::GetElementPtr: {
        if (t->isVectorTy()) return unsupported(I);
        auto& G = cast<GetElementPtrInst>(I); int32_t base = opnd(G.getPointerOperand()); int64_t off = 0; std::vector<int32_t> terms;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value* ix = gi.getOperand();
          if (StructType* st = gi.getStructTypeOrNull()) { off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          int64_t sc = DL.getTypeAllocSize(gi.getIndexedType());
          if (auto* ci = dyn_cast<ConstantInt>(ix)) { off += ci->getSExtValue() * sc; continue; }
          terms.push_back(opnd(ix)); terms.push_back((int32_t)sc); terms.push_back(X.widthOf(ix->getType()));
        }
        int32_t oc = addConst(CV((uint64_t)off)); Inst& q = emit(O_GEP, &I); q.dst = d; q.a = base; q.b = oc; q.aux = fc.aux.size(); q.n = terms.size() / 3; q.w = 64;
        fc.aux.insert(fc.aux.end(), terms.begin(), terms.end()); return; }
      case Instruction::Alloca: { auto& A = cast<AllocaInst>(I); int32_t cnt = opnd(A.getArraySize()); Inst& q = emit(O_ALLOCA, &I); q.dst = d; q.a = cnt; q.aux = DL.getTypeAllocSize(A.getAllocatedType()); return; }
      case Instruction::Br: {
        auto& B = cast<BranchInst>(I);
        if (B.isUnconditional()) { uint32_t e = edge(I.getParent(), B.getSuccessor(0)); emit(O_BR, &I).aux = e; }
        else { int32_t c = opnd(B.getCondition()); uint32_t e1 = edge(I.getParent(), B.getSuccessor(0)), e2 = edge(I.getParent(), B.getSuccessor(1)); Inst& q = emit(O_CBR, &I); q.a = c; q.aux = e1; q.n = e2; }
        return; }
      case Instruction::Switch: {
        auto& S = cast<SwitchInst>(I); int32_t c = opnd(S.getCondition()); std::vector<std::pair<uint64_t, uint32_t>> cs;
        for (auto& k : S.cases()) cs.push_back({k.getCaseValue()->getZExtValue(), edge(I.getParent(), k.getCaseSuccessor())});
        cs.push_back({0, edge(I.getParent(), S.getDefaultDest())}); fc.switches.push_back(cs);
        Inst& q = emit(O_SWITCH, &I); q.a = c; q.aux = fc.switches.size() - 1; q.w = X.widthOf(S.getCondition()->getType()); return; }
      case Instruction::Ret: { unsigned n = 0; uint32_t st = fc.aux.size(); if (Value* v = I.getNumOperands() ? I.getOperand(0) : nullptr) { n = nslots(v->getType()); std::vector<int32_t> o; for (unsigned i = 0; i < n; i++) o.push_back(opnd(v, i)); fc.aux.insert(fc.aux.end(), o.begin(), o.end()); } Inst& q = emit(O_RET, &I); q.aux = st; q.n = n; return; }
      case Instruction::Unreachable: emit(O_UNREACHABLE, &I); return;
      case Instruction::Resume: { int32_t a = opnd(I.getOperand(0), 0); emit(O_RESUME, &I).a = a; return; }
      case Instruction::LandingPad: {
        auto& L = cast<LandingPadInst>(I); LPad lp; lp.cleanup = L.isCleanup();
        for (unsigned i = 0; i < L.getNumClauses(); i++) if (L.isCatch(i)) { Constant* c = L.getClause(i); lp.catches.push_back(isa<ConstantPointerNull>(c) ? 0 : X.constVal(c).c); }
        fc.lpads.push_back(lp); Inst& q = emit(O_LANDINGPAD, &I); q.dst = d; q.aux = fc.lpads.size() - 1; return; }
      case Instruction::AtomicRMW: { auto& A = cast<AtomicRMWInst>(I); int32_t p = opnd(A.getPointerOperand()), v = opnd(A.getValOperand()); Inst& q = emit(O_RMW, &I); q.sub = A.getOperation(); q.w = X.widthOf(t); q.n = DL.getTypeStoreSize(t); q.a = p; q.b = v; q.dst = d; q.flags = 1 | (isAcquireOrStronger(A.getOrdering()) ? 4 : 0) | (isReleaseOrStronger(A.getOrdering()) ? 8 : 0); return; }
      case Instruction::AtomicCmpXchg: { auto& A = cast<AtomicCmpXchgInst>(I); int32_t p = opnd(A.getPointerOperand()), v = opnd(A.getCompareOperand()), n = opnd(A.getNewValOperand()); Inst& q = emit(O_CMPXCHG, &I); Type* vt = A.getCompareOperand()->getType(); q.w = X.widthOf(vt); q.n = DL.getTypeStoreSize(vt); q.a = p; q.b = v; q.c = n; q.dst = d; q.flags = 1 | (isAcquireOrStronger(A.getSuccessOrdering()) ? 4 : 0) | (isReleaseOrStronger(A.getSuccessOrdering()) ? 8 : 0); return; }
      case Instruction::Fence: { auto& A = cast<FenceInst>(I); Inst& q = emit(O_FENCE, &I); q.flags = (isAcquireOrStronger(A.getOrdering()) ? 4 : 0) | (isReleaseOrStronger(A.getOrdering()) ? 8 : 0); return; }
      case Instruction::Call: case Instruction::Invoke: {
        auto& C = cast<CallBase>(I);
        if (auto* II = dyn_cast<IntrinsicInst>(&I)) if (intrinsic(*II, d)) return;
        if (C.isInlineAsm()) { emit(O_NOP, &I); return; }
        CallSite cs; cs.direct = nullptr; cs.callee = INT32_MIN; cs.invoke = isa<InvokeInst>(I);
        Value* cv = C.getCalledOperand()->stripPointerCasts(); if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(cv)) cs.direct = X.fnFor(f); else cs.callee = opnd(C.getCalledOperand());
        for (unsigned k = 0; k < C.arg_size(); k++) {
          Value* a = C.getArgOperand(k);
          if (C.isByValArgument(k)) cs.byval.push_back({(unsigned)cs.args.size(), (uint32_t)DL.getTypeAllocSize(C.getParamByValType(k))});
          std::vector<Type*> fl; X.flatten(a->getType(), fl); for (unsigned i = 0; i < fl.size(); i++) { cs.args.push_back(opnd(a, i)); cs.argw.push_back(X.widthOf(fl[i])); }
        }
        cs.retSlots = t->isVoidTy() ? 0 : nslots(t); cs.retw = cs.retSlots == 1 ? X.widthOf(t) : 64;
        if (cs.invoke) { auto& V = cast<InvokeInst>(I); cs.normalEdge = edge(I.getParent(), V.getNormalDest()); cs.unwindEdge = edge(I.getParent(), V.getUnwindDest()); }
        fc.calls.push_back(std::move(cs)); Inst& q = emit(O_CALL, &I); q.dst = d; q.aux = fc.calls.size() - 1; q.flags = fc.calls.back().invoke ? 2 : 0; return; }
      default: unsupported(I);
    }
  }
  bool intrinsic(IntrinsicInst& I, int32_t d) {
    Type* t = I.getType();
    switch (I.getIntrinsicID()) {
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
      case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::invariant_end: return true;
      case Intrinsic::stacksave: case Intrinsic::invariant_start: { int32_t z = addConst(CV(0)); Inst& q = emit(O_COPY, &I); q.dst = d; q.a = z; return true; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::expect_with_probability: { int32_t a = opnd(I.getArgOperand(0)); Inst& q = emit(O_COPY, &I); q.dst = d; q.a = a; return true; }
      case Intrinsic::is_constant: { int32_t z = addConst(CV(0)); Inst& q = emit(O_COPY, &I); q.dst = d; q.a = z; return true; }
      case Intrinsic::objectsize: { int32_t z = addConst(CV(~0ull)); Inst& q = emit(O_COPY, &I); q.dst = d; q.a = z; return true; }
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memset: case Intrinsic::memcpy_inline: case Intrinsic::memset_inline:
      case Intrinsic::eh_typeid_for: case Intrinsic::threadlocal_address: case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: {
        int32_t a[3] = {0, 0, 0}; for (unsigned k = 0; k < 3 && k < I.arg_size(); k++) a[k] = opnd(I.getArgOperand(k));
        Inst& q = emit(O_INTR, &I); q.dst = d; q.a = a[0]; q.b = a[1]; q.c = a[2]; q.aux = I.getIntrinsicID(); q.w = I.arg_size() >= 3 ? X.widthOf(I.getArgOperand(2)->getType()) : 64; return true; }
      default: {
        // scalar or element-wise
        std::vector<Type*> fl; X.flatten(t, fl); bool ovf = t->isStructTy();
        unsigned n = t->isVectorTy() ? fl.size() : 1;
        if (t->isVectorTy() == false) for (auto& a : I.args()) if (a->getType()->isVectorTy()) return reduce(I, d);
        for (unsigned i = 0; i < n; i++) {
          int32_t a[3] = {0, 0, 0}; for (unsigned k = 0; k < 3 && k < I.arg_size(); k++) { Value* v = I.getArgOperand(k); a[k] = opnd(v, v->getType()->isVectorTy() ? i : 0); }
          Inst& q = emit(O_INTR, &I); q.dst = d + i; q.a = a[0]; q.b = a[1]; q.c = a[2]; q.aux = I.getIntrinsicID(); q.w = X.widthOf(ovf ? fl[0] : t->getScalarType()->isVoidTy() ? Type::getInt64Ty(t->getContext()) : t->getScalarType());
          q.w2 = I.arg_size() ? X.widthOf(I.getArgOperand(0)->getType()->getScalarType()) : 64;
        }
        return true; }
    }
  }
  bool reduce(IntrinsicInst& I, int32_t d) {
    Kind k; switch (I.getIntrinsicID()) { case Intrinsic::vector_reduce_or: k = K_OR; break; case Intrinsic::vector_reduce_and: k = K_AND; break; case Intrinsic::vector_reduce_add: k = K_ADD; break; case Intrinsic::vector_reduce_xor: k = K_XOR; break; default: unsupported(I); return true; }
    Value* v = I.getArgOperand(0); unsigned n = nslots(v->getType()); int32_t a0 = opnd(v, 0); { Inst& q = emit(O_COPY, &I); q.dst = d; q.a = a0; }
    for (unsigned i = 1; i < n; i++) { int32_t b = opnd(v, i); Inst& q = emit(O_BIN, &I); q.sub = k; q.w = X.widthOf(I.getType()); q.dst = d; q.a = d; q.b = b; }
    return true;
  }
};
}
void Exec::translate(FnCode* fc) { Trans t(*this, *fc); t.run(); }

// ------------------------------------------------------------------ states and forking
E Exec::cachedVarSet(E e) { return e; }

void Exec::addPC(State* s, E c) {
  if (c->isConst()) { return; }
  if (c->k == K_AND && c->w == 1) { addPC(s, c->a[0]); addPC(s, c->a[1]); return; }
  s->pc.push_back(c);
}
static std::unordered_map<E, std::vector<uint32_t>> g_varsOf;
static uint64_t g_vstamp = 0;
static std::unordered_map<E, uint64_t> g_seen;
const std::vector<uint32_t>& varsOfExpr(E e) {
  auto it = g_varsOf.find(e); if (it != g_varsOf.end()) return it->second;
  std::vector<uint32_t> out; std::vector<E> st{e}; std::set<E> seen;
  std::set<uint32_t> vs;
  while (!st.empty()) {
    E x = st.back(); st.pop_back(); if (x->isConst() || !seen.insert(x).second) continue;
    if (x->k == K_VAR) { vs.insert(x->p); continue; }
    auto f = x != e ? g_varsOf.find(x) : g_varsOf.end(); if (f != g_varsOf.end()) { vs.insert(f->second.begin(), f->second.end()); continue; }
    for (int i = 0; i < x->nops; i++) st.push_back(x->a[i]);
  }
  out.assign(vs.begin(), vs.end());
  return g_varsOf[e] = out;
}
// constraints of pc connected to e through shared variables
static void slice(const std::vector<E>& pc, E e, std::vector<E>& out) {
  std::vector<char> in(g_vars.size(), 0); for (uint32_t v : varsOfExpr(e)) in[v] = 1;
  std::vector<char> used(pc.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { auto& vs = varsOfExpr(pc[i]); bool hit = false; for (uint32_t v : vs) if (in[v]) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (uint32_t v : vs) in[v] = 1; } } }
  for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
}
struct QKeyHash { size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first ^ (p.second * 0x9e3779b97f4a7c15ull); } };
static std::unordered_map<std::pair<uint64_t, uint64_t>, std::pair<int, std::shared_ptr<Model>>, QKeyHash> g_qcache;
static std::vector<std::shared_ptr<Model>> g_recent;

Res Exec::query(State* s, E extra, Model* m) {
  // does pc && extra have a model? the current model satisfies pc
  if (extra->isConst() && !extra->c) return UNSAT;
  nQueries++;
  if (evalExpr(extra, s->model)) { if (m) *m = s->model; return SAT; }
  std::vector<E> sl; slice(s->pc, extra, sl);
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; }); sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  uint64_t h1 = 1469598103934665603ull, h2 = 88172645463325252ull;
  auto mixin = [&](uint64_t x) { h1 = (h1 ^ x) * 1099511628211ull; h1 ^= h1 >> 29; h2 = (h2 + x) * 0x9e3779b97f4a7c15ull; h2 ^= h2 >> 31; };
  for (E e : sl) mixin(e->id); mixin(0xffffffff); mixin(extra->id);
  auto key = std::make_pair(h1, h2); auto it = g_qcache.find(key);
  auto merge = [&](const Model& part) {
    if (!m) return; Model r = s->model; r.v.resize(g_vars.size(), 0);
    auto put = [&](E e) { for (uint32_t v : varsOfExpr(e)) r.v[v] = v < part.v.size() ? part.v[v] : 0; };
    for (E e : sl) put(e); put(extra); r.gen = ++g_modelGen; *m = std::move(r);
  };
  if (it != g_qcache.end()) { nCacheHits++; if (it->second.first == SAT) merge(*it->second.second); return (Res)it->second.first; }
  for (auto rit = g_recent.rbegin(); rit != g_recent.rend(); ++rit) {
    Model& c = **rit; if (!evalExpr(extra, c)) continue; bool ok = true; for (E e : sl) if (!evalExpr(e, c)) { ok = false; break; }
    if (ok) { nModelHits++; merge(c); return SAT; }
  }
  auto part = std::make_shared<Model>(); part->gen = ++g_modelGen;
  Res r = solverCheck(sl, extra, part.get());
  if (r != UNKNOWN) { g_qcache[key] = {r, r == SAT ? part : nullptr}; if (g_qcache.size() > 2000000) g_qcache.clear(); }
  else { unknowns++; if (getenv("SYMEX_DEBUG")) fprintf(stderr, "unknown: %s\n", exprStr(extra, 12).c_str()); }
  if (r == SAT) { g_recent.push_back(part); if (g_recent.size() > 12) g_recent.erase(g_recent.begin()); merge(*part); }
  return r;
}
State* Exec::fork(State* s) { forks++; State* n = new State(*s); n->depth++; s->depth++; if (n->th[n->cur].frames.empty()) return n; Frame*& nf = n->th[n->cur].frames.back(); Frame* c = new Frame(*nf); c->ref = 1; nf->ref--; nf = c; return n; }

// choose a truth value for c on the current path, forking the other side if feasible
bool Exec::decide(State* s, E c) {
  if (c->isConst()) return c->c != 0;
  bool v = evalExpr(c, s->model) != 0;
  E nc = v ? mkNot(c) : c;
  Model m; Res r = query(s, nc, &m);
  if (r == SAT) { State* o = fork(s); addPC(o, nc); o->model = std::move(m); push(o); addPC(s, v ? c : mkNot(c)); }
  else if (r == UNKNOWN) { addPC(s, v ? c : mkNot(c)); }
  return v;
}
uint64_t Exec::concretize(State* s, E e) {
  if (e->isConst()) return (uint64_t)e->c;
  u128 v = evalExpr(e, s->model); E eq = mkEq(e, mkConst(v, e->w));
  decide(s, eq);
  return (uint64_t)v;
}
uint64_t Exec::conc(State* s, const Val& v) { return v.e ? concretize(s, v.e) : v.c; }

void Exec::frameW(State* s) {
  auto& fr = s->th[s->cur].frames; if (fr.empty()) { F = nullptr; return; } Frame*& f = fr.back();
  if (f->ref > 1) { Frame* n = new Frame(*f); n->ref = 1; f->ref--; f = n; }
  F = f;
}

// ------------------------------------------------------------------ memory
static void cellsErase(Obj* o, uint32_t off, uint32_t n) {
  auto& c = o->cells; if (c.empty()) return;
  auto it = std::lower_bound(c.begin(), c.end(), off, [](const Cell& x, uint32_t v) { return x.off + x.n <= v; });
  size_t i = it - c.begin();
  while (i < c.size() && c[i].off < off + n) {
    Cell x = c[i];
    if (x.off >= off && x.off + x.n <= off + n) { c.erase(c.begin() + i); continue; }
    c.erase(c.begin() + i); std::vector<Cell> rest;
    if (x.off < off) rest.push_back({x.off, off - x.off, mkExtract(x.e, 0, 8 * (off - x.off))});
    if (x.off + x.n > off + n) { uint32_t k = off + n - x.off; rest.push_back({off + n, x.off + x.n - off - n, mkExtract(x.e, 8 * k, 8 * (x.n - k))}); }
    c.insert(c.begin() + i, rest.begin(), rest.end()); i += rest.size();
  }
}
void Exec::objStore(Obj* o, uint32_t off, uint32_t n, unsigned w, const Val& v) {
  cellsErase(o, off, n);
  if (o->init) memset(o->init + off, 1, n);
  if (!v.e) { uint64_t x = v.c; if (n <= 8) memcpy(o->bytes + off, &x, n); else { memcpy(o->bytes + off, &x, 8); memset(o->bytes + off + 8, 0, n - 8); } return; }
  if (v.e->isConst()) { u128 x = v.e->c; memcpy(o->bytes + off, &x, n); return; }
  E e = v.e->w < 8 * n ? mkZExt(v.e, 8 * n) : v.e;
  auto& c = o->cells; auto it = std::lower_bound(c.begin(), c.end(), off, [](const Cell& x, uint32_t q) { return x.off < q; });
  c.insert(it, Cell{off, n, e});
}
Val Exec::objLoad(State* s, uint32_t id, uint32_t off, uint32_t n, unsigned w) {
  const Obj* o = s->mem.get(id);
  if (o->init) {
    bool un = false; for (uint32_t i = 0; i < n; i++) if (!o->init[off + i]) { un = true; break; }
    if (un) {
      Obj* ow = s->mem.getw(id); bool all = true; for (uint32_t i = 0; i < n; i++) if (ow->init[off + i]) all = false;
      if (all) { E v = freshVar(s, "uninit", 8 * n, id, off); objStore(ow, off, n, 8 * n, Val{0, v}); }
      else for (uint32_t i = 0; i < n; i++) if (!ow->init[off + i]) { E v = freshVar(s, "uninit", 8, id, off + i); objStore(ow, off + i, 1, 8, Val{0, v}); }
      o = ow;
    }
  }
  if (!o->cells.empty()) {
    auto& c = o->cells; auto it = std::lower_bound(c.begin(), c.end(), off, [](const Cell& x, uint32_t v) { return x.off + x.n <= v; });
    if (it != c.end() && it->off < off + n) {
      E r = nullptr;
      if (it->off <= off && it->off + it->n >= off + n) r = mkExtract(it->e, 8 * (off - it->off), 8 * n);
      else {
        uint32_t p = off; // little endian: build from low to high
        while (p < off + n) {
          E part; uint32_t k;
          if (it != c.end() && it->off <= p) { k = std::min(it->off + it->n, off + n) - p; part = mkExtract(it->e, 8 * (p - it->off), 8 * k); ++it; }
          else { uint32_t e = it != c.end() ? std::min(it->off, off + n) : off + n; k = e - p; u128 x = 0; memcpy(&x, o->bytes + p, k); part = mkConst(x, 8 * k); }
          r = r ? mkConcat(part, r) : part; p += k;
        }
      }
      if (w < 8 * n) r = mkExtract(r, 0, w);
      return fromE(r);
    }
  }
  if (n <= 8) { uint64_t x = 0; switch (n) { case 8: memcpy(&x, o->bytes + off, 8); break; case 4: { uint32_t y; memcpy(&y, o->bytes + off, 4); x = y; break; } case 1: x = o->bytes[off]; break; default: memcpy(&x, o->bytes + off, n); } return CV(x & mask64(w)); }
  u128 x = 0; memcpy(&x, o->bytes + off, n); return {0, mkConst(x, w)};
}
// address check for a concrete access
const Obj* Exec::checkAcc(State* s, uint64_t addr, uint64_t n, bool write) {
  uint32_t id = addr >> SEG; uint64_t off = addr & ((1ull << SEG) - 1);
  const Obj* o = (addr >> SEG) < s->mem.next ? s->mem.get(id) : nullptr;
  if (!o) { memViolation(s, addr < 4096 ? "null-deref" : "use-after-free-or-wild", addr, n, write); }
  if (off + n > o->size) memViolation(s, "out-of-bounds", addr, n, write);
  if (write && o->ro) memViolation(s, "write-to-const", addr, n, write);
  return o;
}
void Exec::memViolation(State* s, const char* kind, uint64_t addr, uint64_t n, bool write) {
  char buf[200]; uint32_t id = addr >> SEG; const Obj* o = (addr >> SEG) < s->mem.next ? s->mem.get(id) : nullptr;
  snprintf(buf, sizeof buf, "%s of %llu bytes at object %u offset %lld (object size %lld)", write ? "write" : "read", (unsigned long long)n, id, (long long)(addr & 0xffffff), o ? (long long)o->size : -1ll);
  violation(s, std::string("memory:") + kind, buf, s->model); throw PathEnd{"memory"};
}
static unsigned strideOf(E e) {
  switch (e->k) {
    case K_CONST: { if (!e->c) return 1u << 16; unsigned k = 0; while (!((e->c >> k) & 1) && k < 16) k++; return 1u << k; }
    case K_SHL: if (e->a[1]->isConst()) { unsigned q = (unsigned)std::min<u128>(e->a[1]->c, 16); return std::min<unsigned>(1u << 16, strideOf(e->a[0]) << q); } return 1;
    case K_MUL: return std::min<unsigned>(1u << 16, strideOf(e->a[0]) * strideOf(e->a[1]));
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(strideOf(e->a[0]), strideOf(e->a[1]));
    case K_ITE: return std::min(strideOf(e->a[1]), strideOf(e->a[2]));
    case K_ZEXT: case K_SEXT: return strideOf(e->a[0]);
    case K_AND: if (e->a[1]->isConst()) return std::max(strideOf(e->a[0]), strideOf(e->a[1])); return 1;
    default: return 1;
  }
}
// constrain a symbolic address to one object; returns id and offset expression
bool Exec::resolve(State* s, E addr, uint32_t n, bool write, uint32_t& id, E& off, std::vector<uint32_t>& cand) {
  uint64_t a0 = (uint64_t)evalExpr(addr, s->model); id = a0 >> SEG;
  const Obj* o = (a0 >> SEG) < s->mem.next ? s->mem.get(id) : nullptr;
  if (!o || (a0 & 0xffffff) + n > o->size) memViolation(s, !o ? (a0 < 4096 ? "null-deref" : "wild-pointer") : "out-of-bounds", a0, n, write);
  if (write && o->ro) memViolation(s, "write-to-const", a0, n, write);
  off = mkBin(K_SUB, addr, mkConst(addrOf(id), 64));
  E in = mkBin(K_ULE, off, mkConst(o->size - n, 64));
  decide(s, in); // the sibling re-executes with an address outside this object
  uint32_t st = strideOf(off), rem = (uint32_t)((a0 & 0xffffff) % st);
  SRange r = srange(off); uint64_t lo = 0, hi = o->size - n; if (r.lo > 0 && r.lo < (i128)hi) lo = (uint64_t)r.lo; if (r.hi >= 0 && r.hi < (i128)hi) hi = (uint64_t)r.hi;
  lo = lo - (lo % st) + rem;
  uint64_t cnt = lo > hi ? 0 : (hi - lo) / st + 1;
  if (cnt > (write ? 48u : 96u)) return false;
  for (uint64_t k = lo; k <= hi; k += st) cand.push_back((uint32_t)k);
  return true;
}
Val Exec::loadMem(State* s, const Val& p, uint64_t coff, uint32_t n, unsigned w) {
  if (!p.e) { uint64_t a = p.c + coff; checkAcc(s, a, n, false); return objLoad(s, a >> SEG, a & 0xffffff, n, w); }
  E addr = coff ? mkBin(K_ADD, p.e, mkConst(coff, 64)) : p.e;
  if (addr->isConst()) return loadMem(s, CV((uint64_t)addr->c), 0, n, w);
  std::vector<std::pair<E, u128>> lv;
  if (addr->constIte && constIteLeaves(addr, lv, mkTrue(), 16)) {
    // every leaf must be valid where reachable
    for (auto& l : lv) {
      uint64_t a = (uint64_t)l.second; const Obj* o = (a >> SEG) < s->mem.next ? s->mem.get(a >> SEG) : nullptr;
      if (!o || (a & 0xffffff) + n > o->size) { if (decide(s, l.first)) memViolation(s, a < 4096 ? "null-deref" : "bad-pointer", a, n, false); l.first = mkFalse(); }
    }
    E r = nullptr; for (size_t i = lv.size(); i-- > 0;) { if (lv[i].first->isConst() && !lv[i].first->c) continue; uint64_t a = (uint64_t)lv[i].second; E v = toE(objLoad(s, a >> SEG, a & 0xffffff, n, w), w); r = r ? mkIte(lv[i].first, v, r) : v; }
    return fromE(r);
  }
  uint32_t id; E off; std::vector<uint32_t> cand;
  if (!resolve(s, addr, n, false, id, off, cand)) { uint64_t a = concretize(s, addr); return loadMem(s, CV(a), 0, n, w); }
  E r = nullptr; for (size_t i = cand.size(); i-- > 0;) { E v = toE(objLoad(s, id, cand[i], n, w), w); r = r ? mkIte(mkEq(off, mkConst(cand[i], 64)), v, r) : v; }
  symLoads++;
  return fromE(r);
}
void Exec::storeMem(State* s, const Val& p, uint64_t coff, uint32_t n, unsigned w, const Val& v) {
  if (!p.e) { uint64_t a = p.c + coff; checkAcc(s, a, n, true); objStore(s->mem.getw(a >> SEG), a & 0xffffff, n, w, v); return; }
  E addr = coff ? mkBin(K_ADD, p.e, mkConst(coff, 64)) : p.e;
  if (addr->isConst()) return storeMem(s, CV((uint64_t)addr->c), 0, n, w, v);
  std::vector<std::pair<E, u128>> lv;
  if (addr->constIte && constIteLeaves(addr, lv, mkTrue(), 16)) {
    for (auto& l : lv) {
      uint64_t a = (uint64_t)l.second; const Obj* o = (a >> SEG) < s->mem.next ? s->mem.get(a >> SEG) : nullptr;
      if (!o || (a & 0xffffff) + n > o->size || o->ro) { if (decide(s, l.first)) memViolation(s, a < 4096 ? "null-deref" : "bad-pointer", a, n, true); l.first = mkFalse(); }
    }
    for (auto& l : lv) { if (l.first->isConst() && !l.first->c) continue; uint64_t a = (uint64_t)l.second; Val old = objLoad(s, a >> SEG, a & 0xffffff, n, w); objStore(s->mem.getw(a >> SEG), a & 0xffffff, n, w, fromE(mkIte(l.first, toE(v, w), toE(old, w)))); }
    return;
  }
  uint32_t id; E off; std::vector<uint32_t> cand;
  if (!resolve(s, addr, n, true, id, off, cand)) { uint64_t a = concretize(s, addr); return storeMem(s, CV(a), 0, n, w, v); }
  for (uint32_t k : cand) { Val old = objLoad(s, id, k, n, w); objStore(s->mem.getw(id), k, n, w, fromE(mkIte(mkEq(off, mkConst(k, 64)), toE(v, w), toE(old, w)))); }
  symStores++;
}
void Exec::memCopy(State* s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n || d == src) { return; }
  checkAcc(s, src, n, false); checkAcc(s, d, n, true);
  uint32_t so = src & 0xffffff, dof = d & 0xffffff; const Obj* a = s->mem.get(src >> SEG);
  std::vector<uint8_t> tmp(a->bytes + so, a->bytes + so + n), ti; if (a->init) ti.assign(a->init + so, a->init + so + n);
  std::vector<Cell> cs;
  for (auto& c : a->cells) if (c.off < so + n && c.off + c.n > so) { uint32_t b = std::max<uint32_t>(c.off, so), e = std::min<uint32_t>(c.off + c.n, so + n); cs.push_back({b - so + dof, e - b, mkExtract(c.e, 8 * (b - c.off), 8 * (e - b))}); }
  Obj* o = s->mem.getw(d >> SEG); cellsErase(o, dof, n); memcpy(o->bytes + dof, tmp.data(), n);
  if (o->init) { if (ti.empty()) memset(o->init + dof, 1, n); else memcpy(o->init + dof, ti.data(), n); }
  else if (!ti.empty()) for (size_t i = 0; i < n; i++) if (!ti[i]) { /* copying indeterminate bytes into initialised storage */ o->init = (uint8_t*)malloc(o->size); memset(o->init, 1, o->size); memcpy(o->init + dof, ti.data(), n); break; }
  if (!cs.empty()) { auto it = std::lower_bound(o->cells.begin(), o->cells.end(), dof, [](const Cell& x, uint32_t q) { return x.off < q; }); o->cells.insert(it, cs.begin(), cs.end()); }
}
void Exec::memSet(State* s, uint64_t d, const Val& v, uint64_t n) {
  if (!n) return; checkAcc(s, d, n, true); Obj* o = s->mem.getw(d >> SEG); uint32_t off = d & 0xffffff;
  if (!v.e) { cellsErase(o, off, n); memset(o->bytes + off, (int)v.c, n); if (o->init) memset(o->init + off, 1, n); }
  else for (uint64_t i = 0; i < n; i++) objStore(o, off + i, 1, 8, v);
}
std::string Exec::readStr(State* s, uint64_t a, size_t max) {
  std::string r; for (size_t i = 0; i < max; i++) { uint32_t id = a >> SEG; const Obj* o = (a >> SEG) < s->mem.next ? s->mem.get(id) : nullptr; uint32_t off = a & 0xffffff; if (!o || off >= o->size || !o->bytes[off]) break; r += (char)o->bytes[off]; a++; } return r;
}

// ------------------------------------------------------------------ frames, calls, exceptions
void Exec::pushFrame(State* s, FnCode* fn, const std::vector<Val>& args, uint8_t flags) {
  if (!fn->translated) translate(fn);
  fn->executed = true; fn->nexec++;
  if (s->th[s->cur].frames.size() > 400) { violation(s, "stack-overflow", fn->name, s->model); throw PathEnd{"stack"}; }
  Frame* f = new Frame; f->fn = fn; f->regs.assign(fn->nregs, CV(0)); f->flags = flags;
  for (size_t i = 0; i < args.size() && i < fn->nargslots; i++) f->regs[i] = args[i];
  s->th[s->cur].frames.push_back(f); F = f;
}
void Exec::popFrame(State* s) {
  auto& fr = s->th[s->cur].frames; Frame* f = fr.back(); for (uint32_t id : f->allocas) s->mem.release(id);
  fr.pop_back(); if (--f->ref == 0) delete f;
  if (fr.empty()) F = nullptr; else frameW(s);
}
void Exec::takeEdge(uint32_t ei) {
  const Edge& e = F->fn->edges[ei];
  if (e.copyCount) {
    auto* cp = &F->fn->copies[e.copyStart]; tmpCopies.clear();
    for (uint32_t i = 0; i < e.copyCount; i++) tmpCopies.push_back(R(cp[i].second));
    for (uint32_t i = 0; i < e.copyCount; i++) F->regs[cp[i].first] = tmpCopies[i];
  }
  F->pc = e.target;
}
// continue after the call instruction the top frame is at
void Exec::afterCall(State* s) {
  const Inst& I = F->fn->code[F->pc]; const CallSite& cs = F->fn->calls[I.aux];
  if (cs.invoke) takeEdge(cs.normalEdge); else F->pc++;
}
std::string Exec::location(State* s) {
  std::string r; auto& fr = s->th[s->cur].frames; int n = 0;
  for (size_t i = fr.size(); i-- > 0 && n < 14; n++) {
    Frame* f = fr[i]; r += demangle(f->fn->name);
    if (f->pc < f->fn->code.size()) if (auto* si = f->fn->code[f->pc].src) if (auto& dl = si->getDebugLoc()) { DILocation* L = dl.get(); while (L) { r += " @" + L->getFilename().str() + ":" + std::to_string(L->getLine()); L = L->getInlinedAt(); } }
    r += "\n";
  }
  return r;
}
bool Exec::typeMatches(uint64_t thrown, uint64_t caught) {
  if (!caught || thrown == caught) return true;
  std::string tn = tiName(thrown), cn = tiName(caught); if (tn == cn) return true;
  std::set<std::string> seen; std::vector<std::string> st{tn};
  while (!st.empty()) { std::string x = st.back(); st.pop_back(); if (x == cn) return true; if (!seen.insert(x).second) continue; for (auto& b : tiBases(x)) st.push_back(b); }
  return false;
}
std::string Exec::tiName(uint64_t a) { for (auto& g : gaddr) if (g.second == a) return g.first->getName().str(); return "?"; }
std::vector<std::string> Exec::tiBases(const std::string& n) {
  static const std::map<std::string, std::string> stdh = {{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
  auto it = stdh.find(n); if (it != stdh.end()) return {it->second};
  std::vector<std::string> r; auto* g = M->getGlobalVariable(n, true);
  if (g && g->hasInitializer()) if (auto* ca = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned i = 2; i < ca->getNumOperands(); i++) if (auto* b = dyn_cast<GlobalVariable>(ca->getOperand(i)->stripPointerCasts())) r.push_back(b->getName().str());
  return r;
}
uint64_t Exec::typeinfoByName(const std::string& n) {
  auto* g = M->getGlobalVariable(n, true); if (g) return globalAddr(g);
  auto it = extTi.find(n); if (it != extTi.end()) return it->second;
  fprintf(stderr, "symex: typeinfo %s is not in the module\n", n.c_str()); return 0;
}
// returns true if a handler exists further up (phase 1)
void Exec::unwind(State* s, uint64_t obj, bool fromResume) {
  auto& th = s->th[s->cur]; uint64_t ti = s->exc.count(obj) ? s->exc[obj].ti : 0;
  // phase 1
  auto clause = [&](Frame* f, int& sel) -> int { // 0 none, 1 cleanup, 2 handler
    const Inst& I = f->fn->code[f->pc]; if (I.op != O_CALL) return 0; const CallSite& cs = f->fn->calls[I.aux]; if (!cs.invoke) return 0;
    uint32_t t = f->fn->edges[cs.unwindEdge].target; const Inst& L = f->fn->code[t]; if (L.op != O_LANDINGPAD) { fprintf(stderr, "symex: no landing pad\n"); return 0; }
    const LPad& lp = f->fn->lpads[L.aux];
    for (uint64_t c : lp.catches) if (typeMatches(ti, c)) { sel = selectorFor(c); return 2; }
    sel = 0; return lp.cleanup ? 1 : 0;
  };
  bool found = false; size_t top = th.frames.size();
  for (size_t i = top; i-- > 0;) { Frame* f = th.frames[i]; if (fromResume && i == top - 1) continue; int sel; int r = clause(f, sel); if (r == 2) { found = true; break; } if (r == 0 && f->fn->nounwind) break; if (f->flags & 1) { break; } }
  if (!found) { violation(s, "uncaught-exception", "exception of type " + demangle(tiName(ti)) + " escapes (std::terminate)", s->model); throw PathEnd{"uncaught"}; }
  if (fromResume) popFrame(s);
  while (true) {
    if (th.frames.empty()) { violation(s, "uncaught-exception", tiName(ti), s->model); throw PathEnd{"uncaught"}; }
    frameW(s); int sel = 0; int r = clause(F, sel);
    if (r) { const Inst& I = F->fn->code[F->pc]; const CallSite& cs = F->fn->calls[I.aux]; takeEdge(cs.unwindEdge); const Inst& L = F->fn->code[F->pc]; F->regs[L.dst] = CV(obj); F->regs[L.dst + 1] = CV(sel); F->pc++; return; }
    popFrame(s);
  }
}
int Exec::selectorFor(uint64_t ti) { auto it = selectors.find(ti); if (it != selectors.end()) return it->second; int n = selectors.size() + 1; selectors[ti] = n; return n; }
void Exec::throwStd(State* s, const std::string& ti) {
  if (ti == "_ZTISt9bad_alloc") if (Function* f = M->getFunction("symrt_throw_bad_alloc")) if (!f->isDeclaration()) { pushFrame(s, fnFor(f), {}, 0); return; }
  uint64_t a = addrOf(s->mem.alloc(64, 5, true)); s->exc[a] = ExcMeta{typeinfoByName(ti), 0, 1, 0}; unwind(s, a, false);
}

// ------------------------------------------------------------------ violations
void Exec::violation(State* s, const std::string& label, const std::string& detail, const Model& m) {
  std::string loc = location(s); std::string key = label;
  if (label.rfind("memory:", 0) == 0 || label == "assert" || label == "uncaught-exception") { size_t e = loc.find('\n'); key += "@" + loc.substr(0, std::min<size_t>(e, 60)); }
  int& n = violCount[key]; if (n++ >= 4) return;
  Violation v; v.label = label; v.detail = detail; v.stack = loc;
  for (auto& i : s->inputs) v.inputs.push_back({i.name, {i.kind, (uint64_t)evalExpr(i.e, m)}});
  v.sched = s->sched; v.trace = s->trace; std::set<std::string> cs; for (E e : s->pc) for (uint32_t x : varsOfExpr(e)) { const std::string& nm = g_vars[x].name; if (nm.rfind("uninit", 0) == 0) v.uninit = true; if (nm.rfind("libm_", 0) == 0) cs.insert(nm.substr(5, nm.find('/') - 5)); } for (auto& c : cs) v.contracts += c + " "; viols.push_back(v);
  if (verbose) { fprintf(stderr, "VIOL %s: %s\n%s", label.c_str(), detail.c_str(), loc.c_str()); for (auto& i : v.inputs) fprintf(stderr, "   %s = %lld (%g)\n", i.first.c_str(), (long long)i.second.second, asD(i.second.second)); }
}
E Exec::freshVar(State* s, const char* nm, unsigned w, uint64_t k1, uint64_t k2) {
  // shared between paths by key so that terms are shared
  std::string key = std::string(nm) + "/" + std::to_string(w) + "/" + std::to_string(k1) + "/" + std::to_string(k2);
  auto it = sharedVars.find(key); if (it != sharedVars.end()) return it->second;
  E e = mkVar(key, w); sharedVars[key] = e; return e;
}

// ------------------------------------------------------------------ main loop
static inline double bd(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
static inline uint64_t db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static inline float bf(uint64_t x) { uint32_t y = x; float d; memcpy(&d, &y, 4); return d; }
static inline uint64_t fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

static inline uint64_t binC(Kind k, uint64_t a, uint64_t b, unsigned w, bool& bad) {
  switch (k) {
    case K_ADD: return a + b; case K_SUB: return a - b; case K_MUL: return a * b;
    case K_UDIV: if (!b) { bad = true; return 0; } return a / b;
    case K_UREM: if (!b) { bad = true; return 0; } return a % b;
    case K_SDIV: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w), y = (int64_t)(b << (64 - w)) >> (64 - w); if (!y || (y == -1 && x == (int64_t)(1ull << (w - 1) << (64 - w)) >> (64 - w))) { if (!y) { bad = true; return 0; } return 0 - a; } return (uint64_t)(x / y); }
    case K_SREM: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w), y = (int64_t)(b << (64 - w)) >> (64 - w); if (!y) { bad = true; return 0; } if (y == -1) return 0; return (uint64_t)(x % y); }
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : a << b; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: { int64_t x = (int64_t)(a << (64 - w)) >> (64 - w); return (uint64_t)(x >> (b >= w ? w - 1 : b)); }
    default: return 0;
  }
}
static inline int64_t sx64(uint64_t a, unsigned w) { return w >= 64 ? (int64_t)a : (int64_t)(a << (64 - w)) >> (64 - w); }
static bool icmpC(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sx64(a, w) > sx64(b, w); case CmpInst::ICMP_SGE: return sx64(a, w) >= sx64(b, w); case CmpInst::ICMP_SLT: return sx64(a, w) < sx64(b, w); default: return sx64(a, w) <= sx64(b, w); }
}
static E icmpE(unsigned p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_UGT: return mkBin(K_ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(K_ULE, b, a); case CmpInst::ICMP_ULT: return mkBin(K_ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(K_ULE, a, b);
    case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(K_SLE, b, a); case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); default: return mkBin(K_SLE, a, b); }
}
static E fcmpE(unsigned p, E a, E b) {
  auto uno = [&] { return mkBin(K_FUNO, a, b); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse(); case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_OEQ: return mkBin(K_FEQ, a, b); case CmpInst::FCMP_OGT: return mkBin(K_FLT, b, a); case CmpInst::FCMP_OGE: return mkBin(K_FLE, b, a); case CmpInst::FCMP_OLT: return mkBin(K_FLT, a, b); case CmpInst::FCMP_OLE: return mkBin(K_FLE, a, b);
    case CmpInst::FCMP_ONE: return mkBin(K_AND, mkNot(mkBin(K_FEQ, a, b)), mkNot(uno())); case CmpInst::FCMP_ORD: return mkNot(uno()); case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkBin(K_OR, mkBin(K_FEQ, a, b), uno()); case CmpInst::FCMP_UGT: return mkNot(mkBin(K_FLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkBin(K_FLT, a, b)); case CmpInst::FCMP_ULT: return mkNot(mkBin(K_FLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkBin(K_FLT, b, a)); default: return mkNot(mkBin(K_FEQ, a, b));
  }
}

void Exec::intrinsic(State* s, const Inst& I) {
  unsigned w = I.w; const Val a = R(I.a), b = R(I.b), c = R(I.c);
  auto set = [&](Val v) { F->regs[I.dst] = v; };
  auto ea = [&] { return toE(a, I.w2 ? I.w2 : w); }; auto eb = [&] { return toE(b, w); }; auto ec = [&] { return toE(c, w); };
  auto libm1 = [&](const char* n) { set(libm(s, n, {toE(a, w)}, w)); };
  auto libm2 = [&](const char* n) { set(libm(s, n, {toE(a, w), toE(b, w)}, w)); };
  switch (I.aux) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = conc(s, c), d = conc(s, a), q = conc(s, b); if (s->mt) raceRange(s, q, n, false), raceRange(s, d, n, true); memCopy(s, d, q, n); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = conc(s, c), d = conc(s, a); if (s->mt) raceRange(s, d, n, true); memSet(s, d, b, n); break; }
    case Intrinsic::eh_typeid_for: set(CV(selectorFor(a.c))); break;
    case Intrinsic::threadlocal_address: {
      uint64_t g = a.c; if (s->cur == 0) { set(a); break; }
      auto& tls = s->th[s->cur].tls; auto it = tls.find(g);
      if (it == tls.end()) { const Obj* o = initState->mem.get(g >> SEG); uint32_t id = s->mem.alloc(o->size, 0, true); memcpy(s->mem.getw(id)->bytes, o->bytes, o->size); it = tls.insert({g, addrOf(id)}).first; }
      set(CV(it->second)); break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, I.aux == Intrinsic::ubsantrap ? "ub-trap" : "trap", "trap executed", s->model); throw PathEnd{"trap"};
    case Intrinsic::umin: set(fromE(mkIte(mkBin(K_ULT, ea(), eb()), ea(), eb()))); break;
    case Intrinsic::umax: set(fromE(mkIte(mkBin(K_ULT, eb(), ea()), ea(), eb()))); break;
    case Intrinsic::smin: set(fromE(mkIte(mkBin(K_SLT, ea(), eb()), ea(), eb()))); break;
    case Intrinsic::smax: set(fromE(mkIte(mkBin(K_SLT, eb(), ea()), ea(), eb()))); break;
    case Intrinsic::abs: set(fromE(mkIte(mkBin(K_SLT, ea(), mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), ea()), ea()))); break;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = ea(), y = eb(), r, o;
      switch (I.aux) {
        case Intrinsic::uadd_with_overflow: r = mkBin(K_ADD, x, y); o = mkBin(K_ULT, r, x); break;
        case Intrinsic::usub_with_overflow: r = mkBin(K_SUB, x, y); o = mkBin(K_ULT, x, y); break;
        case Intrinsic::umul_with_overflow: { r = mkBin(K_MUL, x, y); E l = mkBin(K_MUL, mkZExt(x, std::min(128u, 2 * w)), mkZExt(y, std::min(128u, 2 * w))); o = mkNot(mkEq(mkExtract(l, w, std::min(128u, 2 * w) - w), mkConst(0, std::min(128u, 2 * w) - w))); break; }
        default: { unsigned W = I.aux == Intrinsic::smul_with_overflow ? std::min(128u, 2 * w) : w + 1; Kind k = I.aux == Intrinsic::sadd_with_overflow ? K_ADD : I.aux == Intrinsic::ssub_with_overflow ? K_SUB : K_MUL; E l = mkBin(k, mkSExt(x, W), mkSExt(y, W)); r = mkBin(k, x, y); o = mkNot(mkEq(mkSExt(r, W), l)); break; }
      }
      F->regs[I.dst] = fromE(r); F->regs[I.dst + 1] = fromE(o); break; }
    case Intrinsic::uadd_sat: { E x = ea(), y = eb(), r = mkBin(K_ADD, x, y); set(fromE(mkIte(mkBin(K_ULT, r, x), mkConst(maskw(w), w), r))); break; }
    case Intrinsic::usub_sat: { E x = ea(), y = eb(); set(fromE(mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y)))); break; }
    case Intrinsic::ctpop: { if (!a.e) { set(CV(__builtin_popcountll(a.c))); break; } E x = toE(a, w), r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_ADD, r, mkZExt(mkExtract(x, i, 1), w)); set(fromE(r)); break; }
    case Intrinsic::ctlz: { E x = toE(a, w); if (x->isConst()) { unsigned n = 0; while (n < w && !((x->c >> (w - 1 - n)) & 1)) n++; set(fromE(mkConst(n, w))); break; } E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r); set(fromE(r)); break; }
    case Intrinsic::cttz: { E x = toE(a, w); if (x->isConst()) { unsigned n = 0; while (n < w && !((x->c >> n) & 1)) n++; set(fromE(mkConst(n, w))); break; } E r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r); set(fromE(r)); break; }
    case Intrinsic::bswap: { E x = toE(a, w), r = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(x, i, 8)); set(fromE(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E x = ea(), y = eb(), z = ec(); if (w > 64) { set(fromE(x)); break; }
      E m = mkBin(K_UREM, z, mkConst(w, w)); E cat = mkConcat(x, y); E sh = mkZExt(m, 2 * w);
      if (I.aux == Intrinsic::fshl) set(fromE(mkExtract(mkBin(K_SHL, cat, sh), w, w))); else set(fromE(mkExtract(mkBin(K_LSHR, cat, sh), 0, w))); break; }
    case Intrinsic::fabs: { E x = toE(a, w); if (w == 80) { set(fromE(mkBin(K_AND, x, mkConst(maskw(79), 80)))); break; } set(fromE(mkBin(K_AND, x, mkConst(maskw(w - 1), w)))); break; }
    case Intrinsic::copysign: { E x = toE(a, w), y = toE(b, w); set(fromE(mkBin(K_OR, mkBin(K_AND, x, mkConst(maskw(w - 1), w)), mkBin(K_AND, y, mkConst((u128)1 << (w - 1), w))))); break; }
    case Intrinsic::floor: set(fromE(mkFUn(K_FRND, toE(a, w), w, 0))); break;
    case Intrinsic::ceil: set(fromE(mkFUn(K_FRND, toE(a, w), w, 1))); break;
    case Intrinsic::trunc: set(fromE(mkFUn(K_FRND, toE(a, w), w, 2))); break;
    case Intrinsic::round: set(fromE(mkFUn(K_FRND, toE(a, w), w, 3))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: set(fromE(mkFUn(K_FRND, toE(a, w), w, 4))); break;
    case Intrinsic::sqrt: set(fromE(mkFUn(K_FSQRT, toE(a, w), w))); break;
    case Intrinsic::fma: set(fromE(mkFma(toE(a, w), toE(b, w), toE(c, w)))); break;
    case Intrinsic::fmuladd: set(fromE(mkBin(K_FADD, mkBin(K_FMUL, toE(a, w), toE(b, w)), toE(c, w)))); break;
    case Intrinsic::minnum: case Intrinsic::maxnum: { E x = toE(a, w), y = toE(b, w); E lt = I.aux == Intrinsic::minnum ? mkBin(K_FLT, x, y) : mkBin(K_FLT, y, x); set(fromE(mkIte(mkBin(K_FUNO, x, x), y, mkIte(mkBin(K_FUNO, y, y), x, mkIte(lt, x, y))))); break; }
    case Intrinsic::is_fpclass: {
      E x = toE(a, I.w2); uint64_t m = b.c; unsigned W = I.w2; E mag = mkBin(K_AND, x, mkConst(maskw(W - 1), W)); u128 infb = W == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u, qb = W == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u, mn = W == 64 ? (u128)0x0010000000000000ull : (u128)0x00800000u;
      E sg = mkExtract(x, W - 1, 1), ng = mkNot(sg); E isnan = mkBin(K_ULT, mkConst(infb, W), mag), inf = mkEq(mag, mkConst(infb, W)), zero = mkEq(mag, mkConst(0, W)), sub = mkBin(K_AND, mkNot(zero), mkBin(K_ULT, mag, mkConst(mn, W))), nor = mkBin(K_AND, mkBin(K_ULE, mkConst(mn, W), mag), mkBin(K_ULT, mag, mkConst(infb, W)));
      E r = mkFalse(); auto add = [&](unsigned bit, E q) { if (m & bit) r = mkBin(K_OR, r, q); };
      add(1, mkBin(K_AND, isnan, mkBin(K_ULT, mag, mkConst(qb, W)))); add(2, mkBin(K_ULE, mkConst(qb, W), mag)); add(4, mkBin(K_AND, sg, inf)); add(8, mkBin(K_AND, sg, nor)); add(16, mkBin(K_AND, sg, sub)); add(32, mkBin(K_AND, sg, zero)); add(64, mkBin(K_AND, ng, zero)); add(128, mkBin(K_AND, ng, sub)); add(256, mkBin(K_AND, ng, nor)); add(512, mkBin(K_AND, ng, inf));
      set(fromE(r)); break; }
    case Intrinsic::exp: libm1("exp"); break; case Intrinsic::exp2: libm1("exp2"); break; case Intrinsic::log: libm1("log"); break; case Intrinsic::log2: libm1("log2"); break; case Intrinsic::log10: libm1("log10"); break;
    case Intrinsic::sin: libm1("sin"); break; case Intrinsic::cos: libm1("cos"); break; case Intrinsic::pow: libm2("pow"); break;
    case Intrinsic::powi: set(libm(s, "pow", {toE(a, w), mkFUn(K_SITOFP, toE(b, 32), w)}, w)); break;
    case Intrinsic::ldexp: { if (!isC(a) || !isC(b)) { F->regs[I.dst] = libm(s, "ldexp", {toE(a, w), toE(b, 32)}, w); break; } set(w == 64 ? CV(db(std::ldexp(bd(a.c), (int)b.c))) : CV(fb(std::ldexp(bf(a.c), (int)b.c)))); break; }
    case Intrinsic::x86_sse2_pause: symexYield(*this); break;
    default: unsupported(s, std::string("intrinsic ") + Intrinsic::getBaseName((Intrinsic::ID)I.aux).str());
  }
  F->pc++;
}
void Exec::unsupported(State* s, const std::string& what) {
  if (!unsup.count(what)) fprintf(stderr, "symex: unsupported %s\n%s", what.c_str(), location(s).c_str());
  unsup.insert(what); throw PathEnd{"unsupported"};
}

void Exec::doCall(State* s, const Inst& I) {
  Frame* f = F; const CallSite& cs = f->fn->calls[I.aux];
  FnCode* fn = cs.direct;
  if (!fn) {
    Val p = R(cs.callee); uint64_t a = conc(s, p); auto it = fnByAddr.find(a);
    if (it == fnByAddr.end()) { memViolation(s, "call-through-bad-pointer", a, 1, false); }
    fn = it->second;
  }
  std::vector<Val> args; args.reserve(cs.args.size()); for (int32_t o : cs.args) args.push_back(R(o));
  if (!fn->builtinLooked) { fn->builtinLooked = true; fn->builtin = findBuiltin(fn); }
  if (fn->builtin) {
    int r = fn->builtin(*this, fn, I, cs, args);   // 0: completed, advance; 1: control already transferred
    if (r == 0) afterCall(s);
    return;
  }
  if (fn->decl) { unsupported(s, "external function " + demangle(fn->name)); }
  std::vector<uint32_t> bv;
  for (auto& b : cs.byval) { uint64_t src = conc(s, args[b.first]); uint32_t id = s->mem.alloc(b.second, 1, false); memCopy(s, addrOf(id), src, b.second); args[b.first] = CV(addrOf(id)); bv.push_back(id); }
  pushFrame(s, fn, args, 0);
  F->allocas.insert(F->allocas.end(), bv.begin(), bv.end());
}

// run one state until it ends or is preempted by the driver; returns when the path has ended
void Exec::runState(State* s) {
  S = s; frameW(s);
  try {
    while (true) {
      if (s->mt && !schedule(s)) return;
      Frame* f = F; FnCode* fn = f->fn;
      const Inst& I = fn->code[f->pc];
      s->steps++;
      if ((s->steps & 1023) == 0) { totalSteps += 1024; if (s->steps > maxSteps) { violation(s, "non-termination", "instruction budget of one path exceeded", s->model); stepLimited++; throw PathEnd{"steps"}; } if (timeUp()) { throw PathEnd{"time"}; } }
      switch (I.op) {
        case O_NOP: f->pc++; break;
        case O_COPY: f->regs[I.dst] = R(I.a); f->pc++; break;
        case O_BIN: {
          const Val &a = R(I.a), &b = R(I.b); Kind k = (Kind)I.sub;
          if (!a.e && !b.e && I.w <= 64) { bool bad = false; uint64_t r = binC(k, a.c, b.c, I.w, bad) & mask64(I.w); if (bad) { violation(s, "division-by-zero", "integer division by zero", s->model); throw PathEnd{"div0"}; } f->regs[I.dst] = CV(r); }
          else {
            E x = toE(a, I.w), y = toE(b, I.w);
            if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) { E z = mkEq(y, mkConst(0, I.w)); if (decide(s, z)) { violation(s, "division-by-zero", "integer division by zero", s->model); throw PathEnd{"div0"}; } }
            f->regs[I.dst] = fromE(mkBin(k, x, y));
          }
          f->pc++; break; }
        case O_FBIN: {
          const Val &a = R(I.a), &b = R(I.b);
          if (!a.e && !b.e && I.w == 64) { double x = bd(a.c), y = bd(b.c), r; switch (I.sub) { case K_FADD: r = x + y; break; case K_FSUB: r = x - y; break; case K_FMUL: r = x * y; break; case K_FDIV: r = x / y; break; default: r = std::fmod(x, y); } f->regs[I.dst] = CV((uint64_t)fromD(r)); }
          else f->regs[I.dst] = fromE(mkBin((Kind)I.sub, toE(a, I.w), toE(b, I.w)));
          f->pc++; break; }
        case O_FNEG: { const Val& a = R(I.a); f->regs[I.dst] = fromE(mkBin(K_XOR, toE(a, I.w), mkConst((u128)1 << (I.w - 1), I.w))); f->pc++; break; }
        case O_ICMP: { const Val &a = R(I.a), &b = R(I.b); if (!a.e && !b.e) f->regs[I.dst] = CV(icmpC(I.sub, a.c, b.c, I.w)); else f->regs[I.dst] = fromE(icmpE(I.sub, toE(a, I.w), toE(b, I.w))); f->pc++; break; }
        case O_FCMP: { const Val &a = R(I.a), &b = R(I.b); f->regs[I.dst] = fromE(fcmpE(I.sub, toE(a, I.w), toE(b, I.w))); f->pc++; break; }
        case O_SELECT: {
          const Val& c = R(I.a); if (!c.e) { Val v = R(c.c & 1 ? I.b : I.c); f->regs[I.dst] = v; f->pc++; break; }
          Val x = R(I.b), y = R(I.c);
          f->regs[I.dst] = fromE(mkIte(c.e, toE(x, I.w), toE(y, I.w))); f->pc++; break; }
        case O_ZEXT: { const Val& a = R(I.a); if (!a.e && I.w <= 64) f->regs[I.dst] = a; else f->regs[I.dst] = fromE(mkZExt(toE(a, I.w2), I.w)); f->pc++; break; }
        case O_SEXT: { const Val& a = R(I.a); if (!a.e && I.w <= 64) f->regs[I.dst] = CV((uint64_t)sx64(a.c, I.w2) & mask64(I.w)); else f->regs[I.dst] = fromE(mkSExt(toE(a, I.w2), I.w)); f->pc++; break; }
        case O_TRUNC: { const Val& a = R(I.a); if (!a.e && I.w2 <= 64) f->regs[I.dst] = CV(a.c & mask64(I.w)); else f->regs[I.dst] = fromE(mkExtract(toE(a, I.w2), 0, I.w)); f->pc++; break; }
        case O_FPCAST: { const Val& a = R(I.a); f->regs[I.dst] = fromE(mkFUn((Kind)I.sub, toE(a, I.w2), I.w)); f->pc++; break; }
        case O_LOAD: { Val p = R(I.a); if (s->mt) raceAcc(s, p, I.aux, I.n, false, I.flags & 1); Val v = loadMem(s, p, I.aux, I.n, I.w); if (s->mt && (I.flags & 1)) syncLoad(s, p.c + I.aux, I.flags); f->regs[I.dst] = v; f->pc++; break; }
        case O_STORE: { Val p = R(I.a), v = R(I.b); if (s->mt) raceAcc(s, p, I.aux, I.n, true, I.flags & 1); storeMem(s, p, I.aux, I.n, I.w, v); if (s->mt && (I.flags & 1)) syncStore(s, p.c + I.aux, I.flags); f->pc++; break; }
        case O_GEP: {
          const Val& b = R(I.a); uint64_t off = fn->consts[~I.b].c;
          if (!b.e) {
            uint64_t a = b.c + off; E sum = nullptr;
            for (uint32_t i = 0; i < I.n; i++) { const int32_t* t = &fn->aux[I.aux + 3 * i]; const Val& x = R(t[0]); if (!x.e) a += (uint64_t)sx64(x.c, t[2]) * (uint64_t)(int64_t)t[1]; else { E m = mkBin(K_MUL, mkSExt(x.e, 64), mkConst((uint64_t)(int64_t)t[1], 64)); sum = sum ? mkBin(K_ADD, sum, m) : m; } }
            f->regs[I.dst] = sum ? fromE(mkBin(K_ADD, sum, mkConst(a, 64))) : CV(a);
          } else {
            uint64_t a = off; E sum = b.e;
            for (uint32_t i = 0; i < I.n; i++) { const int32_t* t = &fn->aux[I.aux + 3 * i]; const Val& x = R(t[0]); if (!x.e) a += (uint64_t)sx64(x.c, t[2]) * (uint64_t)(int64_t)t[1]; else sum = mkBin(K_ADD, sum, mkBin(K_MUL, mkSExt(x.e, 64), mkConst((uint64_t)(int64_t)t[1], 64))); }
            f->regs[I.dst] = fromE(mkBin(K_ADD, sum, mkConst(a, 64)));
          }
          f->pc++; break; }
        case O_ALLOCA: { uint64_t n = conc(s, R(I.a)); uint32_t id = s->mem.alloc(n * I.aux, 1, false); f->allocas.push_back(id); f->regs[I.dst] = CV(addrOf(id)); f->pc++; break; }
        case O_CALL: doCall(s, I); break;
        case O_BR: takeEdge(I.aux); break;
        case O_CBR: { const Val& c = R(I.a); bool v = c.e ? (nbranch++, decide(s, c.e)) : (c.c & 1); takeEdge(v ? I.aux : I.n); break; }
        case O_SWITCH: {
          const Val c = R(I.a); auto& cs = fn->switches[I.aux]; uint64_t v = c.e ? (uint64_t)evalExpr(c.e, s->model) : c.c; uint32_t e = cs.back().second;
          for (size_t i = 0; i + 1 < cs.size(); i++) if (cs[i].first == v) { e = cs[i].second; break; }
          if (c.e) { nbranch++; uint32_t tgt = fn->edges[e].target; bool dflt = fn->edges[cs.back().second].target == tgt; E cond = mkConst(dflt ? 1 : 0, 1); // one path per successor block, not per value
            for (size_t i = 0; i + 1 < cs.size(); i++) { bool same = fn->edges[cs[i].second].target == tgt; if (same == dflt) continue; E eq = mkEq(c.e, mkConst(cs[i].first, I.w)); cond = dflt ? mkBin(K_AND, cond, mkNot(eq)) : mkBin(K_OR, cond, eq); }
            decide(s, cond); }
          takeEdge(e); break; }
        case O_RET: {
          Val rv[8]; std::vector<Val> big; Val* r = rv; if (I.n > 8) { big.resize(I.n); r = big.data(); }
          for (uint32_t i = 0; i < I.n; i++) r[i] = R(fn->aux[I.aux + i]);
          uint8_t fl = f->flags;
          popFrame(s);
          if (s->th[s->cur].frames.empty()) { if (!threadEnd(s, I.n ? r[0] : CV(0))) { finishPath(s); return; } break; }
          if (!(fl & 1)) { const Inst& ci = F->fn->code[F->pc]; const CallSite& cs = F->fn->calls[ci.aux]; if (ci.dst >= 0) for (uint32_t i = 0; i < cs.retSlots && i < I.n; i++) F->regs[ci.dst + i] = r[i]; }
          if (fl & 2) { F->pc = F->pc; break; } // re-execute the calling builtin
          afterCall(s); break; }
        case O_UNREACHABLE: violation(s, "unreachable", "unreachable code executed", s->model); throw PathEnd{"unreachable"};
        case O_RESUME: { uint64_t o = conc(s, R(I.a)); unwind(s, o, true); break; }
        case O_LANDINGPAD: f->pc++; break;
        case O_RMW: {
          Val p = R(I.a), v = R(I.b); Val old = loadMem(s, p, 0, I.n, I.w); E x = toE(old, I.w), y = toE(v, I.w), r;
          switch (I.sub) { case AtomicRMWInst::Xchg: r = y; break; case AtomicRMWInst::Add: r = mkBin(K_ADD, x, y); break; case AtomicRMWInst::Sub: r = mkBin(K_SUB, x, y); break; case AtomicRMWInst::And: r = mkBin(K_AND, x, y); break; case AtomicRMWInst::Or: r = mkBin(K_OR, x, y); break; case AtomicRMWInst::Xor: r = mkBin(K_XOR, x, y); break;
            case AtomicRMWInst::Max: r = mkIte(mkBin(K_SLT, x, y), y, x); break; case AtomicRMWInst::Min: r = mkIte(mkBin(K_SLT, x, y), x, y); break; case AtomicRMWInst::UMax: r = mkIte(mkBin(K_ULT, x, y), y, x); break; case AtomicRMWInst::UMin: r = mkIte(mkBin(K_ULT, x, y), x, y); break; default: unsupported(s, "atomicrmw"); }
          if (s->mt) raceAcc(s, p, 0, I.n, true, true); storeMem(s, p, 0, I.n, I.w, fromE(r)); if (s->mt) syncRmw(s, p.c, I.flags); f->regs[I.dst] = old; f->pc++; break; }
        case O_CMPXCHG: {
          Val p = R(I.a), cmp = R(I.b), nv = R(I.c); Val old = loadMem(s, p, 0, I.n, I.w); E eq = mkEq(toE(old, I.w), toE(cmp, I.w));
          bool ok = decide(s, eq);
          if (ok) storeMem(s, p, 0, I.n, I.w, nv);
          if (s->mt) { raceAcc(s, p, 0, I.n, ok, true); if (ok) syncRmw(s, p.c, I.flags); else syncLoad(s, p.c, I.flags & 5); }
          f->regs[I.dst] = old; f->regs[I.dst + 1] = CV(ok); f->pc++; break; }
        case O_FENCE: if (s->mt) syncFence(s, I.flags); f->pc++; break;
        case O_INTR: intrinsic(s, I); break;
        default: { std::string t; raw_string_ostream os(t); I.src->print(os); unsupported(s, "instruction " + t); }
      }
    }
  } catch (PathEnd& p) { pathEnds[p.why]++; if (!strcmp(p.why, "time")) incomplete = true; }
}
void Exec::finishPath(State* s) {
  pathsDone++; totalSteps += s->steps & 1023;
  if ((pathsDone & (pathsDone - 1)) == 0 && wits.size() < 12) { // a sample of completed paths, replayed natively to validate the encoding
    Violation v; v.label = "witness"; for (auto& i : s->inputs) v.inputs.push_back({i.name, {i.kind, (uint64_t)evalExpr(i.e, s->model)}}); v.trace = s->trace; std::set<std::string> cs;
    for (E e : s->pc) for (uint32_t x : varsOfExpr(e)) { const std::string& nm = g_vars[x].name; if (nm.rfind("uninit", 0) == 0) v.uninit = true; if (nm.rfind("libm_", 0) == 0) cs.insert(nm.substr(5, nm.find('/') - 5)); } for (auto& c : cs) v.contracts += c + " "; wits.push_back(v);
  }
}
