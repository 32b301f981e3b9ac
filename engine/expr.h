// Expression DAG for the symbolic executor: hash-consed bit-vector terms with IEEE-754 operations on bit patterns.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <functional>
#include <unordered_map>
#include <vector>
#include <cassert>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  K_CONST, K_VAR,
  K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
  K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
  K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FSQRT, K_FREM,
  K_FLT, K_FLE, K_FEQ, K_FUNO,
  K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPCVT, K_FRND, K_FMA,
};

struct FRange { double lo, hi; bool nan; };
struct SRange { i128 lo, hi; };

struct Expr {
  Kind k; uint16_t w; uint8_t nops; bool constIte;
  uint32_t p;           // var id / extract low bit / rounding mode / leaf count
  uint32_t id;
  u128 c;
  const Expr* a[3];
  mutable uint64_t evalGen = 0; mutable u128 evalVal = 0;
  mutable void* zbv = nullptr; mutable void* zbool = nullptr; mutable void* zlit = nullptr; mutable uint32_t zgen = 0;
  mutable uint32_t depGen = 0; uint32_t depth = 0;
  mutable FRange* fr = nullptr; mutable SRange* sr = nullptr;
  bool isConst() const { return k == K_CONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

struct Model { std::vector<u128> v; uint64_t gen; };
extern uint64_t g_modelGen;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a);          // bitwise
E tabulateFn(const std::vector<E>& args, unsigned w, const std::function<u128(const std::vector<u128>&)>& f, unsigned maxBits);
E mkFUn(Kind k, E a, unsigned w, unsigned p = 0);
E mkFma(E a, E b, E c);
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
u128 evalOp(Kind k, unsigned w, uint32_t p, const u128* v, const unsigned* ws);
u128 evalExpr(E e, const Model& m);
bool constIteLeaves(E e, std::vector<std::pair<E, u128>>& out, E cond, size_t limit);
std::string exprStr(E e, int depth = 6);
SRange srange(E e);
FRange frange(E e);
double asD(u128 v); float asF(u128 v); u128 fromD(double d); u128 fromF(float f);
