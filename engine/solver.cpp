// SMT back end: terms are translated to z3 bit-vector terms; IEEE arithmetic nodes get a definition produced by z3's fpa2bv.
#include "solver.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

SolverStats g_sstats;
unsigned long g_solverRlimit = 400000000;
unsigned g_solverTimeout = 0; // milliseconds per query
static Z3_context C = nullptr;
static Z3_solver S = nullptr;
static uint32_t G = 0; // generation of the solver
static size_t g_added = 0;
static std::vector<Z3_ast> g_varAst;
static bool g_z3err = false;

static void onErr(Z3_context c, Z3_error_code e) { g_z3err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void newSolver() {
  if (S) { Z3_solver_dec_ref(C, S); g_sstats.resets++; }
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD"));
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)g_solverRlimit);
  if (g_solverTimeout) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeout);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
  G++; g_added = 0;
}
void solverInit() {
  Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, onErr); newSolver();
}

static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast bvc(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(w));
  return Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(C, (uint64_t)v, bvs(64)));
}
static Z3_ast toBV(E e);
static Z3_ast toBool(E e);
static std::vector<std::pair<E, Z3_ast>> g_pendingDefs;

static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(C) : w == 32 ? Z3_mk_fpa_sort_single(C) : Z3_mk_fpa_sort(C, 15, 64); }
static Z3_ast fpv(E e) { return Z3_mk_fpa_to_fp_bv(C, toBV(e), fps(e->w)); }
static Z3_ast fexp(unsigned w) { return w == 64 ? bvc(0x7ff0000000000000ull, 64) : bvc(0x7f800000u, 32); }
static Z3_ast fmag(Z3_ast x, unsigned w) { return Z3_mk_bvand(C, x, bvc(maskw(w - 1), w)); }
static Z3_ast fnan(Z3_ast x, unsigned w) { return Z3_mk_bvugt(C, fmag(x, w), fexp(w)); }
static Z3_ast mk2(Z3_ast (*f)(Z3_context, unsigned, Z3_ast const*), Z3_ast a, Z3_ast b) { Z3_ast v[2] = {a, b}; return f(C, 2, v); }
static Z3_ast Or(Z3_ast a, Z3_ast b) { return mk2(Z3_mk_or, a, b); }
static Z3_ast And(Z3_ast a, Z3_ast b) { return mk2(Z3_mk_and, a, b); }
static Z3_ast Not(Z3_ast a) { return Z3_mk_not(C, a); }

// Pure bit-vector definition of an IEEE operation, kept per node.
struct FpDef { std::vector<Z3_ast> asserts; uint32_t gen = 0; };
static std::unordered_map<E, FpDef> g_fpdefs;

static Z3_ast fpResult(E e) { // fresh bit-vector constant for node e, definition recorded
  std::string nm = "fp!" + std::to_string(e->id);
  Z3_ast r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bvs(e->w));
  Z3_ast rm = Z3_mk_fpa_rne(C), t = nullptr;
  const bool fpOut = true;
  switch (e->k) {
    case K_FADD: t = Z3_mk_fpa_add(C, rm, fpv(e->a[0]), fpv(e->a[1])); break;
    case K_FSUB: t = Z3_mk_fpa_sub(C, rm, fpv(e->a[0]), fpv(e->a[1])); break;
    case K_FMUL: t = Z3_mk_fpa_mul(C, rm, fpv(e->a[0]), fpv(e->a[1])); break;
    case K_FDIV: t = Z3_mk_fpa_div(C, rm, fpv(e->a[0]), fpv(e->a[1])); break;
    case K_FSQRT: t = Z3_mk_fpa_sqrt(C, rm, fpv(e->a[0])); break;
    case K_FMA: t = Z3_mk_fpa_fma(C, rm, fpv(e->a[0]), fpv(e->a[1]), fpv(e->a[2])); break;
    case K_FRND: t = Z3_mk_fpa_round_to_integral(C, e->p == 0 ? Z3_mk_fpa_rtn(C) : e->p == 1 ? Z3_mk_fpa_rtp(C) : e->p == 2 ? Z3_mk_fpa_rtz(C) : e->p == 3 ? Z3_mk_fpa_rna(C) : rm, fpv(e->a[0])); break;
    case K_SITOFP: t = Z3_mk_fpa_to_fp_signed(C, rm, toBV(e->a[0]), fps(e->w)); break;
    case K_UITOFP: t = Z3_mk_fpa_to_fp_unsigned(C, rm, toBV(e->a[0]), fps(e->w)); break;
    case K_FPCVT: t = Z3_mk_fpa_to_fp_float(C, rm, fpv(e->a[0]), fps(e->w)); break;
    default: fprintf(stderr, "unsupported fp op in solver: %d\n", e->k); abort();
  }
  Z3_ast def;
  if (fpOut) {
    // r is the bit pattern of t: constrain through to_fp(r) == t, NaN canonical
    Z3_ast isn = Z3_mk_fpa_is_nan(C, t);
    u128 cn = e->w == 64 ? (u128)0x7ff8000000000000ull : (u128)0x7fc00000u;
    Z3_ast rf = Z3_mk_fpa_to_fp_bv(C, r, fps(e->w));
    def = Z3_mk_ite(C, isn, Z3_mk_eq(C, r, bvc(cn, e->w)), Z3_mk_eq(C, rf, t));
  } else def = Z3_mk_eq(C, r, t);
  Z3_goal g = Z3_mk_goal(C, false, false, false); Z3_goal_inc_ref(C, g); Z3_goal_assert(C, g, def);
  static Z3_tactic tac = nullptr;
  if (!tac) { Z3_tactic a = Z3_mk_tactic(C, "simplify"); Z3_tactic_inc_ref(C, a); Z3_tactic b = Z3_mk_tactic(C, "fpa2bv"); Z3_tactic_inc_ref(C, b); Z3_tactic ab = Z3_tactic_and_then(C, a, b); Z3_tactic_inc_ref(C, ab); tac = Z3_tactic_and_then(C, ab, a); Z3_tactic_inc_ref(C, tac); }
  Z3_apply_result ar = Z3_tactic_apply(C, tac, g); Z3_apply_result_inc_ref(C, ar);
  FpDef& d = g_fpdefs[e];
  for (unsigned i = 0; i < Z3_apply_result_get_num_subgoals(C, ar); i++) { Z3_goal sg = Z3_apply_result_get_subgoal(C, ar, i); for (unsigned j = 0; j < Z3_goal_size(C, sg); j++) { Z3_ast f = Z3_goal_formula(C, sg, j); Z3_inc_ref(C, f); d.asserts.push_back(f); } }
  g_sstats.fpdefs++;
  return r;
}

static Z3_ast boolToBV(Z3_ast b) { return Z3_mk_ite(C, b, bvc(1, 1), bvc(0, 1)); }

static Z3_ast fpToInt(E e) { // same definition as in the evaluator
  unsigned sw = e->a[0]->w, w = e->w; bool sgn = e->k == K_FPTOSI; unsigned mb = sw == 64 ? 52 : sw == 32 ? 23 : 63, bias = sw == 64 ? 1023 : sw == 32 ? 127 : 16383, eb = sw == 80 ? 64 : mb, W = 80;
  Z3_ast a = toBV(e->a[0]), m = Z3_mk_zero_ext(C, W - eb, Z3_mk_extract(C, eb - 1, 0, a)); if (sw != 80) m = Z3_mk_bvor(C, m, bvc((u128)1 << mb, W));
  Z3_ast ex = Z3_mk_zero_ext(C, W - (sw - 1 - eb), Z3_mk_extract(C, sw - 2, eb, a)), neg = Z3_mk_eq(C, Z3_mk_extract(C, sw - 1, sw - 1, a), bvc(1, 1)), mid = bvc(bias + mb, W);
  Z3_ast mag = Z3_mk_ite(C, Z3_mk_bvuge(C, ex, mid), Z3_mk_bvshl(C, m, Z3_mk_bvsub(C, ex, mid)), Z3_mk_bvlshr(C, m, Z3_mk_bvsub(C, mid, ex)));
  Z3_ast r = Z3_mk_extract(C, w - 1, 0, Z3_mk_ite(C, neg, Z3_mk_bvneg(C, mag), mag));
  r = Z3_mk_ite(C, Z3_mk_bvult(C, ex, bvc(bias, W)), bvc(0, w), r);
  return Z3_mk_ite(C, Z3_mk_bvuge(C, ex, bvc(bias + w - (sgn ? 1 : 0), W)), bvc((u128)1 << (w - 1), w), r);
}

static Z3_ast toBV(E e) {
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r = nullptr;
  auto A = [&](int i) { return toBV(e->a[i]); };
  switch (e->k) {
    case K_CONST: r = bvc(e->c, e->w); break;
    case K_VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string(e->p)).c_str()), bvs(e->w)); break;
    case K_ADD: r = Z3_mk_bvadd(C, A(0), A(1)); break;
    case K_SUB: r = Z3_mk_bvsub(C, A(0), A(1)); break;
    case K_MUL: r = Z3_mk_bvmul(C, A(0), A(1)); break;
    case K_UDIV: r = Z3_mk_bvudiv(C, A(0), A(1)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
    case K_UREM: r = Z3_mk_bvurem(C, A(0), A(1)); break;
    case K_SREM: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
    case K_AND: r = e->w == 1 ? boolToBV(toBool(e)) : Z3_mk_bvand(C, A(0), A(1)); break;
    case K_OR: r = e->w == 1 ? boolToBV(toBool(e)) : Z3_mk_bvor(C, A(0), A(1)); break;
    case K_XOR: r = e->w == 1 ? boolToBV(toBool(e)) : Z3_mk_bvxor(C, A(0), A(1)); break;
    case K_SHL: r = Z3_mk_bvshl(C, A(0), A(1)); break;
    case K_LSHR: r = Z3_mk_bvlshr(C, A(0), A(1)); break;
    case K_ASHR: r = Z3_mk_bvashr(C, A(0), A(1)); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_FLT: case K_FLE: case K_FEQ: case K_FUNO: r = boolToBV(toBool(e)); break;
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a[0]), A(1), A(2)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a[0]->w, A(0)); break;
    case K_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a[0]->w, A(0)); break;
    case K_EXTRACT: r = Z3_mk_extract(C, e->p + e->w - 1, e->p, A(0)); break;
    case K_CONCAT: r = Z3_mk_concat(C, A(0), A(1)); break;
    case K_FPTOSI: case K_FPTOUI: r = fpToInt(e); break;
    default: r = fpResult(e); break;
  }
  Z3_inc_ref(C, r);
  e->zbv = r; return r;
}
static Z3_ast fltz(Z3_ast a, Z3_ast b, unsigned w, bool le) {
  Z3_ast sa = Z3_mk_eq(C, Z3_mk_extract(C, w - 1, w - 1, a), bvc(1, 1)), sb = Z3_mk_eq(C, Z3_mk_extract(C, w - 1, w - 1, b), bvc(1, 1));
  Z3_ast bz = And(Z3_mk_eq(C, fmag(a, w), bvc(0, w)), Z3_mk_eq(C, fmag(b, w), bvc(0, w)));
  Z3_ast pos = le ? Z3_mk_bvule(C, a, b) : Z3_mk_bvult(C, a, b);
  Z3_ast neg = le ? Z3_mk_bvule(C, b, a) : Z3_mk_bvult(C, b, a);
  Z3_ast lt = Z3_mk_ite(C, sa, Z3_mk_ite(C, sb, neg, le ? Z3_mk_true(C) : Not(bz)), Z3_mk_ite(C, sb, le ? bz : Z3_mk_false(C), pos));
  return lt;
}
static Z3_ast toBool(E e) {
  assert(e->w == 1);
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  auto A = [&](int i) { return toBV(e->a[i]); };
  switch (e->k) {
    case K_CONST: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K_AND: r = And(toBool(e->a[0]), toBool(e->a[1])); break;
    case K_OR: r = Or(toBool(e->a[0]), toBool(e->a[1])); break;
    case K_XOR: r = e->a[1]->isConst() ? Not(toBool(e->a[0])) : Z3_mk_xor(C, toBool(e->a[0]), toBool(e->a[1])); break;
    case K_ITE: r = Z3_mk_ite(C, toBool(e->a[0]), toBool(e->a[1]), toBool(e->a[2])); break;
    case K_EQ: r = e->a[0]->w == 1 ? Z3_mk_iff(C, toBool(e->a[0]), toBool(e->a[1])) : Z3_mk_eq(C, A(0), A(1)); break;
    case K_ULT: r = Z3_mk_bvult(C, A(0), A(1)); break;
    case K_ULE: r = Z3_mk_bvule(C, A(0), A(1)); break;
    case K_SLT: r = Z3_mk_bvslt(C, A(0), A(1)); break;
    case K_SLE: r = Z3_mk_bvsle(C, A(0), A(1)); break;
    case K_FLT: case K_FLE: {
      unsigned w = e->a[0]->w; Z3_ast a = A(0), b = A(1);
      r = fltz(a, b, w, e->k == K_FLE);
      if (!(w == 64 && !frange(e->a[0]).nan)) r = And(r, Not(fnan(a, w)));
      if (!(w == 64 && !frange(e->a[1]).nan)) r = And(r, Not(fnan(b, w)));
      break; }
    case K_FEQ: {
      unsigned w = e->a[0]->w; Z3_ast a = A(0), b = A(1);
      Z3_ast bz = And(Z3_mk_eq(C, fmag(a, w), bvc(0, w)), Z3_mk_eq(C, fmag(b, w), bvc(0, w)));
      r = Or(bz, Z3_mk_eq(C, a, b));
      if (!(w == 64 && !frange(e->a[0]).nan)) r = And(r, Not(fnan(a, w)));
      break; }
    case K_FUNO: { unsigned w = e->a[0]->w; r = Or(fnan(A(0), w), fnan(A(1), w)); break; }
    default: r = Z3_mk_eq(C, toBV(e), bvc(1, 1)); break;
  }
  Z3_inc_ref(C, r);
  e->zbool = r; return r;
}

static void addAssert(Z3_ast a) { Z3_solver_assert(C, S, a); g_added++; }
// make sure the definitions of all fp nodes below e are present in the current solver
static void ensureDefs(E e) {
  if (e->depGen == G) return;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back(); st.pop_back();
    if (x->depGen == G) continue; x->depGen = G; g_added++;
    if (x->k >= K_FADD && x->k != K_FLT && x->k != K_FLE && x->k != K_FEQ && x->k != K_FUNO) {
      toBV(x); auto it = g_fpdefs.find(x); if (it != g_fpdefs.end()) for (Z3_ast f : it->second.asserts) { addAssert(f); g_added += 500; }
    }
    for (int i = 0; i < x->nops; i++) st.push_back(x->a[i]);
  }
}
static Z3_ast litFor(E e) {
  if (e->zgen == G) return (Z3_ast)e->zlit;
  Z3_ast b = toBool(e);
  ensureDefs(e);
  Z3_ast l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C));
  Z3_inc_ref(C, l);
  addAssert(Z3_mk_iff(C, l, b));
  e->zlit = l; e->zgen = G; return l;
}

Res solverCheck(const std::vector<E>& pc, E extra, Model* m) {
  if (extra && extra->isConst() && !extra->c) return UNSAT;
  auto t0 = std::chrono::steady_clock::now();
  static size_t limit = getenv("SYMEX_RESET") ? atol(getenv("SYMEX_RESET")) : 60000;
  if (g_added > limit) newSolver();
  std::vector<Z3_ast> lits;
  for (E e : pc) if (!e->isConst()) lits.push_back(litFor(e));
  if (extra && !extra->isConst()) lits.push_back(litFor(extra));
  g_z3err = false;
  static const char* trace = getenv("SYMEX_TRACE"); if (trace) fprintf(stderr, "query %s\n", extra ? exprStr(extra, 14).c_str() : "-");
  Z3_lbool r = Z3_solver_check_assumptions(C, S, lits.size(), lits.data());
  g_sstats.queries++;
  Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
  if (g_z3err) res = UNKNOWN;
  if (res == SAT && m) {
    Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
    m->v.assign(g_vars.size(), 0); m->gen = ++g_modelGen;
    // read every variable constant present in the model
    unsigned n = Z3_model_get_num_consts(C, zm);
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(C, zm, i);
      Z3_string nm = Z3_get_symbol_string(C, Z3_get_decl_name(C, d));
      if (nm[0] != 'v') continue; char* end; unsigned long id = strtoul(nm + 1, &end, 10); if (*end || id >= g_vars.size()) continue;
      Z3_ast val = Z3_model_get_const_interp(C, zm, d); if (!val) continue;
      unsigned w = g_vars[id].w; u128 v = 0;
      if (w <= 64) { uint64_t x = 0; if (Z3_get_numeral_uint64(C, val, &x)) v = x; }
      else { const char* s = Z3_get_numeral_string(C, val); for (; *s; s++) v = v * 10 + (*s - '0'); }
      m->v[id] = v;
    }
    Z3_model_dec_ref(C, zm);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static const char* slow = getenv("SYMEX_SLOW"); if (slow && dt > atof(slow)) { fprintf(stderr, "slow query %.2f s result %d: %s\n", dt, (int)res, extra ? exprStr(extra, 14).c_str() : "-"); for (E e : pc) fprintf(stderr, "    pc %s\n", exprStr(e, 14).c_str()); }
  g_sstats.time += dt; g_sstats.maxq = std::max(g_sstats.maxq, dt);
  (res == SAT ? g_sstats.sat : res == UNSAT ? g_sstats.unsat : g_sstats.unknown)++;
  if (res == SAT && m) {
    // the evaluator must agree with the solver: every constraint true under the model
    bool ok = true; E bad = nullptr;
    for (E e : pc) if (!evalExpr(e, *m)) { ok = false; bad = e; break; }
    if (ok && extra && !evalExpr(extra, *m)) { ok = false; bad = extra; }
    if (!ok) { fprintf(stderr, "symex: solver model disagrees with evaluator on %s\n", exprStr(bad).c_str()); g_sstats.unknown++; return UNKNOWN; }
  }
  return res;
}
