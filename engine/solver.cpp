#include <math.h>
#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <sys/time.h>
#include <time.h>
#include <string>
#include <unordered_set>

SolverStats g_ss;
double g_query_timeout = 120;
static Z3_context C;
static Z3_solver cur_solver;
static Z3_sort fps32, fps64;
static Z3_ast RNE, RTZ, RTN, RTP, RNA;
static volatile int timed_out;
static void on_alarm(int) { timed_out = 1; if (cur_solver) Z3_solver_interrupt(C, cur_solver); Z3_interrupt(C); }
static void on_err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

void solver_init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg);    // reference-counted asts are kept for the process lifetime
  Z3_set_error_handler(C, on_err);
  fps32 = Z3_mk_fpa_sort_32(C); fps64 = Z3_mk_fpa_sort_64(C);
  RNE = Z3_mk_fpa_rne(C); RTZ = Z3_mk_fpa_rtz(C); RTN = Z3_mk_fpa_rtn(C); RTP = Z3_mk_fpa_rtp(C); RNA = Z3_mk_fpa_rna(C);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGPROF, &sa, nullptr);
}

static Z3_ast num(u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, (u64)v, s);
  Z3_ast lo = Z3_mk_unsigned_int64(C, (u64)v, Z3_mk_bv_sort(C, 64));
  Z3_ast hi = Z3_mk_unsigned_int64(C, (u64)(v >> 64), Z3_mk_bv_sort(C, w - 64));
  return Z3_simplify(C, Z3_mk_concat(C, hi, lo));
}
static Z3_ast tr(Expr *e);    // Bool for width 1, BV otherwise
static Z3_ast fp(Expr *e);    // FP view of a 32/64-bit expression
static Z3_ast bvv(Expr *e) { Z3_ast a = tr(e); if (e->w == 1) return Z3_mk_ite(C, a, num(1, 1), num(0, 1)); return a; }
static Z3_sort fsort(unsigned w) { return w == 32 ? fps32 : fps64; }
static bool is_fpop(Op o) { switch (o) { case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FSqrt: case Op::FRound: case Op::FMA: case Op::FCvt: case Op::SIToF: case Op::UIToF: return true; default: return false; } }
static Z3_ast fpnum(double d, unsigned w) { return w == 32 ? Z3_mk_fpa_numeral_float(C, (float)d, fps32) : Z3_mk_fpa_numeral_double(C, d, fps64); }
static Z3_ast rm(u8 aux) { switch (aux) { case 0: return RNE; case 1: return RTN; case 2: return RTP; case 4: return RNA; default: return RTZ; } }
static Z3_ast negated(Z3_ast a) { if (Z3_get_ast_kind(C, a) != Z3_APP_AST) return nullptr; Z3_app p = Z3_to_app(C, a); return Z3_get_decl_kind(C, Z3_get_app_decl(C, p)) == Z3_OP_FPA_NEG ? Z3_get_app_arg(C, p, 0) : nullptr; }
static Z3_ast fneg(Z3_ast a) { Z3_ast t = negated(a); return t ? t : Z3_mk_fpa_neg(C, a); }
static Z3_ast fadd(Z3_ast R, Z3_ast x, Z3_ast y) { if (Z3_get_ast_id(C, x) > Z3_get_ast_id(C, y)) std::swap(x, y); return Z3_mk_fpa_add(C, R, x, y); }
static Z3_ast fpop(Op op, u8 aux, unsigned w, Expr *a, Expr *b, Expr *c, Z3_ast R) {
  switch (op) {
  // Operands of commutative operations in one order, a - b as a + (-b), signs of factors outside the product: the same formula written otherwise is the same term.
  case Op::FAdd: return fadd(R, fp(a), fp(b)); case Op::FSub: return fadd(R, fp(a), fneg(fp(b)));
  case Op::FMul: case Op::FDiv: {
    Z3_ast x = fp(a), y = fp(b), t; bool neg = false, sym = R == RNE || R == RTZ; if (sym && (t = negated(x))) { x = t; neg = !neg; } if (sym && (t = negated(y))) { y = t; neg = !neg; }
    if (op == Op::FMul && Z3_get_ast_id(C, x) > Z3_get_ast_id(C, y)) std::swap(x, y);
    Z3_ast r = op == Op::FMul ? Z3_mk_fpa_mul(C, R, x, y) : Z3_mk_fpa_div(C, R, x, y); return neg ? fneg(r) : r; }
  case Op::FSqrt: return Z3_mk_fpa_sqrt(C, R, fp(a));
  case Op::FMA: return Z3_mk_fpa_fma(C, R, fp(a), fp(b), fp(c));
  case Op::FRound: return Z3_mk_fpa_round_to_integral(C, rm(aux), fp(a));
  case Op::FCvt: return Z3_mk_fpa_to_fp_float(C, R, fp(a), fsort(w));
  case Op::SIToF: return Z3_mk_fpa_to_fp_signed(C, R, bvv(a), fsort(w));
  case Op::UIToF: return Z3_mk_fpa_to_fp_unsigned(C, R, bvv(a), fsort(w));
  default: return nullptr;
  }
}
static bool unsupported;
static Z3_ast fp(Expr *e) {
  if (e->zf) return (Z3_ast)e->zf;
  Z3_ast r;
  if (is_fpop(e->op) && e->op != Op::FRem) r = fpop(e->op, e->aux, e->w, e->k[0], e->k[1], e->k[2], RNE);
  else if (e->op == Op::FRem) {
    // C fmod: not expressible directly (fp.rem is the IEEE remainder)
    unsupported = true; r = fpnum(0, e->w);
  }
  else if (e->op == Op::Ite) r = Z3_mk_ite(C, tr(e->k[0]), fp(e->k[1]), fp(e->k[2]));
  else if (e->op == Op::Xor && isc(e->k[1]) && cval(e->k[1]) == (u128)1 << (e->w - 1)) r = fneg(fp(e->k[0]));
  else if (e->op == Op::Xor && isc(e->k[0]) && cval(e->k[0]) == (u128)1 << (e->w - 1)) r = fneg(fp(e->k[1]));
  else r = Z3_mk_fpa_to_fp_bv(C, tr(e), fsort(e->w));
  Z3_inc_ref(C, r); e->zf = r; return r;
}
static Z3_ast nanbits(Expr *e) {
  unsigned w = e->w;
  Z3_ast dflt = w == 32 ? num(0xFFC00000u, 32) : num(0xFFF8000000000000ull, 64);
  Z3_ast q = w == 32 ? num(0x400000u, 32) : num(0x8000000000000ull, 64);
  if (e->op == Op::SIToF || e->op == Op::UIToF) return dflt;
  if (e->op == Op::FCvt) {
    Z3_ast a = bvv(e->k[0]);
    if (w == 64) return Z3_mk_concat(C, Z3_mk_concat(C, Z3_mk_extract(C, 31, 31, a), num(0xFFF, 12)), Z3_mk_concat(C, Z3_mk_extract(C, 21, 0, a), num(0, 29)));
    return Z3_mk_concat(C, Z3_mk_extract(C, 63, 63, a), Z3_mk_concat(C, num(0x1FF, 9), Z3_mk_extract(C, 50, 29, a)));
  }
  Z3_ast r = dflt;
  for (int i = 2; i >= 0; i--) if (e->k[i]) r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, fp(e->k[i])), Z3_mk_bvor(C, bvv(e->k[i]), q), r);
  return r;
}
static Z3_ast inrange(Expr *x, Z3_ast f, double lo, bool lo_strict, double hi) {
  Z3_ast l = lo_strict ? Z3_mk_fpa_gt(C, f, fpnum(lo, x->w)) : Z3_mk_fpa_geq(C, f, fpnum(lo, x->w));
  Z3_ast a[2] = {l, Z3_mk_fpa_lt(C, f, fpnum(hi, x->w))};
  return Z3_mk_and(C, 2, a);
}
static Z3_ast cvt(Expr *x, Z3_ast f, unsigned w) { // cvtt to w in {32,64}
  Z3_ast ok;
  if (w == 32) ok = x->w == 64 ? inrange(x, f, -2147483649.0, true, 2147483648.0) : inrange(x, f, -2147483648.0, false, 2147483648.0);
  else ok = inrange(x, f, -9223372036854775808.0, false, 9223372036854775808.0);
  return Z3_mk_ite(C, ok, Z3_mk_fpa_to_sbv(C, RTZ, f, w), num((u128)1 << (w - 1), w));
}
static Z3_ast lowbits(Z3_ast a, unsigned from, unsigned to) { return from == to ? a : Z3_mk_extract(C, to - 1, 0, a); }
static Z3_ast isfinite(Z3_ast f) { Z3_ast a[2] = {Z3_mk_not(C, Z3_mk_fpa_is_nan(C, f)), Z3_mk_not(C, Z3_mk_fpa_is_infinite(C, f))}; return Z3_mk_and(C, 2, a); }
static Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(C, 2, x); }
static Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_or(C, 2, x); }

static Z3_ast tr_flag(Expr *e) {
  Op in = (Op)e->aux; Expr *a = e->k[0], *b = e->k[1];
  bool fromint = in == Op::SIToF || in == Op::UIToF, toint = in == Op::FToSI || in == Op::FToUI;
  unsigned w = fromint || in == Op::FCvt || toint ? (unsigned)e->clo : a->w;
  if (toint) {
    Z3_ast f = fp(a), t = Z3_mk_fpa_round_to_integral(C, RTZ, f), ok;
    if ((in == Op::FToSI && w <= 32) || w < 32) ok = inrange(a, t, -2147483648.0, false, 2147483648.0);
    else if (in == Op::FToSI || w == 32) ok = inrange(a, f, -9223372036854775808.0, false, 9223372036854775808.0);
    else ok = inrange(a, f, -1.0, true, 18446744073709551616.0);
    if (e->op == Op::FlagInvalid) return Z3_mk_not(C, ok);
    if (e->op == Op::FlagInexact) return and2(ok, Z3_mk_not(C, Z3_mk_fpa_eq(C, t, f)));
    return Z3_mk_false(C);
  }
  Z3_ast fin = fromint ? Z3_mk_true(C) : isfinite(fp(a));
  if (b) fin = and2(fin, isfinite(fp(b)));
  if (e->op == Op::FlagOverflow || e->op == Op::FlagInexact) {
    if (in == Op::FDiv) fin = and2(fin, Z3_mk_not(C, Z3_mk_fpa_is_zero(C, fp(b))));
    if (e->op == Op::FlagOverflow) return and2(fin, Z3_mk_fpa_is_infinite(C, fpop(in, 0, w, a, b, nullptr, RNE)));
    Z3_ast lo = fpop(in, 0, w, a, b, nullptr, RTN), hi = fpop(in, 0, w, a, b, nullptr, RTP);
    return and2(fin, Z3_mk_not(C, Z3_mk_fpa_eq(C, lo, hi)));
  }
  if (e->op == Op::FlagInvalid) {
    if (fromint) return Z3_mk_false(C);
    auto snan = [&](Expr *x) { unsigned qb = x->w == 32 ? 22 : 51; return and2(Z3_mk_fpa_is_nan(C, fp(x)), Z3_mk_eq(C, Z3_mk_extract(C, qb, qb, tr(x)), num(0, 1))); };
    Z3_ast r = snan(a); Z3_ast nn = Z3_mk_not(C, Z3_mk_fpa_is_nan(C, fp(a)));
    if (b) { r = or2(r, snan(b)); nn = and2(nn, Z3_mk_not(C, Z3_mk_fpa_is_nan(C, fp(b)))); }
    return or2(r, and2(nn, Z3_mk_fpa_is_nan(C, fpop(in, 0, w, a, b, nullptr, RNE))));
  }
  if (e->op == Op::FlagDivZero) { if (in != Op::FDiv) return Z3_mk_false(C); return and2(and2(isfinite(fp(a)), Z3_mk_not(C, Z3_mk_fpa_is_zero(C, fp(a)))), Z3_mk_fpa_is_zero(C, fp(b))); }
  unsupported = true; return Z3_mk_false(C);
}

static Z3_ast tr(Expr *e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr; Expr *a = e->k[0], *b = e->k[1], *c = e->k[2]; unsigned w = e->w; bool B = w == 1;
  auto b2v = [&](Z3_ast x) { return B ? Z3_mk_eq(C, x, num(1, 1)) : x; };   // BV1 -> Bool
  switch (e->op) {
  case Op::Const: r = B ? (e->clo ? Z3_mk_true(C) : Z3_mk_false(C)) : num(cval(e), w); break;
  case Op::Var: { char n[32]; snprintf(n, 32, "v%u", (unsigned)e->clo); Z3_symbol s = Z3_mk_string_symbol(C, n); r = B ? Z3_mk_const(C, s, Z3_mk_bool_sort(C)) : Z3_mk_const(C, s, Z3_mk_bv_sort(C, w)); break; }
  case Op::Extract: r = b2v(Z3_mk_extract(C, e->clo + w - 1, e->clo, bvv(a))); break;
  case Op::Concat: r = Z3_mk_concat(C, bvv(a), bvv(b)); break;
  case Op::ZExt: r = Z3_mk_zero_ext(C, w - a->w, bvv(a)); break;
  case Op::SExt: r = Z3_mk_sign_ext(C, w - a->w, bvv(a)); break;
  case Op::Add: r = b2v(Z3_mk_bvadd(C, bvv(a), bvv(b))); break;
  case Op::Sub: r = b2v(Z3_mk_bvsub(C, bvv(a), bvv(b))); break;
  case Op::Mul: r = b2v(Z3_mk_bvmul(C, bvv(a), bvv(b))); break;
  case Op::UDiv: r = b2v(Z3_mk_bvudiv(C, bvv(a), bvv(b))); break;
  case Op::SDiv: r = b2v(Z3_mk_bvsdiv(C, bvv(a), bvv(b))); break;
  case Op::URem: r = b2v(Z3_mk_bvurem(C, bvv(a), bvv(b))); break;
  case Op::SRem: r = b2v(Z3_mk_bvsrem(C, bvv(a), bvv(b))); break;
  case Op::And: r = B ? and2(tr(a), tr(b)) : Z3_mk_bvand(C, tr(a), tr(b)); break;
  case Op::Or: r = B ? or2(tr(a), tr(b)) : Z3_mk_bvor(C, tr(a), tr(b)); break;
  case Op::Xor: r = B ? (isc(b) && b->clo ? Z3_mk_not(C, tr(a)) : Z3_mk_xor(C, tr(a), tr(b))) : Z3_mk_bvxor(C, tr(a), tr(b)); break;
  case Op::Shl: r = b2v(Z3_mk_bvshl(C, bvv(a), bvv(b))); break;
  case Op::LShr: r = b2v(Z3_mk_bvlshr(C, bvv(a), bvv(b))); break;
  case Op::AShr: r = b2v(Z3_mk_bvashr(C, bvv(a), bvv(b))); break;
  case Op::Eq: r = a->w == 1 ? Z3_mk_iff(C, tr(a), tr(b)) : Z3_mk_eq(C, tr(a), tr(b)); break;
  case Op::Ult: r = Z3_mk_bvult(C, bvv(a), bvv(b)); break;
  case Op::Ule: r = Z3_mk_bvule(C, bvv(a), bvv(b)); break;
  case Op::Slt: r = Z3_mk_bvslt(C, bvv(a), bvv(b)); break;
  case Op::Sle: r = Z3_mk_bvsle(C, bvv(a), bvv(b)); break;
  case Op::Ite: r = Z3_mk_ite(C, tr(a), tr(b), tr(c)); break;
  case Op::FEq: r = Z3_mk_fpa_eq(C, fp(a), fp(b)); break;
  case Op::FLt: r = Z3_mk_fpa_lt(C, fp(a), fp(b)); break;
  case Op::FLe: r = Z3_mk_fpa_leq(C, fp(a), fp(b)); break;
  case Op::FUno: r = or2(Z3_mk_fpa_is_nan(C, fp(a)), Z3_mk_fpa_is_nan(C, fp(b))); break;
  case Op::FToSI: r = w <= 32 ? b2v(lowbits(cvt(a, fp(a), 32), 32, w)) : w <= 64 ? lowbits(cvt(a, fp(a), 64), 64, w) : (unsupported = true, num(0, w)); break;
  case Op::FToUI:
    if (w < 32) r = b2v(lowbits(cvt(a, fp(a), 32), 32, w));
    else if (w == 32) r = lowbits(cvt(a, fp(a), 64), 64, 32);
    else if (w <= 64) {
      Z3_ast x = cvt(a, fp(a), 64), f2 = Z3_mk_fpa_sub(C, RNE, fp(a), fpnum(9223372036854775808.0, a->w)), y = cvt(a, f2, 64);
      r = lowbits(Z3_mk_bvor(C, x, Z3_mk_bvand(C, y, Z3_mk_bvashr(C, x, num(63, 64)))), 64, w);
    } else { unsupported = true; r = num(0, w); }
    break;
  case Op::FlagOverflow: case Op::FlagInvalid: case Op::FlagInexact: case Op::FlagDivZero: case Op::FlagUnderflow: r = tr_flag(e); break;
  default:
    if (is_fpop(e->op)) { Z3_ast f = fp(e); r = Z3_mk_ite(C, Z3_mk_fpa_is_nan(C, f), nanbits(e), Z3_mk_fpa_to_ieee_bv(C, f)); break; }
    fprintf(stderr, "solver: op %d\n", (int)e->op); abort();
  }
  Z3_inc_ref(C, r); e->z = r; return r;
}

static std::unordered_map<u32, char> fpcache;
bool expr_has_fp(Expr *e) {
  if (e->op >= Op::FAdd) return true;
  if (!e->k[0]) return false;
  auto it = fpcache.find(e->id); if (it != fpcache.end()) return it->second;
  bool r = false; for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = expr_has_fp(e->k[i]);
  fpcache[e->id] = r; return r;
}
static u64 now_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

static void model_out(Z3_model m, const VarSet *vs, ModelDelta &out);
// Incremental bit-vector solving: every constraint is asserted once behind a literal, a query assumes the literals of its constraints.
static bool inc_check(const std::vector<Expr *> &cs, const VarSet *vs, ModelDelta &out, Res &r) {
  static Z3_solver S; static std::unordered_map<u32, Z3_ast> lit;
  if (S && lit.size() > 600) { Z3_solver_dec_ref(C, S); S = nullptr; lit.clear(); }
  if (!S) { S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S); Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_solver_set_params(C, S, p); }
  std::vector<Z3_ast> as;
  for (Expr *e : cs) {
    auto it = lit.find(e->id);
    if (it == lit.end()) {
      Z3_ast l = Z3_mk_fresh_const(C, "p", Z3_mk_bool_sort(C)); Z3_inc_ref(C, l); Z3_solver_assert(C, S, Z3_mk_implies(C, l, tr(e))); it = lit.emplace(e->id, l).first;
    }
    as.push_back(it->second);
  }
  if (unsupported) { unsupported = false; return false; }
  timed_out = 0; cur_solver = S; itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_usec = 500000; setitimer(ITIMER_PROF, &it, nullptr);
  Z3_lbool l = Z3_solver_check_assumptions(C, S, as.size(), as.data());
  memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr); cur_solver = nullptr;
  if (l == Z3_L_UNDEF || timed_out) { Z3_solver_dec_ref(C, S); S = nullptr; lit.clear(); if (l == Z3_L_UNDEF) return false; }
  r = l == Z3_L_TRUE ? R_SAT : R_UNSAT;
  if (r == R_SAT && S) { Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m); model_out(m, vs, out); Z3_model_dec_ref(C, m); }
  else if (r == R_SAT) return false;
  return true;
}
// Looks for a model by evaluation: special and small values, and variations of the current model. Only ever answers "satisfiable".
static bool guess(const std::vector<Expr *> &cs, const VarSet *vs, ModelDelta &out, unsigned tries) {
  static u64 st = 0x9e3779b97f4a7c15ull; auto rnd = [&] { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; };
  static const double sp[] = {0, -0.0, 1, -1, 2, 3, 0.5, 1.5, -2, 4, 10, 1e300 * 1e300, -1e300 * 1e300, NAN, 3.4e38, 1.7e308, 1e-310, 1e-40, 0.1, 7};
  std::vector<u128> old; for (u32 v : vs->v) old.push_back(g_model[v]);
  bool ok = false;
  for (unsigned t = 0; t < tries && !ok; t++) {
    bool fresh = t & 1; unsigned k = (unsigned)(rnd() % 3) + 1;
    for (size_t i = 0; i < vs->v.size(); i++) g_model[vs->v[i]] = old[i];
    for (size_t i = 0; i < (fresh ? vs->v.size() : k); i++) {
      u32 v = vs->v[fresh ? i : rnd() % vs->v.size()]; unsigned w = g_vars[v].w; u128 x = rnd();
      unsigned c = (unsigned)(rnd() % 8); double d = c < 3 ? sp[rnd() % (sizeof sp / sizeof *sp)] : (double)(i64)(rnd() % 9) - 4;
      if (c < 6 && w == 64) { u64 b; memcpy(&b, &d, 8); x = b; } else if (c < 6 && w == 32) { float f = (float)d; u32 b; memcpy(&b, &f, 4); x = b; } else if (c < 7) x = (u128)(i128)((i64)(x % 9) - 4); else if (w > 64) x |= (u128)rnd() << 64;
      g_model[v] = x & mask128(w);
    }
    g_epoch++; ok = true; for (Expr *e : cs) if (!eval(e)) { ok = false; break; }
  }
  if (ok) { out.clear(); for (u32 v : vs->v) out.push_back({v, g_model[v]}); }
  for (size_t i = 0; i < vs->v.size(); i++) g_model[vs->v[i]] = old[i];
  g_epoch++; return ok;
}
Res solver_check(const std::vector<Expr *> &cs, ModelDelta &out) {
  u64 t0 = now_ns(); g_ss.queries++;
  bool hasfp = false; unsupported = false;
  const VarSet *vs = nullptr;
  for (Expr *e : cs) { hasfp |= expr_has_fp(e); vs = vs ? vs_union(vs, e->vs) : e->vs; }
  if (hasfp) g_ss.fp++;
  static Z3_symbol s_bv, s_fp; if (!s_bv) { s_bv = Z3_mk_string_symbol(C, "QF_BV"); s_fp = Z3_mk_string_symbol(C, "QF_BVFP"); }
  if (!hasfp && !unsupported) { Res r; if (inc_check(cs, vs, out, r)) { (r == R_SAT ? g_ss.sat : g_ss.unsat)++; g_ss.ns += now_ns() - t0; return r; } }
  if (hasfp && vs->v.size() <= 64 && guess(cs, vs, out, 200)) { g_ss.sat++; g_ss.ns += now_ns() - t0; return R_SAT; }
  Z3_solver s = hasfp ? Z3_mk_solver_for_logic(C, s_fp) : (cs.size() < 40 ? Z3_mk_simple_solver(C) : Z3_mk_solver_for_logic(C, s_bv));
  Z3_solver_inc_ref(C, s);
  for (Expr *e : cs) Z3_solver_assert(C, s, tr(e));
  Res r = R_UNK;
  if (!unsupported) {
    timed_out = 0; cur_solver = s;
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)g_query_timeout; it.it_value.tv_usec = 1000;
    setitimer(ITIMER_PROF, &it, nullptr);
    Z3_lbool l = Z3_solver_check(C, s);
    memset(&it, 0, sizeof it); setitimer(ITIMER_PROF, &it, nullptr); cur_solver = nullptr;
    r = l == Z3_L_TRUE ? R_SAT : l == Z3_L_FALSE ? R_UNSAT : R_UNK;
    if (r == R_UNK && getenv("SYM_DEBUG")) fprintf(stderr, "unknown: %s (timeout=%d)\n%s\n", Z3_solver_get_reason_unknown(C, s), timed_out, Z3_solver_to_string(C, s));
    if (r == R_SAT) {
      Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
      model_out(m, vs, out);
      Z3_model_dec_ref(C, m);
    }
  }
  Z3_solver_dec_ref(C, s);
  if (r == R_UNK && vs->v.size() <= 64 && guess(cs, vs, out, 20000)) r = R_SAT;
  (r == R_SAT ? g_ss.sat : r == R_UNSAT ? g_ss.unsat : g_ss.unk)++;
  u64 dt = now_ns() - t0; g_ss.ns += dt;
  if (getenv("SYM_SLOW") && dt > 1000000000ull) { fprintf(stderr, "[slow %.1fs res=%d fp=%d n=%zu]", dt / 1e9, r, hasfp, cs.size()); for (Expr *e : cs) fprintf(stderr, " %s\n", estr(e, 8).c_str()); }
  return r;
}
static void model_out(Z3_model m, const VarSet *vs, ModelDelta &out) {
      for (u32 v : vs->v) {
        unsigned w = g_vars[v].w; char n[32]; snprintf(n, 32, "v%u", v);
        Z3_symbol sy = Z3_mk_string_symbol(C, n);
        Z3_ast va = Z3_mk_const(C, sy, w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, w)), val;
        u128 x = 0;
        if (Z3_model_eval(C, m, va, true, &val)) {
          if (w == 1) x = Z3_get_bool_value(C, val) == Z3_L_TRUE;
          else {
            const char *str = Z3_get_numeral_string(C, val);
            for (const char *p = str; *p; p++) x = x * 10 + (*p - '0');
          }
        }
        out.push_back({v, x});
      }
}
std::string to_smt2(const std::vector<Expr *> &cs) {
  Z3_solver s = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, s);
  for (Expr *e : cs) Z3_solver_assert(C, s, tr(e));
  std::string r = Z3_solver_to_string(C, s); Z3_solver_dec_ref(C, s); return r;
}
