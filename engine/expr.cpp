#include "expr.h"
#include <unordered_map>
#include <map>
#include <cmath>
#include <cfenv>
#include <cstdio>
#include <cstdlib>
#pragma STDC FENV_ACCESS ON

u32 g_epoch = 1;
std::vector<u128> g_model;
std::vector<VarInfo> g_vars;
u64 g_nexpr = 0;

static std::vector<Expr *> tab(1 << 16, nullptr);
static u64 tabn = 0;
static char *pool = nullptr; static size_t poolleft = 0;
static Expr *alloc() {
  if (poolleft < sizeof(Expr)) { poolleft = sizeof(Expr) * 4096; pool = (char *)malloc(poolleft); }
  Expr *e = (Expr *)pool; pool += sizeof(Expr); poolleft -= sizeof(Expr); return e;
}
static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 29); }

// ---- variable sets
static std::map<std::vector<u32>, VarSet *> vsets;
static std::unordered_map<u64, const VarSet *> vsu;
static u32 vsid = 0;
static const VarSet *vs_get(std::vector<u32> v) {
  auto it = vsets.find(v);
  if (it != vsets.end()) return it->second;
  VarSet *s = new VarSet; s->v = v; s->id = vsid++; vsets[v] = s; return s;
}
static const VarSet *vs_empty() { static const VarSet *e = vs_get({}); return e; }
const VarSet *vs_union(const VarSet *a, const VarSet *b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  u32 x = a->id, y = b->id; if (x > y) std::swap(x, y);
  u64 key = ((u64)x << 32) | y;
  auto it = vsu.find(key); if (it != vsu.end()) return it->second;
  std::vector<u32> r; r.reserve(a->v.size() + b->v.size());
  size_t i = 0, j = 0;
  while (i < a->v.size() || j < b->v.size()) {
    if (j == b->v.size() || (i < a->v.size() && a->v[i] < b->v[j])) r.push_back(a->v[i++]);
    else if (i == a->v.size() || b->v[j] < a->v[i]) r.push_back(b->v[j++]);
    else { r.push_back(a->v[i++]); j++; }
  }
  const VarSet *s = vs_get(r); vsu[key] = s; return s;
}

// ---- floating point helpers
static inline float f32(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static inline double f64(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
static inline u128 b32(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline u128 b64(double f) { u64 x; memcpy(&x, &f, 8); return x; }
static bool fnan(u128 v, unsigned w) { return w == 32 ? std::isnan(f32(v)) : std::isnan(f64(v)); }
static const u128 QNAN32 = 0xFFC00000u, QNAN64 = 0xFFF8000000000000ull;
static u128 quiet(u128 v, unsigned w) { return w == 32 ? (v | 0x400000u) : (v | 0x8000000000000ull); }

// x86 semantics of the conversions clang emits for fptosi/fptoui
template <class F> static u128 ftosi_x86(F x, unsigned w) {
  auto cvt32 = [](F v) -> i32 { if (!(v > (F)-2147483649.0 && v < (F)2147483648.0) ) { if (sizeof(F)==4 ? !(v >= (F)-2147483648.0f && v < (F)2147483648.0f) : true) return INT32_MIN; } return (i32)v; };
  auto cvt64 = [](F v) -> i64 { if (!(v >= (F)-9223372036854775808.0 && v < (F)9223372036854775808.0)) return INT64_MIN; return (i64)v; };
  if (w <= 32) return (u128)(u32)cvt32(x) & mask128(w);
  if (w <= 64) return (u128)(u64)cvt64(x) & mask128(w);
  if (!(x > -1.7e38 && x < 1.7e38)) return (u128)1 << 127;
  return (u128)(i128)x;
}
template <class F> static u128 ftoui_x86(F x, unsigned w) {
  auto cvt64 = [](F v) -> i64 { if (!(v >= (F)-9223372036854775808.0 && v < (F)9223372036854775808.0)) return INT64_MIN; return (i64)v; };
  if (w < 32) return ftosi_x86<F>(x, 32) & mask128(w);
  if (w == 32) return (u128)(u64)cvt64(x) & mask128(32);
  if (w <= 64) { i64 a = cvt64(x); i64 b = cvt64(x - (F)9223372036854775808.0); return (u128)(u64)(a | (b & (a >> 63))); }
  if (!(x >= 0 && x < 3.4e38)) return 0;
  return (u128)x;
}
static int rm_of(u8 aux) { switch (aux) { case 0: return FE_TONEAREST; case 1: return FE_DOWNWARD; case 2: return FE_UPWARD; default: return FE_TOWARDZERO; } }

template <class F> static F fop(Op op, F a, F b) {
  switch (op) {
  case Op::FAdd: return a + b; case Op::FSub: return a - b; case Op::FMul: return a * b; case Op::FDiv: return a / b;
  case Op::FRem: return std::fmod(a, b); default: abort();
  }
}
__attribute__((noinline)) static u128 do_fbin(Op op, unsigned w, u128 a, u128 b) {
  // NaN results follow SSE: first NaN operand quieted, otherwise the default NaN
  if (fnan(a, w)) return quiet(a, w);
  if (fnan(b, w)) return quiet(b, w);
  if (w == 32) { float r = fop<float>(op, f32(a), f32(b)); return std::isnan(r) ? QNAN32 : b32(r); }
  double r = fop<double>(op, f64(a), f64(b)); return std::isnan(r) ? QNAN64 : b64(r);
}
__attribute__((noinline)) static u128 fcvt(u128 a, unsigned from, unsigned to) {
  if (from == to) return a;
  if (from == 32) { if (fnan(a, 32)) return ((u128)(((u64)a >> 31) & 1) << 63) | 0x7FF8000000000000ull | ((u128)((u64)a & 0x3FFFFF) << 29) ; volatile float f = f32(a); volatile double d = f; return b64(d); }
  if (fnan(a, 64)) return ((((u64)a >> 63) & 1) << 31) | 0x7FC00000u | (((u64)a >> 29) & 0x3FFFFF);
  volatile double d = f64(a); volatile float f = (float)d; return b32(f);
}
static int flagbit(Op f) { switch (f) { case Op::FlagOverflow: return FE_OVERFLOW; case Op::FlagInvalid: return FE_INVALID; case Op::FlagInexact: return FE_INEXACT; case Op::FlagDivZero: return FE_DIVBYZERO; default: return FE_UNDERFLOW; } }
__attribute__((noinline)) static u128 eval_flag(Op f, Op inner, unsigned kw, u64 tw, u128 a, u128 b) {
  feclearexcept(FE_ALL_EXCEPT);
  if (inner == Op::FCvt) { if (kw == 32 && tw == 64) { volatile float x = f32(a); volatile double y = x; (void)y; } else if (kw == 64 && tw == 32) { volatile double x = f64(a); volatile float y = (float)x; (void)y; } }
  else if (inner == Op::SIToF || inner == Op::UIToF) {
    if (tw == 32) { volatile float y; if (inner == Op::SIToF) { volatile i64 x = (i64)sx128(a, kw); y = (float)x; } else { volatile u64 x = (u64)a; y = (float)x; } (void)y; }
    else { volatile double y; if (inner == Op::SIToF) { volatile i64 x = (i64)sx128(a, kw); y = (double)x; } else { volatile u64 x = (u64)a; y = (double)x; } (void)y; }
  } else if (inner == Op::FToSI || inner == Op::FToUI) { // cvtt: invalid when out of range, inexact otherwise
    double d = kw == 32 ? (double)f32(a) : f64(a); unsigned w = (unsigned)tw; bool inv;
    if (std::isnan(d)) inv = true;
    else if (inner == Op::FToSI || w <= 32) { double t = std::trunc(d); if ((inner == Op::FToSI && w <= 32) || w < 32) inv = !(t >= -2147483648.0 && t <= 2147483647.0); else inv = !(t >= -9223372036854775808.0 && t < 9223372036854775808.0); }
    else inv = !(d > -1.0 && d < 18446744073709551616.0);
    if (f == Op::FlagInvalid) return inv; if (f == Op::FlagInexact) return !inv && std::trunc(d) != d; return 0;
  }
  else if (kw == 32) { volatile float x = f32(a), y = f32(b), r = fop<float>(inner, x, y); (void)r; }
  else { volatile double x = f64(a), y = f64(b), r = fop<double>(inner, x, y); (void)r; }
  return fetestexcept(flagbit(f)) ? 1 : 0;
}

__attribute__((noinline)) u128 eval_op(Op op, u8 aux, unsigned w, unsigned kw, u64 clo, u128 a, u128 b, u128 c) {
  u128 m = mask128(w);
  switch (op) {
  case Op::Extract: return (a >> clo) & m;
  case Op::ZExt: return a;
  case Op::SExt: return (u128)sx128(a, kw) & m;
  case Op::Add: return (a + b) & m;
  case Op::Sub: return (a - b) & m;
  case Op::Mul: return (a * b) & m;
  case Op::UDiv: return b == 0 ? m : a / b;
  case Op::URem: return b == 0 ? a : a % b;
  case Op::SDiv: { if (b == 0) return sx128(a, w) < 0 ? 1 : m; i128 x = sx128(a, w), y = sx128(b, w); if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
  case Op::SRem: { if (b == 0) return a; i128 x = sx128(a, w), y = sx128(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
  case Op::LShr: return b >= w ? 0 : a >> (unsigned)b;
  case Op::AShr: { i128 x = sx128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
  case Op::Eq: return a == b;
  case Op::Ult: return a < b;
  case Op::Ule: return a <= b;
  case Op::Slt: return sx128(a, kw) < sx128(b, kw);
  case Op::Sle: return sx128(a, kw) <= sx128(b, kw);
  case Op::Ite: return a ? b : c;
  case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: return do_fbin(op, w, a, b);
  case Op::FSqrt: if (fnan(a, w)) return quiet(a, w); if (w == 32) { float r = std::sqrt(f32(a)); return std::isnan(r) ? QNAN32 : b32(r); } else { double r = std::sqrt(f64(a)); return std::isnan(r) ? QNAN64 : b64(r); }
  case Op::FRound: {
    if (fnan(a, w)) return quiet(a, w);
    if (aux == 4) return w == 32 ? b32(std::round(f32(a))) : b64(std::round(f64(a)));
    if (aux == 0) return w == 32 ? b32(std::nearbyint(f32(a))) : b64(std::nearbyint(f64(a)));
    if (aux == 1) return w == 32 ? b32(std::floor(f32(a))) : b64(std::floor(f64(a)));
    if (aux == 2) return w == 32 ? b32(std::ceil(f32(a))) : b64(std::ceil(f64(a)));
    return w == 32 ? b32(std::trunc(f32(a))) : b64(std::trunc(f64(a)));
  }
  case Op::FMA: if (fnan(a, w)) return quiet(a, w); if (fnan(b, w)) return quiet(b, w); if (fnan(c, w)) return quiet(c, w);
    if (w == 32) { float r = std::fma(f32(a), f32(b), f32(c)); return std::isnan(r) ? QNAN32 : b32(r); } else { double r = std::fma(f64(a), f64(b), f64(c)); return std::isnan(r) ? QNAN64 : b64(r); }
  case Op::FEq: return kw == 32 ? f32(a) == f32(b) : f64(a) == f64(b);
  case Op::FLt: return kw == 32 ? f32(a) < f32(b) : f64(a) < f64(b);
  case Op::FLe: return kw == 32 ? f32(a) <= f32(b) : f64(a) <= f64(b);
  case Op::FUno: return fnan(a, kw) || fnan(b, kw);
  case Op::FCvt: return fcvt(a, kw, w);
  case Op::FToSI: return kw == 32 ? ftosi_x86<float>(f32(a), w) : ftosi_x86<double>(f64(a), w);
  case Op::FToUI: return kw == 32 ? ftoui_x86<float>(f32(a), w) : ftoui_x86<double>(f64(a), w);
  case Op::SIToF: { i128 x = sx128(a, kw); if (kw <= 64) { i64 y = (i64)x; return w == 32 ? b32((float)y) : b64((double)y); } return w == 32 ? b32((float)x) : b64((double)x); }
  case Op::UIToF: { if (kw <= 64) { u64 y = (u64)a; return w == 32 ? b32((float)y) : b64((double)y); } return w == 32 ? b32((float)a) : b64((double)a); }
  case Op::FlagOverflow: case Op::FlagInvalid: case Op::FlagInexact: case Op::FlagDivZero: case Op::FlagUnderflow:
    return eval_flag(op, (Op)aux, kw, clo, a, b);
  default: fprintf(stderr, "eval_op: bad op %d\n", (int)op); abort();
  }
}

u128 eval_slow(Expr *e) {
  u128 v;
  if (e->op == Op::Const) v = U(e->clo, e->chi);
  else if (e->op == Op::Var) v = g_model[e->clo];
  else if (e->op == Op::Ite) { v = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); }
  else if (e->op == Op::Concat) { u128 a = eval(e->k[0]), b = eval(e->k[1]); v = (a << e->k[1]->w) | b; }
  else {
    u128 a = e->k[0] ? eval(e->k[0]) : 0, b = e->k[1] ? eval(e->k[1]) : 0, c = e->k[2] ? eval(e->k[2]) : 0;
    v = eval_op(e->op, e->aux, e->w, e->k[0]->w, e->clo, a, b, c);
  }
  e->vlo = (u64)v; e->vhi = (u64)(v >> 64); e->epoch = g_epoch; return v;
}

static void grow() {
  std::vector<Expr *> n(tab.size() * 2, nullptr);
  for (Expr *h : tab) while (h) { Expr *nx = h->next; size_t i = h->hash & (n.size() - 1); h->next = n[i]; n[i] = h; h = nx; }
  tab.swap(n);
}
static Expr *mk(Op op, u8 aux, unsigned w, Expr *a, Expr *b, Expr *c, u64 clo, u64 chi) {
  u64 h = mix(((u64)op << 32) | ((u64)aux << 16) | w, clo); h = mix(h, chi);
  h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
  size_t i = h & (tab.size() - 1);
  for (Expr *e = tab[i]; e; e = e->next)
    if (e->hash == h && e->op == op && e->aux == aux && e->w == w && e->k[0] == a && e->k[1] == b && e->k[2] == c && e->clo == clo && e->chi == chi) return e;
  if (tabn > tab.size()) { grow(); i = h & (tab.size() - 1); }
  Expr *e = alloc();
  e->op = op; e->aux = aux; e->w = w; e->id = (u32)g_nexpr++; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->clo = clo; e->chi = chi;
  e->epoch = 0; e->z = e->zf = nullptr; e->hash = h; e->next = tab[i]; tab[i] = e; tabn++;
  const VarSet *vs = vs_empty(); u64 n = 1;
  for (int j = 0; j < 3; j++) if (e->k[j]) { vs = vs_union(vs, e->k[j]->vs); n += e->k[j]->nodes; }
  e->nodes = n > 0xffffffffu ? 0xffffffffu : (u32)n;
  if (op == Op::Var) vs = vs_get({(u32)clo});
  e->vs = vs;
  if (op == Op::Const) { e->vlo = clo; e->vhi = chi; e->epoch = 0; }
  return e;
}
Expr *mkconst(u128 v, unsigned w) { v &= mask128(w); Expr *e = mk(Op::Const, 0, w, 0, 0, 0, (u64)v, (u64)(v >> 64)); e->vlo = e->clo; e->vhi = e->chi; e->epoch = g_epoch; return e; }
Expr *mkvar(unsigned w, const std::string &name, u128 init) {
  u32 id = g_vars.size(); g_vars.push_back({name, w}); g_model.push_back(init & mask128(w));
  return mk(Op::Var, 0, w, 0, 0, 0, id, 0);
}
static Expr *foldc(Op op, u8 aux, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, u64 clo = 0) {
  return mkconst(eval_op(op, aux, w, a->w, clo, cval(a), b ? cval(b) : 0, c ? cval(c) : 0), w);
}
Expr *mkextract(Expr *e, unsigned lo, unsigned w) {
  if (lo == 0 && w == e->w) return e;
  if (isc(e)) return mkconst(cval(e) >> lo, w);
  switch (e->op) {
  case Op::Extract: return mkextract(e->k[0], e->clo + lo, w);
  case Op::Concat: { unsigned lw = e->k[1]->w; if (lo + w <= lw) return mkextract(e->k[1], lo, w); if (lo >= lw) return mkextract(e->k[0], lo - lw, w);
    return mkconcat(mkextract(e->k[0], 0, lo + w - lw), mkextract(e->k[1], lo, lw - lo)); }
  case Op::ZExt: { unsigned kw = e->k[0]->w; if (lo >= kw) return mkconst(0, w); if (lo + w <= kw) return mkextract(e->k[0], lo, w); return mkzext(mkextract(e->k[0], lo, kw - lo), w); }
  case Op::SExt: { unsigned kw = e->k[0]->w; if (lo + w <= kw) return mkextract(e->k[0], lo, w); if (lo < kw) return mksext(mkextract(e->k[0], lo, kw - lo), w); break; }
  case Op::And: case Op::Or: case Op::Xor: return mkbin(e->op, mkextract(e->k[0], lo, w), mkextract(e->k[1], lo, w));
  case Op::Add: case Op::Sub: case Op::Mul: if (lo == 0) return mkbin(e->op, mkextract(e->k[0], 0, w), mkextract(e->k[1], 0, w)); break;
  case Op::Ite: if (isc(e->k[1]) || isc(e->k[2])) return mkite(e->k[0], mkextract(e->k[1], lo, w), mkextract(e->k[2], lo, w)); break;
  case Op::LShr: if (isc(e->k[1])) { u128 s = cval(e->k[1]); if (s < e->w && lo + (unsigned)s + w <= e->w) return mkextract(e->k[0], lo + (unsigned)s, w); } break;
  case Op::Shl: if (isc(e->k[1])) { u128 s = cval(e->k[1]); if (s < e->w) { if (lo >= (unsigned)s) return mkextract(e->k[0], lo - (unsigned)s, w); if (lo + w <= (unsigned)s) return mkconst(0, w); } } break;
  default: break;
  }
  return mk(Op::Extract, 0, w, e, 0, 0, lo, 0);
}
Expr *mkconcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (isc(hi) && isc(lo)) return mkconst((cval(hi) << lo->w) | cval(lo), w);
  if (isc(hi) && cval(hi) == 0) return mkzext(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->clo == lo->clo + lo->w) return mkextract(lo->k[0], lo->clo, w);
  if (hi->op == Op::Extract && hi->k[0] == lo && hi->clo == lo->w) return mkextract(lo, 0, w);
  // concat(extract, concat(extract, x))
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] && hi->clo == lo->k[0]->clo + lo->k[0]->w)
    return mkconcat(mkextract(hi->k[0], lo->k[0]->clo, hi->w + lo->k[0]->w), lo->k[1]);
  if (lo->op == Op::Concat && isc(hi) && isc(lo->k[0])) return mkconcat(mkconcat(hi, lo->k[0]), lo->k[1]);
  if (lo->op == Op::ZExt && isc(hi)) { unsigned kw = lo->k[0]->w; return mkconcat(mkconcat(hi, mkconst(0, lo->w - kw)), lo->k[0]); }
  return mk(Op::Concat, 0, w, hi, lo, 0, 0, 0);
}
Expr *mkzext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (isc(e)) return mkconst(cval(e), w);
  if (e->op == Op::ZExt) return mkzext(e->k[0], w);
  if (e->op == Op::Ite && isc(e->k[1]) && isc(e->k[2])) return mkite(e->k[0], mkconst(cval(e->k[1]), w), mkconst(cval(e->k[2]), w));
  return mk(Op::ZExt, 0, w, e, 0, 0, 0, 0);
}
Expr *mksext(Expr *e, unsigned w) {
  if (w == e->w) return e; if (isc(e)) return foldc(Op::SExt, 0, w, e);
  if (e->op == Op::SExt) return mksext(e->k[0], w);
  if (e->op == Op::ZExt) return mkzext(e->k[0], w);
  if (e->op == Op::Ite && isc(e->k[1]) && isc(e->k[2])) return mkite(e->k[0], mkconst((u128)sx128(cval(e->k[1]), e->w), w), mkconst((u128)sx128(cval(e->k[2]), e->w), w));
  return mk(Op::SExt, 0, w, e, 0, 0, 0, 0);
}
static bool comm(Op o) { return o == Op::Add || o == Op::Mul || o == Op::And || o == Op::Or || o == Op::Xor || o == Op::Eq; }
Expr *mknot(Expr *b) {
  if (isc(b)) return mkconst(!cval(b), 1);
  if (b->op == Op::Xor && isc(b->k[1])) return b->k[0];
  // push through integer comparisons so a condition and its negation stay small
  if (b->op == Op::Ult) return mkbin(Op::Ule, b->k[1], b->k[0]);
  if (b->op == Op::Ule) return mkbin(Op::Ult, b->k[1], b->k[0]);
  if (b->op == Op::Slt) return mkbin(Op::Sle, b->k[1], b->k[0]);
  if (b->op == Op::Sle) return mkbin(Op::Slt, b->k[1], b->k[0]);
  return mk(Op::Xor, 0, 1, b, mkconst(1, 1), 0, 0, 0);
}
// e = 1 << x with x always below the width: returns x
static Expr *onehot(Expr *e) {
  if (e->op != Op::Shl || !isc(e->k[0]) || cval(e->k[0]) != 1) return nullptr; Expr *x = e->k[1];
  return x->op == Op::ZExt && x->k[0]->w < 16 && (1u << x->k[0]->w) <= e->w ? x : nullptr;
}
static bool bitset(Expr *e, std::vector<Expr *> &ys, int depth = 0) { // e = union of 1 << y
  if (Expr *y = onehot(e)) { ys.push_back(y); return true; }
  if (isc(e)) { for (unsigned i = 0; i < e->w; i++) if ((cval(e) >> i) & 1) ys.push_back(mkconst(i, e->w)); return ys.size() <= 16; }
  return e->op == Op::Or && depth < 16 && bitset(e->k[0], ys, depth + 1) && bitset(e->k[1], ys, depth + 1);
}
Expr *mkbin(Op op, Expr *a, Expr *b) {
  unsigned w = a->w; if (a->w != b->w) { fprintf(stderr, "mkbin width %d: %d vs %d\n", (int)op, a->w, b->w); abort(); }
  bool cmp = op >= Op::Eq && op <= Op::Sle; unsigned rw = cmp ? 1 : w;
  if (isc(a) && isc(b)) return foldc(op, 0, rw, a, b);
  if (comm(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  u128 cb = isc(b) ? cval(b) : 0; u128 m = mask128(w);
  // Division of zero-extended operands at their own width (the executed divisor is never zero: checked before)
  if ((op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) && w > 8 && (a->op == Op::ZExt || b->op == Op::ZExt)) {
    auto iw = [&](Expr *e) -> unsigned { if (e->op == Op::ZExt) return e->k[0]->w; if (!isc(e) || !cval(e)) return w; unsigned n = 1; while (n < w && (cval(e) >> n)) n++; return n; };
    unsigned n = std::max(iw(a), iw(b)); if (n < w) return mkzext(mkbin(op == Op::UDiv || op == Op::SDiv ? Op::UDiv : Op::URem, mkextract(a, 0, n), mkextract(b, 0, n)), w);
  }
  switch (op) {
  case Op::Add:
    if (isc(b)) { if (cb == 0) return a; if (a->op == Op::Add && isc(a->k[1])) return mkbin(Op::Add, a->k[0], mkconst(cval(a->k[1]) + cb, w));
      if (a->op == Op::Ite && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mkconst(cval(a->k[1]) + cb, w), mkconst(cval(a->k[2]) + cb, w)); }
    else { if (a->op == Op::Add && isc(a->k[1])) return mkbin(Op::Add, mkbin(Op::Add, a->k[0], b), a->k[1]);
      if (b->op == Op::Add && isc(b->k[1])) return mkbin(Op::Add, mkbin(Op::Add, a, b->k[0]), b->k[1]); }
    if (w == 1) return mkbin(Op::Xor, a, b);
    break;
  case Op::Sub:
    if (a == b) return mkconst(0, w); if (isc(b)) return mkbin(Op::Add, a, mkconst(-cb, w));
    if (a->op == Op::Add && isc(a->k[1])) return mkbin(Op::Add, mkbin(Op::Sub, a->k[0], b), a->k[1]);
    if (b->op == Op::Add && isc(b->k[1])) return mkbin(Op::Add, mkbin(Op::Sub, a, b->k[0]), mkconst(-cval(b->k[1]), w));
    if (a->op == Op::Add) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    break;
  case Op::Mul:
    if (isc(b)) { if (cb == 0) return b; if (cb == 1) return a; if ((cb & (cb - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != cb) s++; return mkbin(Op::Shl, a, mkconst(s, w)); } }
    break;
  case Op::UDiv: if (isc(b)) { if (cb == 1) return a; if (cb && (cb & (cb - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != cb) s++; return mkbin(Op::LShr, a, mkconst(s, w)); } } break;
  case Op::URem: if (isc(b)) { if (cb == 1) return mkconst(0, w); if (cb && (cb & (cb - 1)) == 0) return mkbin(Op::And, a, mkconst(cb - 1, w)); } break;
  case Op::And:
    if (a == b) return a; if (isc(b)) { if (cb == 0) return b; if (cb == m) return a;
      if (a->op == Op::And && isc(a->k[1])) return mkbin(Op::And, a->k[0], mkconst(cval(a->k[1]) & cb, w));
      if (a->op == Op::ZExt && (cb & mask128(a->k[0]->w)) == mask128(a->k[0]->w)) return a;
      if (a->op == Op::ZExt) return mkzext(mkbin(Op::And, a->k[0], mkconst(cb, a->k[0]->w)), w);
      if ((cb & (cb + 1)) == 0) { unsigned n = 0; while (((u128)1 << n) <= cb) n++; return mkzext(mkextract(a, 0, n), w); }
      if (a->op == Op::Ite && isc(a->k[1]) && isc(a->k[2])) return mkite(a->k[0], mkconst(cval(a->k[1]) & cb, w), mkconst(cval(a->k[2]) & cb, w)); }
    if (isc(b) && a->op == Op::Concat) { unsigned lw = a->k[1]->w; u128 l = cb & mask128(lw), h = cb >> lw; if (!l || !h || l == mask128(lw) || h == mask128(w - lw)) return mkconcat(mkbin(Op::And, a->k[0], mkconst(h, w - lw)), mkbin(Op::And, a->k[1], mkconst(l, lw))); }
    if (w == 1 && ((a->op == Op::Xor && a->k[0] == b && isc(a->k[1])) || (b->op == Op::Xor && b->k[0] == a && isc(b->k[1])))) return mkconst(0, 1);
    break;
  case Op::Or:
    if (a == b) return a; if (isc(b)) { if (cb == 0) return a; if (cb == m) return b; if (a->op == Op::Or && isc(a->k[1])) return mkbin(Op::Or, a->k[0], mkconst(cval(a->k[1]) | cb, w)); }
    // disjoint zext | shl patterns (byte assembly)
    { Expr *x = a, *y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) if (x->op == Op::ZExt && y->op == Op::Shl && isc(y->k[1]) && cval(y->k[1]) == x->k[0]->w) { unsigned s = (unsigned)cval(y->k[1]); return mkconcat(mkextract(y->k[0], 0, w - s), x->k[0]); }
      x = a; y = b; for (int t = 0; t < 2; t++, std::swap(x, y)) if (x->op == Op::ZExt && y->op == Op::Concat && isc(y->k[1]) && cval(y->k[1]) == 0 && y->k[1]->w >= x->k[0]->w) return mkconcat(y->k[0], mkzext(x->k[0], y->k[1]->w)); }
    if (isc(b) && (a->op == Op::Concat || a->op == Op::ZExt)) { Expr *l0 = a->op == Op::Concat ? a->k[1] : a->k[0]; unsigned lw = l0->w; u128 l = cb & mask128(lw), h = cb >> lw; if (!l || !h || l == mask128(lw) || h == mask128(w - lw)) return mkconcat(mkbin(Op::Or, a->op == Op::Concat ? a->k[0] : mkconst(0, w - lw), mkconst(h, w - lw)), mkbin(Op::Or, l0, mkconst(l, lw))); }
    if (w == 1 && ((a->op == Op::Xor && a->k[0] == b && isc(a->k[1])) || (b->op == Op::Xor && b->k[0] == a && isc(b->k[1])))) return mkconst(1, 1);
    break;
  case Op::Xor:
    if (a == b) return mkconst(0, w); if (isc(b)) { if (cb == 0) return a; if (w == 1) return mknot(a); if (a->op == Op::Xor && isc(a->k[1])) return mkbin(Op::Xor, a->k[0], mkconst(cval(a->k[1]) ^ cb, w)); }
    break;
  case Op::Shl: case Op::LShr: case Op::AShr:
    if (isc(b)) { if (cb == 0) return a; if (op != Op::AShr && cb >= w) return mkconst(0, w);
      if (op == Op::LShr) return mkzext(mkextract(a, (unsigned)cb, w - (unsigned)cb), w);
      if (op == Op::Shl) return mkconcat(mkextract(a, 0, w - (unsigned)cb), mkconst(0, (unsigned)cb));
      if (cb < w) return mksext(mkextract(a, (unsigned)cb, w - (unsigned)cb), w); }
    if (isc(a) && cval(a) == 0) return a;
    break;
  case Op::Eq:
    if (a == b) return mkconst(1, 1);
    if (isc(b)) {
      if (w == 1) return cb ? a : mknot(a);
      if (a->op == Op::ZExt) { unsigned kw = a->k[0]->w; if (cb & ~mask128(kw)) return mkconst(0, 1); return mkbin(Op::Eq, a->k[0], mkconst(cb, kw)); }
      if (a->op == Op::SExt) { unsigned kw = a->k[0]->w; if (((u128)sx128(cb, kw) & m) != cb) return mkconst(0, 1); return mkbin(Op::Eq, a->k[0], mkconst(cb, kw)); }
      if (a->op == Op::Add && isc(a->k[1])) return mkbin(Op::Eq, a->k[0], mkconst(cb - cval(a->k[1]), w));
      if (a->op == Op::Xor && isc(a->k[1])) return mkbin(Op::Eq, a->k[0], mkconst(cb ^ cval(a->k[1]), w));
      if (a->op == Op::Sub && cb == 0) return mkbin(Op::Eq, a->k[0], a->k[1]);
      if (a->op == Op::And && cb == 0) { // (1<<y0 | 1<<y1 | ..) & 1<<x == 0  =>  x differs from every y
        for (int t = 0; t < 2; t++) { Expr *x = onehot(a->k[t]); std::vector<Expr *> ys; if (!x || !bitset(a->k[1 - t], ys)) continue; Expr *r = mkconst(1, 1); for (Expr *y : ys) r = mkbin(Op::And, r, mknot(mkbin(Op::Eq, x, y))); return r; } }
      if (a->op == Op::Ite) { Expr *t = a->k[1], *f = a->k[2];
        if (isc(t) && isc(f)) { bool x = cval(t) == cb, y = cval(f) == cb; if (x && y) return mkconst(1, 1); if (x) return a->k[0]; if (y) return mknot(a->k[0]); return mkconst(0, 1); }
        if (isc(t)) { if (cval(t) == cb) return mkbin(Op::Or, a->k[0], mkbin(Op::Eq, f, b)); return mkbin(Op::And, mknot(a->k[0]), mkbin(Op::Eq, f, b)); }
        if (isc(f)) { if (cval(f) == cb) return mkbin(Op::Or, mknot(a->k[0]), mkbin(Op::Eq, t, b)); return mkbin(Op::And, a->k[0], mkbin(Op::Eq, t, b)); } }
      if (a->op == Op::Concat) { Expr *h = a->k[0], *l = a->k[1]; if (isc(h) || isc(l) || w > 64) return mkbin(Op::And, mkbin(Op::Eq, h, mkconst(cb >> l->w, h->w)), mkbin(Op::Eq, l, mkconst(cb, l->w))); }
    }
    if (a->op == Op::Add && isc(a->k[1]) && b->op == Op::Add && isc(b->k[1]) ) { if (a->k[1] == b->k[1]) return mkbin(Op::Eq, a->k[0], b->k[0]); if (a->k[0] == b->k[0]) return mkconst(0, 1); }
    if (a->op == Op::Add && isc(a->k[1]) && a->k[0] == b) return mkconst(0, 1);
    if (b->op == Op::Add && isc(b->k[1]) && b->k[0] == a) return mkconst(0, 1);
    if (a->op == b->op && (a->op == Op::ZExt || a->op == Op::SExt) && a->k[0]->w == b->k[0]->w) return mkbin(Op::Eq, a->k[0], b->k[0]);
    break;
  case Op::Ult:
    if (a == b) return mkconst(0, 1); if (isc(b) && cb == 0) return mkconst(0, 1); if (isc(b) && cb == 1) return mkbin(Op::Eq, a, mkconst(0, w));
    if (isc(b) && a->op == Op::ZExt) { unsigned kw = a->k[0]->w; if (cb > mask128(kw)) return mkconst(1, 1); return mkbin(Op::Ult, a->k[0], mkconst(cb, kw)); }
    if (isc(a) && cval(a) == m) return mkconst(0, 1);
    if (isc(a) && b->op == Op::ZExt) { unsigned kw = b->k[0]->w; if (cval(a) >= mask128(kw)) return mkconst(0, 1); return mkbin(Op::Ult, mkconst(cval(a), kw), b->k[0]); }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkbin(Op::Ult, a->k[0], b->k[0]);
    break;
  case Op::Ule:
    if (a == b) return mkconst(1, 1); if (isc(a) && cval(a) == 0) return mkconst(1, 1); if (isc(b) && cb == m) return mkconst(1, 1);
    if (isc(b)) return mkbin(Op::Ult, a, mkconst(cb + 1, w));   // canonical: x <= c  =>  x < c+1
    if (isc(a)) return mkbin(Op::Ult, mkconst(cval(a) - 1, w), b);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w) return mkbin(Op::Ule, a->k[0], b->k[0]);
    break;
  case Op::Slt:
    if (a == b) return mkconst(0, 1);
    if (w > 1 && a->op == Op::Concat && isc(b) && cb == 0) return mkextract(a, w - 1, 1);             // x < 0
    if (w > 1 && b->op == Op::Concat && isc(a) && cval(a) == m) return mknot(mkextract(b, w - 1, 1));  // -1 < x
    if (a->op == Op::ZExt && isc(b)) { if (sx128(cb, w) < 0) return mkconst(0, 1); return mkbin(Op::Ult, a, b); }
    if (b->op == Op::ZExt && isc(a)) { if (sx128(cval(a), w) < 0) return mkconst(1, 1); return mkbin(Op::Ult, a, b); }
    if (a->op == Op::ZExt && b->op == Op::ZExt) return mkbin(Op::Ult, a, b);
    break;
  case Op::Sle:
    if (a == b) return mkconst(1, 1);
    if (isc(b) && cb == (m >> 1)) return mkconst(1, 1);
    if (isc(b)) return mkbin(Op::Slt, a, mkconst(cb + 1, w));
    if (isc(a) && cval(a) == ((m >> 1) + 1)) return mkconst(1, 1);
    if (isc(a)) return mkbin(Op::Slt, mkconst(cval(a) - 1, w), b);
    if (a->op == Op::ZExt && b->op == Op::ZExt) return mkbin(Op::Ule, a, b);
    break;
  default: break;
  }
  if (comm(op) && (isc(a) || (!isc(b) && a->id > b->id))) std::swap(a, b);
  return mk(op, 0, rw, a, b, 0, 0, 0);
}
Expr *mkite(Expr *c, Expr *a, Expr *b) {
  if (isc(c)) return cval(c) ? a : b;
  if (a == b) return a;
  unsigned w = a->w;
  if (c->op == Op::Xor && isc(c->k[1])) return mkite(c->k[0], b, a);
  if (w == 1) {
    if (isc(a)) return cval(a) ? mkbin(Op::Or, c, b) : mkbin(Op::And, mknot(c), b);
    if (isc(b)) return cval(b) ? mkbin(Op::Or, mknot(c), a) : mkbin(Op::And, c, a);
  }
  if (b->op == Op::Ite && b->k[1] == a) return mkite(mkbin(Op::Or, c, b->k[0]), a, b->k[2]);
  if (a->op == Op::Ite && a->k[0] == c) return mkite(c, a->k[1], b);
  if (b->op == Op::Ite && b->k[0] == c) return mkite(c, a, b->k[2]);
  return mk(Op::Ite, 0, w, c, a, b, 0, 0);
}
Expr *mkfbin(Op op, Expr *a, Expr *b) { if (isc(a) && isc(b)) return foldc(op, 0, a->w, a, b); return mk(op, 0, a->w, a, b, 0, 0, 0); }
Expr *mkfcmp(Op op, Expr *a, Expr *b) {
  if (isc(a) && isc(b)) return foldc(op, 0, 1, a, b);
  if (op == Op::FUno) {
    if (a == b || (isc(b) && !fnan(cval(b), b->w))) { // isnan(a)
      if (a->op == Op::SIToF || a->op == Op::UIToF) return mkconst(0, 1);
      if (a->op == Op::FCvt) return mkfcmp(Op::FUno, a->k[0], a->k[0]);
      return mk(op, 0, 1, a, a, 0, 0, 0);
    }
    if (isc(a) && !fnan(cval(a), a->w)) return mkfcmp(Op::FUno, b, b);
    if ((isc(a) && fnan(cval(a), a->w)) || (isc(b) && fnan(cval(b), b->w))) return mkconst(1, 1);
    if (a->id > b->id) std::swap(a, b);
    return mkbin(Op::Or, mkfcmp(Op::FUno, a, a), mkfcmp(Op::FUno, b, b));
  }
  if (a == b && (op == Op::FEq || op == Op::FLe)) return mknot(mkfcmp(Op::FUno, a, a));
  if (a == b && op == Op::FLt) return mkconst(0, 1);
  if (op == Op::FEq && a->id > b->id) std::swap(a, b);
  return mk(op, 0, 1, a, b, 0, 0, 0);
}
Expr *mkfun(Op op, Expr *a, unsigned w, u8 aux) {
  if (op == Op::FCvt && a->w == w) return a;
  if (isc(a)) return foldc(op, aux, w, a);
  if (op == Op::UIToF || op == Op::SIToF) {
    // integer width reduction keeps the value
    if (a->op == Op::ZExt) return mkfun(Op::UIToF, a->k[0], w, aux);
    if (op == Op::SIToF && a->op == Op::SExt) return mkfun(Op::SIToF, a->k[0], w, aux);
  }
  return mk(op, aux, w, a, 0, 0, 0, 0);
}
Expr *mkfma(Expr *a, Expr *b, Expr *c) { if (isc(a) && isc(b) && isc(c)) return foldc(Op::FMA, 0, a->w, a, b, c); return mk(Op::FMA, 0, a->w, a, b, c, 0, 0); }
Expr *mkflag(Op flag, Op inner, Expr *a, Expr *b, unsigned w) {
  if (isc(a) && (!b || isc(b))) return foldc(flag, (u8)inner, 1, a, b, nullptr, w);
  return mk(flag, (u8)inner, 1, a, b, 0, w, 0);
}
static const char *opn[] = {"const","var","extract","concat","zext","sext","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","fadd","fsub","fmul","fdiv","frem","fsqrt","fround","fma","feq","flt","fle","funo","fcvt","ftosi","ftoui","sitof","uitof","foverflow","finvalid","finexact","fdivzero","funderflow"};
std::string estr(Expr *e, int d) {
  char b[64];
  if (isc(e)) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->clo, e->w); return b; }
  if (e->op == Op::Var) return g_vars[e->clo].name;
  if (d == 0) return "..";
  std::string s = std::string("(") + opn[(int)e->op];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->clo) + "+" + std::to_string(e->w) + "]"; else s += ":" + std::to_string(e->w);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + estr(e->k[i], d - 1);
  return s + ")";
}
