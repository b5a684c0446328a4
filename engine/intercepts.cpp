#include "interp.h"
#include <cmath>
#include <exception>
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cctype>
#include <functional>
#include <unordered_map>
#include <unistd.h>
#include <ostream>
typedef Interp &IR; typedef const CallInfo &CI;
static std::unordered_map<std::string, Intercept> tab;
static void R64(Val *r, u64 v) { r[0] = {v, 0, nullptr}; }

static int f_malloc(IR I, CI, Val *a, unsigned, Val *r) { u64 n = I.conc(a[0]); u64 p = arena_alloc(n); if (p) memset((void *)p, 0xA5, n); R64(r, p); return 0; }
static int f_calloc(IR I, CI, Val *a, unsigned, Val *r) { u64 x = I.conc(a[0]), y = I.conc(a[1]); u64 n; if (__builtin_mul_overflow(x, y, &n)) R64(r, 0); else R64(r, arena_alloc(n)); return 0; }
extern "C" void __libc_free(void *);
static int f_free(IR I, CI, Val *a, unsigned, Val *r) { u64 p = I.conc(a[0]); if (!p) return 0; if (in_arena(p)) { const char *e; arena_free(p, &e); if (e) I.violation("memory", e); } else __libc_free((void *)p); return 0; }
static int f_realloc(IR I, CI, Val *a, unsigned, Val *r) {
  u64 p = I.conc(a[0]), n = I.conc(a[1]); if (p && !in_arena(p)) I.incomplete("realloc of a foreign pointer");
  if (p && n == 0) { const char *e; arena_free(p, &e); if (e) I.violation("memory", e); R64(r, 0); return 0; }
  u64 q = arena_alloc(n); if (!q) { R64(r, 0); return 0; } memset((void *)q, 0xA5, n);
  if (p) { ObjInfo o; if (!arena_object(p, o) || o.base != p || !o.live) I.violation("memory", "realloc of an invalid pointer"); u64 m = o.size < n ? o.size : n; sh_copy(q, p, m); memcpy((void *)q, (void *)p, m); const char *e; arena_free(p, &e); }
  R64(r, q); return 0;
}
static int throw_std(IR I, std::exception_ptr ep, const std::type_info &ti) { auto *k = new std::exception_ptr(ep); I.do_throw(*(u64 *)k, (u64)&ti, 0, true); return 1; }
static int f_new(IR I, CI, Val *a, unsigned, Val *r) { u64 n = I.conc(a[0]); u64 p = arena_alloc(n ? n : 1); if (!p) return throw_std(I, std::make_exception_ptr(std::bad_alloc()), typeid(std::bad_alloc)); memset((void *)p, 0xA5, n); R64(r, p); return 0; }
static int f_newnt(IR I, CI, Val *a, unsigned, Val *r) { u64 n = I.conc(a[0]); u64 p = arena_alloc(n ? n : 1); if (p) memset((void *)p, 0xA5, n); R64(r, p); return 0; }
static int f_newal(IR I, CI, Val *a, unsigned, Val *r) { u64 n = I.conc(a[0]), al = I.conc(a[1]); u64 p = arena_alloc(n ? n : 1, al); if (!p) return throw_std(I, std::make_exception_ptr(std::bad_alloc()), typeid(std::bad_alloc)); memset((void *)p, 0xA5, n); R64(r, p); return 0; }

static int f_memcpy(IR I, CI, Val *a, unsigned, Val *r) { u64 d = I.conc(a[0]), s = I.conc(a[1]), n = I.conc(a[2]); if (n) { I.check_range(d, n, true); I.check_range(s, n, false); sh_copy(d, s, n); memmove((void *)d, (void *)s, n); } R64(r, d); return 0; }
static int f_memset(IR I, CI, Val *a, unsigned, Val *r) { u64 d = I.conc(a[0]), n = I.conc(a[2]); if (n) { I.check_range(d, n, true); sh_clear(d, n); u8 v = a[1].e ? (u8)eval(a[1].e) : (u8)a[1].lo; memset((void *)d, v, n); if (a[1].e) for (u64 i = 0; i < n; i++) sh_set(d + i, a[1].e, 0); } R64(r, d); return 0; }
static Expr *bytex(IR I, u64 p) { if (p < 4096 || !access_ok(p, 1)) I.bad_access(p, 1, false); return sh_byte(p); }
static int cmpres(IR I, u64 p, u64 q, u64 n, bool str, Val *r) {
  // lexicographic comparison as one expression; for strings stops at NUL
  std::vector<std::pair<Expr *, Expr *>> bs;
  for (u64 i = 0; i < n; i++) {
    Expr *x = bytex(I, p + i), *y = bytex(I, q + i); bs.push_back({x, y});
    if (isc(x) && isc(y) && cval(x) != cval(y)) break;
    if (str && isc(x) && cval(x) == 0) break; if (str && isc(y) && cval(y) == 0) break;
    if (str && i > 4096) I.incomplete("strcmp too long");
  }
  Expr *e = mkconst(0, 32);
  for (size_t i = bs.size(); i-- > 0;) {
    Expr *x = bs[i].first, *y = bs[i].second; Expr *eq = mkbin(Op::Eq, x, y);
    Expr *df = mkite(mkbin(Op::Ult, x, y), mkconst(~(u128)0, 32), mkconst(1, 32));
    Expr *rest = str ? mkite(mkbin(Op::Eq, x, mkconst(0, 8)), mkconst(0, 32), e) : e;
    e = mkite(eq, rest, df);
  }
  Interp::setv(r[0], e); return 0;
}
static int f_memcmp(IR I, CI, Val *a, unsigned, Val *r) { u64 p = I.conc(a[0]), q = I.conc(a[1]), n = I.conc(a[2]); return cmpres(I, p, q, n, false, r); }
static int f_strcmp(IR I, CI, Val *a, unsigned, Val *r) {
  u64 p = I.conc(a[0]), q = I.conc(a[1]); // stop at the first definite terminator of either string; symbolic bytes fork
  for (u64 i = 0;; i++) {
    Expr *x = bytex(I, p + i), *y = bytex(I, q + i);
    if (!I.branch(mkbin(Op::Eq, x, y))) { x = sh_byte(p + i); y = sh_byte(q + i); bool lt = I.branch(mkbin(Op::Ult, x, y)); R64(r, lt ? 0xffffffffu : 1); return 0; }
    x = sh_byte(p + i); if (I.branch(mkbin(Op::Eq, x, mkconst(0, 8)))) { R64(r, 0); return 0; }
  }
}
static int f_strncmp(IR I, CI, Val *a, unsigned, Val *r) {
  u64 p = I.conc(a[0]), q = I.conc(a[1]), n = I.conc(a[2]);
  for (u64 i = 0; i < n; i++) {
    Expr *x = bytex(I, p + i), *y = bytex(I, q + i);
    if (!I.branch(mkbin(Op::Eq, x, y))) { x = sh_byte(p + i); y = sh_byte(q + i); bool lt = I.branch(mkbin(Op::Ult, x, y)); R64(r, lt ? 0xffffffffu : 1); return 0; }
    x = sh_byte(p + i); if (I.branch(mkbin(Op::Eq, x, mkconst(0, 8)))) break;
  }
  R64(r, 0); return 0;
}
static int f_strlen(IR I, CI, Val *a, unsigned, Val *r) { u64 p = I.conc(a[0]); for (u64 i = 0;; i++) { Expr *x = bytex(I, p + i); if (I.branch(mkbin(Op::Eq, x, mkconst(0, 8)))) { R64(r, i); return 0; } } }
static int f_memchr(IR I, CI, Val *a, unsigned, Val *r) { u64 p = I.conc(a[0]), n = I.conc(a[2]); Expr *c = mkextract(I.ex(a[1], 32), 0, 8); for (u64 i = 0; i < n; i++) { Expr *x = bytex(I, p + i); if (I.branch(mkbin(Op::Eq, x, c))) { R64(r, p + i); return 0; } } R64(r, 0); return 0; }
static int f_strchr(IR I, CI, Val *a, unsigned, Val *r) { u64 p = I.conc(a[0]); Expr *c = mkextract(I.ex(a[1], 32), 0, 8); for (u64 i = 0;; i++) { Expr *x = bytex(I, p + i); if (I.branch(mkbin(Op::Eq, x, c))) { R64(r, p + i); return 0; } x = sh_byte(p + i); if (I.branch(mkbin(Op::Eq, x, mkconst(0, 8)))) break; } R64(r, 0); return 0; }
static int f_strcpy(IR I, CI, Val *a, unsigned, Val *r) { u64 d = I.conc(a[0]), s = I.conc(a[1]); u64 n = 0; for (;; n++) { Expr *x = bytex(I, s + n); if (I.branch(mkbin(Op::Eq, x, mkconst(0, 8)))) break; } n++; I.check_range(d, n, true); sh_copy(d, s, n); memmove((void *)d, (void *)s, n); R64(r, d); return 0; }

template <int (*FN)(int)> static int f_ctype(IR I, CI, Val *a, unsigned, Val *r) {
  if (!a[0].e) { i32 c = (i32)a[0].lo; R64(r, (c >= -1 && c < 256) ? (u32)FN(c) : 0); return 0; }
  Expr *e = a[0].e; Expr *res = mkconst((u32)FN(255), 32); // runs over 0..255, outside: 0 / identity
  bool conv = FN == (int (*)(int)) & tolower || FN == (int (*)(int)) & toupper;
  if (conv) {
    bool lo = FN == (int (*)(int)) & tolower; u8 s = lo ? 'A' : 'a', t = lo ? 'Z' : 'z';
    Expr *in = mkbin(Op::And, mkbin(Op::Ule, mkconst(s, 32), e), mkbin(Op::Ule, e, mkconst(t, 32)));
    Interp::setv(r[0], mkite(in, mkbin(Op::Xor, e, mkconst(32, 32)), e)); return 0;
  }
  Expr *any = mkconst(0, 1); int i = 0;
  while (i < 256) { if (!FN(i)) { i++; continue; } int j = i; while (j + 1 < 256 && FN(j + 1)) j++; any = mkbin(Op::Or, any, mkbin(Op::And, mkbin(Op::Ule, mkconst(i, 32), e), mkbin(Op::Ule, e, mkconst(j, 32)))); i = j + 1; }
  Interp::setv(r[0], mkzext(any, 32)); return 0;
}
// floating point environment
static int f_feclear(IR I, CI, Val *a, unsigned, Val *r) { unsigned m = (unsigned)I.conc(a[0]); I.flagtrack = true; size_t o = 0; for (auto &f : I.flags) { f.act &= ~m; if (f.act) I.flags[o++] = f; } I.flags.resize(o); I.flagoverflowed = false; R64(r, 0); return 0; }
static int f_fetest(IR I, CI, Val *a, unsigned, Val *r) {
  unsigned m = (unsigned)I.conc(a[0]); Expr *res = mkconst(0, 32); if (I.flagoverflowed) I.incomplete("too many FP operations tracked");
  struct { unsigned bit; Op op; } t[] = {{1, Op::FlagInvalid}, {4, Op::FlagDivZero}, {8, Op::FlagOverflow}, {16, Op::FlagUnderflow}, {32, Op::FlagInexact}};
  for (auto &b : t) if (m & b.bit) { Expr *any = mkconst(0, 1); for (auto &f : I.flags) if (f.act & b.bit) any = mkbin(Op::Or, any, mkflag(b.op, f.inner, f.a, f.b, f.w)); res = mkbin(Op::Or, res, mkite(any, mkconst(b.bit, 32), mkconst(0, 32))); }
  Interp::setv(r[0], res); return 0;
}
// libm
template <int K, int W> static int f_round(IR I, CI, Val *a, unsigned, Val *r) { Interp::setv(r[0], mkfun(Op::FRound, I.ex(a[0], W), W, K)); return 0; }
template <int W> static int f_sqrt(IR I, CI, Val *a, unsigned, Val *r) { Interp::setv(r[0], mkfun(Op::FSqrt, I.ex(a[0], W), W)); return 0; }
template <int W> static int f_fabs(IR I, CI, Val *a, unsigned, Val *r) { Interp::setv(r[0], mkbin(Op::And, I.ex(a[0], W), mkconst(mask128(W - 1), W))); return 0; }
template <int W> static int f_fmod(IR I, CI, Val *a, unsigned, Val *r) {
  // By a power of two >= 1, of an operand whose quotient does not underflow to a subnormal below one: x - trunc(x / d) * d, every step exact.
  Expr *x = I.ex(a[0], W), *d = I.ex(a[1], W); u64 c = (u64)a[1].lo; const int P = W == 64 ? 52 : 23, B = W == 64 ? 1023 : 127; int E = (int)(c >> P);
  if (!a[1].e && a[0].e && !(c & ((1ull << P) - 1)) && E >= B && E < B + B - 4) { Expr *inv = mkconst((u64)(2 * B - E) << P, W), *q = mkfun(Op::FRound, mkfbin(Op::FMul, x, inv), W, 3); Interp::setv(r[0], mkfbin(Op::FSub, x, mkfbin(Op::FMul, q, d))); return 0; }
  Interp::setv(r[0], mkfbin(Op::FRem, I.ex(a[0], W), I.ex(a[1], W))); return 0; }
// exceptions
static int x_alloc(IR I, CI, Val *a, unsigned, Val *r) { u64 n = I.conc(a[0]), h = g_heap_live; u64 p = arena_alloc(n); g_heap_live = h; R64(r, p); return 0; } // exception objects do not count as heap memory
static int x_freeex(IR I, CI, Val *a, unsigned, Val *r) { const char *e; u64 h = g_heap_live; if (in_arena(a[0].lo)) arena_free(a[0].lo, &e); g_heap_live = h; return 0; }
static int x_throw(IR I, CI, Val *a, unsigned, Val *r) { I.do_throw(a[0].lo, a[1].lo, a[2].lo, false); return 1; }
static int x_begin(IR I, CI, Val *a, unsigned, Val *r) { Exc *x = I.excs[a[0].lo]; if (!x) I.incomplete("begin_catch of unknown exception"); x->handlers = (x->handlers < 0 ? -x->handlers : x->handlers) + 1; if (I.caught.empty() || I.caught.back() != x) I.caught.push_back(x); R64(r, x->adjusted); return 0; }
static int x_getptr(IR I, CI, Val *a, unsigned, Val *r) { Exc *x = I.excs[a[0].lo]; R64(r, x ? x->adjusted : 0); return 0; }
static int x_end(IR I, CI ci, Val *a, unsigned, Val *r) {
  if (I.caught.empty()) return 0; Exc *x = I.caught.back();
  if (x->handlers < 0) { if (++x->handlers == 0) I.caught.pop_back(); return 0; }
  if (--x->handlers == 0) {
    I.caught.pop_back(); I.excs.erase(x->obj);
    if (!x->native && x->dtor) { FuncRef *f = prog_func_at(x->dtor); if (f && prog_has_body(f)) { Val v = {x->obj, 0, nullptr}; I.push(f, nullptr, &v, 1); return 1; } g_guest = 1; ((void (*)(void *))x->dtor)((void *)x->obj); g_guest = 0; }
  }
  return 0;
}
static int x_rethrow(IR I, CI, Val *a, unsigned, Val *r) { if (I.caught.empty()) I.violation("crash", "rethrow without an active exception"); Exc *x = I.caught.back(); x->handlers = -x->handlers; I.unwind(x); return 1; }
static int x_uncaught(IR I, CI, Val *a, unsigned, Val *r) { R64(r, 0); return 0; }
static int x_terminate(IR I, CI, Val *a, unsigned, Val *r) { I.violation("crash", "std::terminate called"); }
static int x_abort(IR I, CI, Val *a, unsigned, Val *r) { I.violation("crash", "abort called"); }
static int x_pure(IR I, CI, Val *a, unsigned, Val *r) { I.violation("crash", "pure virtual call"); }
static int x_assert(IR I, CI, Val *a, unsigned, Val *r) { I.violation("crash", std::string("assertion failed: ") + (const char *)a[0].lo + " at " + (const char *)a[1].lo + ":" + std::to_string((int)a[2].lo)); }
static int x_exit(IR I, CI, Val *a, unsigned, Val *r) { I.violation("crash", "exit called"); }
static int x_atexit(IR I, CI, Val *a, unsigned, Val *r) { R64(r, 0); return 0; }

// ---- harness API
static Expr *newvar(IR I, unsigned w, const std::string &name) { Expr *e = mkvar(w, name, 0); I.inputs.push_back({name, {w, e}}); return e; }
static u128 nextin(IR I, const std::string &name, unsigned w) {
  u128 v = 0; if (I.rpos < I.rin.size()) { if (I.rin[I.rpos].first != name) I.incomplete("replay input mismatch: expected " + I.rin[I.rpos].first + " got " + name); v = I.rin[I.rpos].second; }
  I.rpos++; I.inputs.push_back({name, {w, mkconst(v, w)}}); return v & mask128(w);
}
static int s_make(IR I, CI, Val *a, unsigned, Val *r) {
  u64 p = a[0].lo, n = I.conc(a[1]); const char *nm = (const char *)a[2].lo; I.check_range(p, n, true);
  for (u64 i = 0; i < n; i++) { std::string s = std::string(nm) + "[" + std::to_string(i) + "]"; if (I.replaying) { sh_clear(p + i, 1); *(u8 *)(p + i) = (u8)nextin(I, s, 8); } else { Expr *e = newvar(I, 8, s); sh_clear(p + i, 1); *(u8 *)(p + i) = 0; sh_set(p + i, e, 0); } }
  return 0;
}
template <int W> static int s_int(IR I, CI, Val *a, unsigned, Val *r) { std::string s = (const char *)a[0].lo; if (I.replaying) { R64(r, (u64)nextin(I, s, W)); return 0; } Interp::setv(r[0], newvar(I, W, s)); return 0; }
static int s_choice(IR I, CI, Val *a, unsigned, Val *r) {
  u64 n = I.conc(a[0]); std::string s = (const char *)a[1].lo; if (I.replaying) { R64(r, (u64)nextin(I, s, 32)); return 0; }
  Expr *e = newvar(I, 32, s); if (n == 0) I.finish(1); I.assume_true(mkbin(Op::Ult, e, mkconst(n, 32))); R64(r, (u64)I.concretize(e)); return 0;
}
static int s_assume(IR I, CI, Val *a, unsigned, Val *r) {
  if (!a[0].e) { if (!(u32)a[0].lo) I.finish(1); return 0; }
  Expr *c = mknot(mkbin(Op::Eq, a[0].e, mkconst(0, a[0].e->w)));
  if (isc(c)) { if (!cval(c)) I.finish(1); return 0; }
  if (eval(c)) { I.add_pc(c); return 0; }
  auto it = I.known.find(c); if (it != I.known.end() && !it->second) I.finish(1);
  ModelDelta m; Res q = I.feasible(c, m); if (q == R_UNSAT) I.finish(1); if (q == R_UNK) I.incomplete("assumption undecided"); I.install(m); I.add_pc(c); return 0;
}
static int s_assert(IR I, CI, Val *a, unsigned, Val *r) {
  SH->e[g_entry].asserts++;
  if (!a[0].e) { if (!(u32)a[0].lo) I.violation("assert", (const char *)a[1].lo); return 0; }
  SH->e[g_entry].asserts_sym++;
  Expr *c = mknot(mkbin(Op::Eq, a[0].e, mkconst(0, a[0].e->w)));
  if (!I.branch(c)) I.violation("assert", (const char *)a[1].lo); return 0;
}
static int s_reach(IR I, CI, Val *a, unsigned, Val *r) { note_reach((const char *)a[0].lo); return 0; }
static int s_conc(IR I, CI, Val *a, unsigned, Val *r) { R64(r, I.conc(a[0])); return 0; }
static int s_concbytes(IR I, CI, Val *a, unsigned, Val *r) { I.pin_range(a[0].lo, I.conc(a[1])); return 0; }
static int s_fork(IR I, CI, Val *a, unsigned, Val *r) { // decide a condition now: returns a concrete 0/1
  if (!a[0].e) { R64(r, (u32)a[0].lo != 0); return 0; } R64(r, I.branch(mknot(mkbin(Op::Eq, a[0].e, mkconst(0, a[0].e->w))))); return 0; }
static int s_issym(IR I, CI, Val *a, unsigned, Val *r) { R64(r, a[0].e != nullptr); return 0; }
static int s_tier(IR I, CI, Val *a, unsigned, Val *r) { R64(r, opt.tier); return 0; }
static int s_ok(IR I, CI, Val *a, unsigned, Val *r) { I.finish(0); }
static int s_lazy(IR I, CI, Val *a, unsigned, Val *r) { I.lazy_ptr = (u32)a[0].lo != 0; return 0; }
static int s_pin(IR I, CI, Val *a, unsigned, Val *r) { int m = (int)(u32)a[0].lo; I.pin_mode = m > 0; I.exact_io = m < 0; return 0; }
static int s_print(IR I, CI, Val *a, unsigned, Val *r) { fprintf(stderr, "[guest] %s %llx %s\n", (const char *)a[0].lo, (unsigned long long)a[1].lo, a[1].e ? estr(a[1].e).c_str() : ""); return 0; }

#define A(n, f) tab[n] = f
void register_intercepts() {
  A("malloc", f_malloc); A("calloc", f_calloc); A("free", f_free); A("realloc", f_realloc);
  for (const char *n : {"_Znwm", "_Znam"}) A(n, f_new); for (const char *n : {"_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) A(n, f_newnt); for (const char *n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) A(n, f_newal);
  for (const char *n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) A(n, f_free);
  A("memcpy", f_memcpy); A("memmove", f_memcpy); A("memset", f_memset); A("memcmp", f_memcmp); A("bcmp", f_memcmp);
  A("strlen", f_strlen); A("strcmp", f_strcmp); A("strncmp", f_strncmp); A("memchr", f_memchr); A("strchr", f_strchr); A("strcpy", f_strcpy);
  A("isspace", f_ctype<isspace>); A("isdigit", f_ctype<isdigit>); A("isalpha", f_ctype<isalpha>); A("isalnum", f_ctype<isalnum>); A("isupper", f_ctype<isupper>); A("islower", f_ctype<islower>); A("isxdigit", f_ctype<isxdigit>); A("isprint", f_ctype<isprint>); A("ispunct", f_ctype<ispunct>); A("iscntrl", f_ctype<iscntrl>); A("isgraph", f_ctype<isgraph>); A("tolower", f_ctype<tolower>); A("toupper", f_ctype<toupper>);
  A("feclearexcept", f_feclear); A("fetestexcept", f_fetest);
  A("floor", (f_round<1, 64>)); A("floorf", (f_round<1, 32>)); A("ceil", (f_round<2, 64>)); A("ceilf", (f_round<2, 32>)); A("trunc", (f_round<3, 64>)); A("truncf", (f_round<3, 32>)); A("rint", (f_round<0, 64>)); A("rintf", (f_round<0, 32>)); A("nearbyint", (f_round<0, 64>)); A("nearbyintf", (f_round<0, 32>)); A("round", (f_round<4, 64>)); A("roundf", (f_round<4, 32>));
  A("sqrt", f_sqrt<64>); A("sqrtf", f_sqrt<32>); A("fabs", f_fabs<64>); A("fabsf", f_fabs<32>); A("fmod", f_fmod<64>); A("fmodf", f_fmod<32>);
  A("__cxa_allocate_exception", x_alloc); A("__cxa_free_exception", x_freeex); A("__cxa_throw", x_throw); A("__cxa_begin_catch", x_begin); A("__cxa_end_catch", x_end); A("__cxa_rethrow", x_rethrow); A("__cxa_get_exception_ptr", x_getptr);
  A("_ZSt18uncaught_exceptionv", x_uncaught); A("_ZSt19uncaught_exceptionsv", x_uncaught); A("_ZSt9terminatev", x_terminate); A("__clang_call_terminate", x_terminate); A("abort", x_abort); A("__cxa_pure_virtual", x_pure); A("__assert_fail", x_assert); A("exit", x_exit); A("_exit", x_exit); A("__cxa_atexit", x_atexit);
  A("sym_heap", [](IR I, CI, Val *, unsigned, Val *r) { R64(r, g_heap_live); return 0; });
  A("sym_make", s_make); A("sym_u8", s_int<8>); A("sym_u16", s_int<16>); A("sym_u32", s_int<32>); A("sym_u64", s_int<64>); A("sym_choice", s_choice); A("sym_assume", s_assume); A("sym_assert", s_assert); A("sym_reach", s_reach); A("sym_concretize", s_conc); A("sym_concretize_bytes", s_concbytes); A("sym_fork", s_fork); A("sym_is_symbolic", s_issym); A("sym_tier", s_tier); A("sym_ok", s_ok); A("sym_print", s_print); A("sym_pin_iostream", s_pin); A("sym_lazy_pointers", s_lazy);
}
// Decimal text of a symbolic integer: forks on the sign and the number of digits only; the digits are fresh symbols bound to the value by the sum which defines them
template <bool SIGNED> static int f_insert_int(IR I, CI ci, Val *a, unsigned, Val *r) {
  static FuncRef *self = prog_func(SIGNED ? "_ZNSo9_M_insertIlEERSoT_" : "_ZNSo9_M_insertImEERSoT_"), *ins = prog_func("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
  std::ostream *os = (std::ostream *)I.conc(a[0]); if (I.replaying || (os->flags() & (std::ios::basefield | std::ios::showpos)) != std::ios::dec || !prog_has_body(ins)) { I.push(self, &ci, a, 2); return 1; }
  if (!a[1].e) { // also here: the native formatter would leave symbolic bytes of earlier text where it writes
    char t[32]; int n = SIGNED ? snprintf(t, 32, "%lld", (long long)a[1].lo) : snprintf(t, 32, "%llu", (unsigned long long)a[1].lo); u64 h = g_heap_live, b = arena_alloc(n); g_heap_live = h; sh_clear(b, n); memcpy((void *)b, t, n);
    Val w[3] = {{(u64)os, 0, nullptr}, {b, 0, nullptr}, {(u64)n, 0, nullptr}}; I.push(ins, &ci, w, 3); return 1; }
  Expr *x = a[1].e; bool neg = SIGNED && I.branch(mkbin(Op::Slt, x, mkconst(0, 64))); if (neg) x = mkbin(Op::Sub, mkconst(0, 64), x);
  int n = 1; u128 p = 10; while (n < 20 && I.branch(mkbin(Op::Ule, mkconst(p, 64), x))) { n++; p *= 10; }
  u64 v = (u64)eval(x), h = g_heap_live, b = arena_alloc(n + 1); g_heap_live = h; *(char *)b = '-'; Expr *sum = nullptr; static int serial = 0; std::vector<Expr *> ds;
  for (int i = 0; i < n; i++) {
    u64 q = 1; for (int j = i + 1; j < n; j++) q *= 10; u64 dv = v / q % 10; Expr *d = mkvar(4, "digit" + std::to_string(serial++), dv); I.assume_true(mkbin(Op::Ult, d, mkconst(10, 4))); ds.push_back(d);
    unsigned W = i < 19 ? 64 : 128; Expr *w = mkzext(d, W); sum = sum ? mkbin(Op::Add, mkbin(Op::Mul, W > 64 ? mkzext(sum, W) : sum, mkconst(10, W)), w) : w; sh_clear(b + 1 + i, 1); *(char *)(b + 1 + i) = '0' + dv; sh_set(b + 1 + i, mkbin(Op::Add, mkzext(d, 8), mkconst('0', 8)), 0);
  }
  I.assume_true(mkbin(Op::Eq, sum, n < 20 ? x : mkzext(x, 128)));
  // the same fact in the forms and widths in which readers of the text meet it
  for (unsigned W : {64u, 32u, 16u}) { if (n > (W == 64 ? 20 : W == 32 ? 10 : 5)) continue; Expr *h = nullptr, *y = mkextract(x, 0, W), *o = mkextract(a[1].e, 0, W); for (Expr *d : ds) h = h ? mkbin(Op::Add, mkbin(Op::Mul, h, mkconst(10, W)), mkzext(d, W)) : mkzext(d, W); I.assume_true(mkbin(Op::Eq, h, y)); if (neg) I.assume_true(mkbin(Op::Eq, o, mkbin(Op::Sub, mkconst(0, W), h))); }
  Val w[3] = {{(u64)os, 0, nullptr}, {b + !neg, 0, nullptr}, {(u64)(n + neg), 0, nullptr}}; I.push(ins, &ci, w, 3); return 1;
}
// Values printed into the text of an error message are not computed unless the harness asks for exact streams
static int s_skipout(IR I, CI, Val *a, unsigned, Val *r) { R64(r, a[0].lo); return 0; }
Intercept find_intercept(const std::string &n) {
  if (n == "_ZN4dyndlsERSoRKNS_7uint128E" || n == "_ZN4dyndlsERSoRKNS_6int128E") return IP->pin_mode ? s_skipout : nullptr;
  if (IP->exact_io && n == "_ZNSo9_M_insertIlEERSoT_") return f_insert_int<true>; if (IP->exact_io && n == "_ZNSo9_M_insertImEERSoT_") return f_insert_int<false>;
  auto it = tab.find(n); return it == tab.end() ? nullptr : it->second; }
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool iosy(const std::string &n) {
  if (!(starts(n, "_ZNSt") || starts(n, "_ZNKSt") || starts(n, "_ZSt") || starts(n, "_ZNSo") || starts(n, "_ZNKSo") || starts(n, "_ZNSi") || starts(n, "_ZNSd") || starts(n, "_ZNSs"))) return false;
  for (const char *k : {"basic_ostream", "basic_ios", "basic_stringbuf", "basic_streambuf", "basic_stringstream", "basic_ostringstream", "basic_istringstream", "basic_istream", "basic_iostream", "num_put", "num_get", "ios_base", "_ZNSo", "_ZNKSo", "_ZNSi", "_ZStlsI", "__ostream_insert", "__ostream_fill", "ostreambuf_iterator", "istreambuf_iterator", "_ZSt4endl", "_ZSt5flush", "numpunct", "use_facet", "has_facet", "use_cache", "_ZNSt6locale"}) if (n.find(k) != std::string::npos) return true;
  return false;
}
int native_policy(const std::string &n) {
  if (starts(n, "_ZSt11_Hash_bytes")) return 0;
  if ((starts(n, "_ZNSt7__cxx1112basic_string") || starts(n, "_ZNKSt7__cxx1112basic_string")) && !iosy(n)) return 0;
  if (starts(n, "_ZNSt") || starts(n, "_ZNKSt") || starts(n, "_ZSt") || starts(n, "_ZNSo") || starts(n, "_ZNSi") || starts(n, "_ZNKSo")) return 1;
  if (starts(n, "__cxa") || starts(n, "__dynamic_cast") || starts(n, "pthread") || starts(n, "__gxx")) return 2;
  return 0;
}
bool prefer_native(const std::string &n) { return IP->pin_mode && iosy(n); }
