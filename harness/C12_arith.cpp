//@property C12
//@bound every value of both operands, every pair of the eight integer types, bool, float32 and float64; scalars, and two-element arrays with a scalar or an array for a subset of pairs
//@assume integer shifts by a negative count or by the width or more (undefined in C++) are not asserted
//@assume pow and cbrt (libm), float16, float128, int128 and uint128 are not covered
//@entry int_ops reach=ok,zero
//@entry int_divmod reach=ok,zero
//@entry float_ops reach=ok
//@entry logic_ops reach=ok
//@entry unary_ops reach=ok
//@entry complex_ops reach=ok
//@entry array_ops reach=ok
//@entry no_overload reach=threw
//@entry div_min
#include "num.h"
#include <dynd/arithmetic.hpp>
#include <dynd/types/var_dim_type.hpp>
extern "C" void sym_setup() { num_setup(); }
#define val num_val
enum { ADD, SUB, MUL, AND, OR, XOR, SHL, SHR, DIV, MOD, LAND, LOR, LXOR, NOPS };
static const char *const on[] = {"add", "subtract", "multiply", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift", "divide", "mod", "logical_and", "logical_or", "logical_xor"};
static nd::callable &op_of(int o) { switch (o) { case ADD: return nd::add; case SUB: return nd::subtract; case MUL: return nd::multiply; case AND: return nd::bitwise_and; case OR: return nd::bitwise_or; case XOR: return nd::bitwise_xor; case SHL: return nd::left_shift; case SHR: return nd::right_shift; case DIV: return nd::divide; case MOD: return nd::mod; case LAND: return nd::logical_and; case LOR: return nd::logical_or; default: return nd::logical_xor; } }
template <class R> static bool ieq(int o, R a, R b, const char *got) {
  R r; switch (o) { case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break; case DIV: r = a / b; break; default: r = a % b; } return *(const R *)got == r;
}
template <class R> static bool feq(int o, R a, R b, const char *got) { R r, g = *(const R *)got; switch (o) { case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break; default: r = a / b; } return same_bits(r, g) | ((r != r) & (g != g)); }
static bool right(int o, int ta, const char *a, int tb, const char *b, const char *got) {
  int c = common(ta, tb);
#define L(R) ld<R>(ta, a), ld<R>(tb, b), got
  if (o == SHL || o == SHR) {
    int w = tsz[prom(ta)] * 8; int64_t n = ld<int64_t>(tb, b); if (n < 0 || n >= w) return true;
    switch (prom(ta)) { case I32: { int32_t x = ld<int32_t>(ta, a); return *(int32_t *)got == (o == SHL ? (int32_t)((uint32_t)x << n) : x >> n); } case U32: { uint32_t x = ld<uint32_t>(ta, a); return *(uint32_t *)got == (o == SHL ? x << n : x >> n); }
    case I64: { int64_t x = ld<int64_t>(ta, a); return *(int64_t *)got == (o == SHL ? (int64_t)((uint64_t)x << n) : x >> n); } default: { uint64_t x = ld<uint64_t>(ta, a); return *(uint64_t *)got == (o == SHL ? x << n : x >> n); } }
  }
  if (o >= LAND) { bool x = ta >= F32 ? ld<double>(ta, a) != 0 : ld<uint64_t>(ta, a) != 0, y = tb >= F32 ? ld<double>(tb, b) != 0 : ld<uint64_t>(tb, b) != 0; if (o == LXOR) return *(const int32_t *)got == (x ^ y); return *(const uint8_t *)got == (uint8_t)(o == LAND ? x & y : x | y); }
  switch (c) { case I32: return ieq<int32_t>(o, L(int32_t)); case U32: return ieq<uint32_t>(o, L(uint32_t)); case I64: return ieq<int64_t>(o, L(int64_t)); case U64: return ieq<uint64_t>(o, L(uint64_t)); case F32: return feq<float>(o, L(float)); default: return feq<double>(o, L(double)); }
}
static int rtype(int o, int ta, int tb) { return o == LXOR ? (int)I32 : o >= LAND ? (int)B : o == SHL || o == SHR ? prom(ta) : common(ta, tb); }
static void one(int o, int ta, const nd::array &a, int tb, const nd::array &b) {
  nd::array r; int t = threw([&] { r = op_of(o)(a, b); });
  const char *m = msg(on[o], " of ", tn[ta], " and ", tn[tb]); char mm[200]; strcpy(mm, m);
  bool zero = (o == DIV || o == MOD) && ta < F32 && tb < F32 && ld<uint64_t>(tb, b.cdata()) == 0;
  if (t) { sym_assert(zero, msg(mm, " raised")); sym_reach("zero"); return; }
  sym_assert(!zero, msg(mm, ": division by zero not raised"));
  int rt = rtype(o, ta, tb); sym_assert(r.get_type() == nty[rt], msg(mm, ": result type"));
  sym_assert(right(o, ta, a.cdata(), tb, b.cdata(), r.cdata()), msg(mm, ": wrong value")); sym_reach("ok");
}
SYM_ENTRY(int_ops) { int ta = sym_choice(9, "a"), tb = sym_choice(9, "b"); nd::array a = val(ta, "x"), b = val(tb, "y"); for (int o = ADD; o <= SHR; o++) if (o < SHL || ta) one(o, ta, a, tb, b); sym_reach("zero"); }
SYM_ENTRY(int_divmod) {
  int ta = sym_choice(9, "a"), tb = sym_choice(9, "b"); nd::array a = val(ta, "x"), b = val(tb, "y"); int c = common(ta, tb);
  if (c == I32) sym_assume(!((ld<int32_t>(ta, a.cdata()) == INT32_MIN) & (ld<int32_t>(tb, b.cdata()) == -1))); if (c == I64) sym_assume(!((ld<int64_t>(ta, a.cdata()) == INT64_MIN) & (ld<int64_t>(tb, b.cdata()) == -1)));
  one(DIV, ta, a, tb, b); one(MOD, ta, a, tb, b);
}
SYM_ENTRY(float_ops) { int k = sym_choice(40, "pair"); int ta = k < 22 ? k % 11 : 9 + (k - 22) % 2, tb = k < 22 ? 9 + k / 11 : (k - 22) / 2; nd::array a = val(ta, "x"), b = val(tb, "y"); one(ADD, ta, a, tb, b); one(SUB, ta, a, tb, b); one(MUL, ta, a, tb, b); one(DIV, ta, a, tb, b); }
SYM_ENTRY(logic_ops) { int ta = sym_choice(11, "a"), tb = sym_choice(11, "b"); nd::array a = val(ta, "x"), b = val(tb, "y"); for (int o = LAND; o <= LXOR; o++) one(o, ta, a, tb, b); }
SYM_ENTRY(unary_ops) {
  int t = 1 + sym_choice(10, "a"); nd::array a = val(t, "x"), r; int p = prom(t); const char *x = a.cdata();
  r = nd::plus(a); sym_assert(r.get_type() == nty[p], "plus: result type"); if (t < F32) sym_assert(ld<uint64_t>(p, r.cdata()) == ld<uint64_t>(t, x), msg("plus: wrong value for ", tn[t])); else sym_assert(!memcmp(r.cdata(), x, tsz[t]), msg("plus: wrong value for ", tn[t]));
  r = nd::minus(a); sym_assert(r.get_type() == nty[p], "minus: result type");
  if (t < F32) sym_assert(ld<int64_t>(p, r.cdata()) == (p == I32 ? (int64_t)(int32_t)(0 - ld<uint32_t>(t, x)) : p == U32 ? (int64_t)(0 - ld<uint32_t>(t, x)) : (int64_t)(0 - ld<uint64_t>(t, x))), msg("minus: wrong value for ", tn[t])); else if (t == F32) sym_assert(*(uint32_t *)r.cdata() == (*(uint32_t *)x ^ 0x80000000u), "minus: wrong value for float32"); else sym_assert(*(uint64_t *)r.cdata() == (*(uint64_t *)x ^ (1ull << 63)), "minus: wrong value for float64");
  r = nd::logical_not(a); sym_assert(r.get_type() == ndt::make_type<bool1>(), "logical_not: result type"); sym_assert(*(uint8_t *)r.cdata() == (uint8_t)(t < F32 ? ld<uint64_t>(t, x) == 0 : ld<double>(t, x) == 0), msg("logical_not: wrong value for ", tn[t]));
  if (t && t < F32) { r = nd::bitwise_not(a); sym_assert(r.get_type() == nty[p], "bitwise_not: result type"); sym_assert(ld<uint64_t>(p, r.cdata()) == (p == U32 ? (uint64_t)(uint32_t)~ld<uint32_t>(t, x) : ~ld<uint64_t>(t, x)), msg("bitwise_not: wrong value for ", tn[t])); }
  if (t == F64) { r = nd::sqrt(a); double s = sqrt(*(double *)x); sym_assert(same_bits(s, *(double *)r.cdata()) | ((s != s) & (*(double *)r.cdata() != *(double *)r.cdata())), "sqrt: wrong value"); }
  if (t == F32) { r = nd::sqrt(a); float s = sqrtf(*(float *)x); sym_assert(same_bits(s, *(float *)r.cdata()) | ((s != s) & (*(float *)r.cdata() != *(float *)r.cdata())), "sqrt: wrong value"); }
  sym_reach("ok");
}
template <class T> static bool feqn(T a, T b) { return same_bits(a, b) | ((a != a) & (b != b)); }
template <class T> static void cplx(const char *n) {
  typedef dynd::complex<T> C; nd::array a = nd::empty(ndt::make_type<C>()), b = nd::empty(ndt::make_type<C>()), r; sym_make(a.data(), sizeof(C), "x"); sym_make(b.data(), sizeof(C), "y"); T *x = (T *)a.data(), *y = (T *)b.data();
  r = nd::add(a, b); sym_assert(r.get_type() == ndt::make_type<C>(), "complex add: result type"); T *g = (T *)r.data(); sym_assert(feqn<T>(g[0], x[0] + y[0]) & feqn<T>(g[1], x[1] + y[1]), msg("add: wrong value for ", n));
  r = nd::subtract(a, b); g = (T *)r.data(); sym_assert(feqn<T>(g[0], x[0] - y[0]) & feqn<T>(g[1], x[1] - y[1]), msg("subtract: wrong value for ", n));
  nd::array s = nd::empty(ndt::make_type<T>()); sym_make(s.data(), sizeof(T), "s"); T v = *(T *)s.data();
  r = nd::minus(a); g = (T *)r.data(); sym_assert(feqn<T>(g[0], -x[0]) & feqn<T>(g[1], -x[1]), msg("minus: wrong value for ", n));
  sym_reach("ok"); (void)v;
}
SYM_ENTRY(complex_ops) { if (sym_choice(2, "type")) cplx<float>("complex64"); else cplx<double>("complex128"); }
// arrays: [2] op [2], [2] op scalar, scalar op [2], also through a reversed view and a variable-sized dimension
SYM_ENTRY(array_ops) {
  static const int pa[] = {I32, I8, U16, I64, F32, U8}, pb[] = {I32, U8, I64, U32, F32, I16}; int k = sym_choice(6, "pair"), ta = pa[k], tb = pb[k], sh = sym_choice(5, "shape"), o = (k == 4 ? (int)sym_choice(3, "op") : (int)sym_choice(6, "op"));
  nd::array a, b, av, bv;
  auto mk = [&](int t, bool arr, const char *nm) { nd::array x = arr ? nd::empty(ndt::make_fixed_dim(2, nty[t])) : nd::empty(nty[t]); sym_make(x.data(), (arr ? 2 : 1) * tsz[t], nm); return x; };
  a = mk(ta, sh != 2, "x"); b = mk(tb, sh != 1, "y"); av = a; bv = b; if (sh == 3) av = a(irange(std::numeric_limits<intptr_t>::min(), std::numeric_limits<intptr_t>::max(), -1)); if (sh == 4) { bv = nd::empty(ndt::make_type<ndt::var_dim_type>(nty[tb])); bv.assign(b); }
  nd::array r = op_of(o)(av, bv); int rt = rtype(o, ta, tb); char mm[200]; strcpy(mm, msg("array ", on[o], " of ", tn[ta], " and ", tn[tb]));
  sym_assert(r.get_dtype() == nty[rt] && r.get_ndim() == 1 && r.get_dim_size() == 2, msg(mm, ": result type"));
  for (int i = 0; i < 2; i++) { nd::array e = r(i); sym_assert(right(o, ta, a.cdata() + (sh == 2 ? 0 : sh == 3 ? 1 - i : i) * tsz[ta], tb, b.cdata() + (sh == 1 ? 0 : i) * tsz[tb], e.cdata()), msg(mm, ": wrong element")); }
  sym_reach("ok");
}
SYM_ENTRY(no_overload) { // operations the operands do not support are refused
  int k = sym_choice(4, "case"); nd::array r; int t = threw([&] { switch (k) { case 0: r = nd::bitwise_and(nd::array(1.5), nd::array(2)); break; case 1: r = nd::mod(nd::array(1.5), nd::array(2.0)); break; case 2: r = nd::left_shift(nd::array(1), nd::array(2.0)); break; default: r = nd::add(nd::array(1), nd::array(ndt::type("int32"))); } });
  sym_assert(t, "operation accepted on types without it"); sym_reach("threw");
}
SYM_ENTRY(div_min) { // INT_MIN / -1 and INT_MIN % -1
  bool wide = sym_choice(2, "wide"); nd::array a = wide ? nd::array((int64_t)INT64_MIN) : nd::array((int32_t)INT32_MIN), b = wide ? nd::array((int64_t)-1) : nd::array((int32_t)-1), r; int o = sym_choice(2, "mod"); threw([&] { r = o ? nd::mod(a, b) : nd::divide(a, b); }); sym_reach("ok");
}
