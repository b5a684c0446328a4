//@property C13
//@bound every value of both operands for every pair of the eleven built-in numeric types and all six operators; strings of up to 3 bytes of any value, and 18-byte strings with 2 free bytes; nine tuple/struct shapes of up to 12 fields with free field values; two-element arrays, scalar against array, reversed and variable-sized operands
//@assume complex, float16, float128, int128 and uint128 operands are not covered
//@entry scalars reach=t,f
//@entry strings reach=t,f
//@entry long_strings reach=t,f
//@entry tuples reach=t,f,threw
//@entry arrays reach=t,f
//@entry reduced reach=t,f
//@entry ordering reach=t,f
//@entry unsupported reach=threw
#include "num.h"
#include <dynd/comparison.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/string_type.hpp>
namespace dynd { namespace nd { extern DYND_API callable total_order; } }
enum { EQ, NE, LT, LE, GT, GE };
static const char *const on[] = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"};
static nd::callable &op_of(int o) { switch (o) { case EQ: return nd::equal; case NE: return nd::not_equal; case LT: return nd::less; case LE: return nd::less_equal; case GT: return nd::greater; default: return nd::greater_equal; } }
template <class R> static bool cmp(int o, R a, R b) { switch (o) { case EQ: return a == b; case NE: return a != b; case LT: return a < b; case LE: return a <= b; case GT: return a > b; default: return a >= b; } }
static bool want(int o, int ta, const char *a, int tb, const char *b) {
#define L(R) cmp<R>(o, ld<R>(ta, a), ld<R>(tb, b))
  switch (common(ta, tb)) { case I32: return L(int32_t); case U32: return L(uint32_t); case I64: return L(int64_t); case U64: return L(uint64_t); case F32: return L(float); default: return L(double); }
}
static void check(const nd::array &r, bool w, const char *what) { sym_assert(r.get_type() == nty[B], msg(what, ": result type")); uint8_t g = *(const uint8_t *)r.cdata(); char m[240]; strcpy(m, what); sym_assert(g == (uint8_t)w, msg(m, ": wrong answer")); }
static void seen(bool w) { if (w) sym_reach("t"); else sym_reach("f"); }
struct shape { const char *a, *b; int na, nb; };
// tuple and struct comparisons: {type of left, type of right}
static const char *const tp[][2] = {
  {"(int32, int16)", "(int32, int16)"}, {"(int8, int64, uint16)", "(int64, int8, int32)"}, {"{x: int32, y: float64}", "{x: int32, y: float64}"}, {"{x: uint8, y: uint8}", "{x: int64, y: int16}"},
  {"(int8, (int8, int8))", "(int8, (int8, int64))"}, {"(int32, {a: int16, b: (uint8, int64)})", "(int64, {a: int64, b: (int32, uint8)})"},
  {"(int8, int8, int8, int8, int8, int8, int8, int8, int8, int8)", "(int8, int8, int8, int8, int8, int8, int8, int8, int16, int8)"},
  {"{a: int8, b: int8, c: int8, d: int8, e: int8, f: int8, g: int8, h: int8, i: int8, j: int8, k: int8, l: int8}", "{a: int8, b: int8, c: int8, d: int8, e: int8, f: int8, g: int8, h: int8, i: int8, j: int8, k: int8, l: int8}"}, {"(int32)", "(int32)"}};
enum { NTP = 9 };
static ndt::type tpt[NTP][2], tpa[NTP], tshort, sshort, str;
extern "C" void sym_setup() { num_setup(); for (int i = 0; i < NTP; i++) { for (int j = 0; j < 2; j++) tpt[i][j] = ndt::type(tp[i][j]); tpa[i] = ndt::make_fixed_dim(2, tpt[i][0]); } tshort = ndt::type("(int32)"); sshort = ndt::type("{x: int32}"); str = ndt::make_type<dynd::string>(); }
SYM_ENTRY(scalars) {
  int ta = sym_choice(11, "a"), tb = sym_choice(11, "b"); nd::array a = num_val(ta, "x"), b = num_val(tb, "y"), r;
  for (int o = EQ; o <= GE; o++) { char m[200]; strcpy(m, msg(on[o], " of ", tn[ta], " and ", tn[tb])); int t = threw([&] { r = op_of(o)(a, b); }); sym_assert(!t, msg(m, ": raised")); if (t) return; check(r, want(o, ta, a.cdata(), tb, b.cdata()), m); }
  seen(want(EQ, ta, a.cdata(), tb, b.cdata()));
}
static nd::array mkstr(const char *p, size_t n) { nd::array a = nd::empty(str); ((dynd::string *)a.data())->assign(p, n); return a; }
static int lex(const unsigned char *a, size_t n, const unsigned char *b, size_t m) { for (size_t i = 0; i < n && i < m; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return n < m ? -1 : n > m; }
static void strcheck(const nd::array &a, const nd::array &b, int c) {
  for (int o = EQ; o <= GE; o++) check(op_of(o)(a, b), cmp<int>(o, c, 0), msg(on[o], " of strings"));
  nd::array r = nd::total_order(a, b); sym_assert(r.as<int>() == (c < 0), "total_order of strings: wrong answer"); seen(c < 0);
}
SYM_ENTRY(strings) {
  size_t n = sym_choice(4, "n"), m = sym_choice(4, "m"); unsigned char x[4] = {}, y[4] = {}; if (n) sym_make(x, n, "x"); if (m) sym_make(y, m, "y");
  strcheck(mkstr((char *)x, n), mkstr((char *)y, m), lex(x, n, y, m));
}
SYM_ENTRY(long_strings) {
  unsigned char x[18], y[18]; for (int i = 0; i < 18; i++) x[i] = y[i] = 'a' + i; sym_make(x + 7, 1, "x7"); sym_make(y + 16, 1, "y16"); size_t n = 15 + sym_choice(4, "n"), m = 15 + sym_choice(4, "m");
  strcheck(mkstr((char *)x, n), mkstr((char *)y, m), lex(x, n, y, m));
}
static int num_of(const ndt::type &t) { for (int i = 0; i < NT; i++) if (t == nty[i]) return i; sym_assert(false, "harness: not a number"); return 0; }
static bool teq(const nd::array &a, const nd::array &b) { // field by field, through the array interface
  if (a.get_type().get_id() == tuple_id || a.get_type().get_id() == struct_id) { size_t n = a.get_type().extended<ndt::tuple_type>()->get_field_count(); bool e = true; for (size_t i = 0; i < n; i++) e &= teq(a(i), b(i)); return e; }
  return want(EQ, num_of(a.get_type()), a.cdata(), num_of(b.get_type()), b.cdata());
}
SYM_ENTRY(tuples) {
  int k = sym_choice(NTP, "shape"), form = sym_choice(4, "form"); nd::array r;
  if (form == 0) { nd::array a = nd::empty(tpt[k][0]), b = nd::empty(tpt[k][1]); sym_make(a.data(), tpt[k][0].get_default_data_size(), "x"); sym_make(b.data(), tpt[k][1].get_default_data_size(), "y");
    bool e = teq(a, b); check(nd::equal(a, b), e, msg("equal of ", tp[k][0])); check(nd::not_equal(a, b), !e, msg("not_equal of ", tp[k][0])); seen(e); return; }
  if (form == 1) { nd::array a = nd::empty(tpa[k]), b = nd::empty(tpa[k]); size_t s = tpt[k][0].get_default_data_size(); sym_make(a.data(), 2 * s, "x"); sym_make(b.data(), 2 * s, "y");
    nd::array r0 = nd::equal(a, b), r1 = nd::not_equal(a, b); sym_assert(r0.get_ndim() == 1 && r0.get_dim_size() == 2, "equal of arrays of tuples: shape"); for (int i = 0; i < 2; i++) { bool e = teq(a(i), b(i)); check(r0(i), e, msg("equal of arrays of ", tp[k][0])); check(r1(i), !e, msg("not_equal of arrays of ", tp[k][0])); } return; }
  if (k == 8) return; bool st = tpt[k][0].get_id() == struct_id; nd::array a = nd::empty(tpt[k][0]), b = nd::empty(st ? sshort : tshort); sym_make(a.data(), tpt[k][0].get_default_data_size(), "x"); sym_make(b.data(), 4, "y"); bool swap = form == 3;
  for (int o = EQ; o <= NE; o++) { int t = threw([&] { r = swap ? op_of(o)(b, a) : op_of(o)(a, b); }); sym_assert(t, msg(on[o], " accepted different field counts")); } sym_reach("threw");
}
SYM_ENTRY(arrays) {
  static const int pa[] = {I32, I8, U16, F32, B}, pb[] = {I32, U8, I64, F64, I16}; int k = sym_choice(5, "pair"), ta = pa[k], tb = pb[k], sh = sym_choice(5, "shape");
  auto mk = [&](int t, bool arr, const char *nm) { nd::array x = arr ? nd::empty(ndt::make_fixed_dim(2, nty[t])) : nd::empty(nty[t]); sym_make(x.data(), (arr ? 2 : 1) * tsz[t], nm); if (t == B) for (int i = 0; i < 1 + arr; i++) sym_assume(((uint8_t *)x.data())[i] < 2); return x; };
  nd::array a = mk(ta, sh != 2, "x"), b = mk(tb, sh != 1, "y"), av = a, bv = b; if (sh == 3) av = a(irange(std::numeric_limits<intptr_t>::min(), std::numeric_limits<intptr_t>::max(), -1)); if (sh == 4) { bv = nd::empty(ndt::make_type<ndt::var_dim_type>(nty[tb])); bv.assign(b); }
  for (int o = EQ; o <= GE; o++) { nd::array r = op_of(o)(av, bv); char m[200]; strcpy(m, msg(on[o], " of arrays of ", tn[ta], " and ", tn[tb])); sym_assert(r.get_ndim() == 1 && r.get_dim_size() == 2, msg(m, ": shape"));
    for (int i = 0; i < 2; i++) { bool w = want(o, ta, a.cdata() + (sh == 2 ? 0 : sh == 3 ? 1 - i : i) * tsz[ta], tb, b.cdata() + (sh == 1 ? 0 : i) * tsz[tb]); check(r(i), w, m); if (!o) seen(w); } }
}
SYM_ENTRY(reduced) { // all_equal of whole arrays
  static const int pa[] = {I32, I8, F64, I64, B}, pb[] = {I32, U16, F64, F32, B}; int k = sym_choice(5, "pair"), ta = pa[k], tb = pb[k], sh = sym_choice(3, "shape"), n = sh == 0 ? 1 : sh == 1 ? 3 : 4;
  auto mk = [&](int t, const char *nm) { nd::array x = nd::empty(sh == 0 ? nty[t] : sh == 1 ? ndt::make_fixed_dim(3, nty[t]) : ndt::make_fixed_dim(2, ndt::make_fixed_dim(2, nty[t]))); sym_make(x.data(), n * tsz[t], nm); if (t == B) for (int i = 0; i < n; i++) sym_assume(((uint8_t *)x.data())[i] < 2); return x; };
  nd::array a = mk(ta, "x"), b = mk(tb, "y"); bool w = true; for (int i = 0; i < n; i++) w &= want(EQ, ta, a.cdata() + i * tsz[ta], tb, b.cdata() + i * tsz[tb]); check(nd::all_equal(a, b), w, msg("all_equal of ", tn[ta], " and ", tn[tb])); seen(w);
}
SYM_ENTRY(ordering) { // total_order of integers and booleans
  int t = sym_choice(2, "type") ? (int)B : (int)I32; nd::array a = num_val(t, "x"), b = num_val(t, "y"), r = nd::total_order(a, b); bool w = want(LT, t, a.cdata(), t, b.cdata()); sym_assert(r.as<int>() == w, msg("total_order of ", tn[t], ": wrong answer")); seen(w);
}
SYM_ENTRY(unsupported) { // no ordering between a string and a number, or between a type and a number
  int o = sym_choice(6, "op"), k = sym_choice(4, "case"); nd::array r; int t = threw([&] { switch (k) { case 0: r = op_of(o)(nd::array("1"), nd::array(1)); break; case 1: r = op_of(o)(nd::array(1), nd::array("1")); break; case 2: r = op_of(o)(nd::array(1), nd::array(ndt::type("int32"))); break; default: { nd::array x = nd::empty(ndt::make_fixed_dim(2, nty[I32])), y = nd::empty(ndt::make_fixed_dim(3, nty[I32])); r = op_of(o)(x, y); } } });
  sym_assert(t, msg(on[o], " accepted operands it cannot compare")); sym_reach("threw");
}
