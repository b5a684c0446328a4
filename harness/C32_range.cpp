//@property C32
//@bound nd::range and nd::old_range of every start and stop of int8 to int64 and uint8 to uint64 with steps which are powers of two (the lowest value included), other steps for starts and stops in windows at zero and both ends of the type, where they give at most 5 elements; with float32 and float64 bounds which are multiples of the step by small integers, every step at 8 exponents, and bounds and steps which are zero, infinite or not a number; 37 elements of float ranges with steps which are not exact
//@bound nd::old_linspace of 2 to 6 values between every pair of 5-bit integers as float32, float64 and complex numbers
//@entry range_int reach=ok,threw
//@entry range_forms reach=ok,threw
//@entry range_float reach=ok
//@entry range_inexact reach=ok
//@entry range_special reach=ok,threw
//@entry old_range_int reach=ok,threw
//@entry old_range_float reach=ok
//@entry linspace reach=ok
//@entry linspace_ends reach=ok
//@entry linspace_refused reach=threw
#include "num.h"
#include <dynd/range.hpp>
#include <dynd/array_range.hpp>
typedef __int128 W;
static ndt::type tc32, tc64;
extern "C" void sym_setup() { num_setup(); tc32 = ndt::make_type<dynd::complex<float>>(); tc64 = ndt::make_type<dynd::complex<double>>(); nd::range(nd::array(3)); nd::range(nd::array((int64_t)3)); nd::range(nd::array(3.0)); nd::range(nd::array(3.0f)); nd::old_range(3); }
static nd::array val(int t, const void *p) { nd::array a = nd::empty(nty[t]); memcpy(a.data(), p, tsz[t]); return a; }
static W cnt(W a, W b, W s) { if (s > 0) return b <= a ? 0 : (b - a - 1) / s + 1; return b >= a ? 0 : (a - b - 1) / -s + 1; }
// number of elements, at most five, without division: the first k with a + k*s at or beyond b
static int small(W a, W b, W s, int max) { W x = a; for (int k = 0; k <= max; k++, x += s) if (sym_fork(s > 0 ? x >= b : x <= b)) return k; return max + 1; }
static W ldw(int t, const char *p) { return t == U64 ? (W)*(uint64_t *)p : (W)ld<int64_t>(t, p); }
static int want(int t, const char *a, const char *b, const char *s, int max) { return small(ldw(t, a), ldw(t, b), ldw(t, s), max); }
static void elements(const nd::array &r, int t, int k, const char *a, const char *s) { bool ok = r.get_type() == ndt::make_fixed_dim(k, nty[t]); sym_assert(ok, "size or type of a range"); if (!ok) return; W x = ldw(t, a), d = ldw(t, s); for (int i = 0; i < k; i++, x += d) sym_assert(ldw(t, r.cdata() + i * tsz[t]) == x, "element of a range"); }
// A step: powers of two with every start and stop, others with starts and stops near 0 and the ends of the type
static void pick(int t, char *a, char *b, char *s, int form) {
  int bits = 8 * tsz[t]; bool sg = t <= I64; uint64_t top = 1ull << (bits - 1); sym_make(a, 8, "start"); sym_make(b, 8, "stop"); int64_t one = 1; if (form < 2) { memcpy(s, &one, 8); if (!form) memset(a, 0, 8); return; }
  const uint64_t S[] = {1, 4, top >> 1, sg ? top : top, 0, (uint64_t)-1, (uint64_t)-8, 0 - (top >> 1), 3, 10, top - 1, (uint64_t)-3, 0 - (top - 1), (uint64_t)-7}; int i = sym_choice(sym_tier() ? 14 : 12, "step"); uint64_t v = S[i]; if (sg && i == 3) v = 0 - top; memcpy(s, &v, 8); if (i < 8) return;
  static const int B[] = {0, 1, 2}; int h = B[sym_choice(3, "range")]; uint64_t base = h == 0 ? 0 - (uint64_t)(sg ? 64 : 0) : h == 1 ? (sg ? top : top - 64) : sg ? top - 128 : 0 - (uint64_t)128; int wide = i == 10 || i == 12 || (!sg && i > 10); uint64_t x = base + (a[0] & 127), y = (wide ? base + top : base) + (b[0] & 127); memcpy(a, &x, 8); memcpy(b, &y, 8);
}
SYM_ENTRY(range_int) {
  int t = sym_choice(2, "type") ? I64 : I32, z = tsz[t], form = sym_choice(3, "form"), max = sym_tier() ? 5 : 3; char a[8], b[8], s[8]; pick(t, a, b, s, form); W d = ldw(t, s); bool zero = d == 0; int k = 0; if (!sym_fork(zero)) { k = want(t, a, b, s, max); if (k > max) return; } else zero = true;
  nd::array r, A = val(t, a), Bv = val(t, b), S = val(t, s); int e = threw([&] { r = form == 0 ? nd::range(Bv) : form == 1 ? nd::range(A, Bv) : nd::range({}, {{"start", A}, {"stop", Bv}, {"step", S}}); }); sym_assert(e == zero, e ? "a range raises" : "a range with a step of zero is accepted"); if (e || zero) { sym_reach("threw"); return; } elements(r, t, k, a, s); (void)z; sym_reach("ok");
}
SYM_ENTRY(range_forms) { // which of the bounds are given
  int g = sym_choice(8, "given"); int32_t a = (int32_t)sym_choice(3, "start"), b = (int32_t)sym_choice(4, "stop"), s = 1 + sym_choice(2, "step"); std::pair<const char *, nd::array> kw[3]; int n = 0; if (g & 1) kw[n++] = {"start", val(I32, (char *)&a)}; if (g & 2) kw[n++] = {"stop", val(I32, (char *)&b)}; if (g & 4) kw[n++] = {"step", val(I32, (char *)&s)}; bool bad = g == 0 || g == 4 || g == 5; if (g == 1) { b = a; a = 0; } else if (!(g & 1)) a = 0; if (!(g & 4)) s = 1;
  nd::array r; int e = threw([&] { r = nd::range.call(0, (nd::array *)nullptr, n, kw); }); sym_assert(e == bad, e ? "a range raises" : "a range without an end is accepted"); if (e || bad) { sym_reach("threw"); return; } int k = (int)cnt(a, b, s); elements(r, I32, k, (char *)&a, (char *)&s); sym_reach("ok");
}
template <class F> static void fl(int t, bool old) { // start = i*step, stop = j*step: exact numbers
  int i = sym_choice(5, "i") - 2, j = sym_choice(sym_tier() ? 12 : 7, "j") - 3; bool neg = sym_choice(2, "negative step"); static const int E[] = {0, 1, -1, 20, -20, 100, -100, 7}; int ex = E[sym_choice(sym_tier() ? 8 : 3, "exponent")]; F m = (F)(1 + sym_choice(sym_tier() ? 7 : 3, "mantissa")) * (F)__builtin_ldexp(1.0, ex); F s = neg ? -m : m, a = i * s, b = j * s; nd::array r; int k = j > i ? j - i : 0;
  int e = threw([&] { if (old) r = nd::old_range(nty[t], &a, &b, &s); else r = nd::range({}, {{"start", val(t, (char *)&a)}, {"stop", val(t, (char *)&b)}, {"step", val(t, (char *)&s)}}); }); sym_assert(!e, "a range raises"); if (e) return; bool ok = r.get_type() == ndt::make_fixed_dim(k, nty[t]); sym_assert(ok, "size or type of a range"); if (!ok) return; for (int q = 0; q < k; q++) sym_assert(((const F *)r.cdata())[q] == (i + q) * s, "element of a range"); sym_reach("ok");
}
SYM_ENTRY(range_float) { if (sym_choice(2, "type")) fl<float>(F32, false); else fl<double>(F64, false); }
template <class F> static void inex(int t, bool old) { // steps which are not exact: element i is start + i * step, rounded once or twice, never a sum of rounded steps
  static const double A[] = {0, 0.1, -7.3, 1e6}, ST[] = {0.1, -0.3, 1.0 / 3, 0.7e-3, 12.34}; F a = (F)A[sym_choice(4, "start")], s = (F)ST[sym_choice(5, "step")], b; int c = sym_choice(2, "count") ? 37 : 10; b = a + (F)c * s; nd::array r; if (a == (F)1e6 && sizeof(F) == 4) return;
  int e = threw([&] { if (old) r = nd::old_range(nty[t], &a, &b, &s); else r = nd::range({}, {{"start", val(t, (char *)&a)}, {"stop", val(t, (char *)&b)}, {"step", val(t, (char *)&s)}}); }); sym_assert(!e, "a range raises"); if (e) return; int k = r.get_dim_size(); bool ok = r.get_type() == ndt::make_fixed_dim(k, nty[t]); sym_assert(ok, "size or type of a range"); if (!ok) return;
  sym_assert(k == c, "number of elements of a range"); for (int i = 0; i < k && i < 40; i++) { F x = ((const F *)r.cdata())[i]; volatile F d = (F)i * s; F w = a + d; double fused = (double)a + (double)i * (double)s; sym_assert(x == w || x == (F)fused, "element of a range"); } sym_reach("ok");
}
SYM_ENTRY(range_inexact) { bool old = sym_choice(2, "old"); if (sym_choice(2, "type")) inex<float>(F32, old); else inex<double>(F64, old); }
SYM_ENTRY(range_special) { // bounds and steps without a sensible number of elements
  static const double V[] = {0.0, 1.0, -1.0, 2.5, 1e300, -1e300, __builtin_inf(), -__builtin_inf(), __builtin_nan("")}; double a = V[sym_choice(9, "start")], b = V[sym_choice(9, "stop")], s = V[sym_choice(9, "step")]; int old = sym_choice(2, "old"); nd::array r; int e = threw([&] { if (old) r = nd::old_range(nty[F64], &a, &b, &s); else r = nd::range({}, {{"start", val(F64, (char *)&a)}, {"stop", val(F64, (char *)&b)}, {"step", val(F64, (char *)&s)}}); });
  if (e) { sym_assert(!(s != 0 && s - s == 0 && a - a == 0 && b - b == 0 && (b - a) / s < 100), "a range of a few elements raises"); sym_reach("threw"); return; } sym_assert(s == s && a == a && b == b && s != 0, "a range without a number of elements is accepted"); bool isf = r.get_type().get_id() == fixed_dim_id; sym_assert(isf, "type of a range"); if (!isf) return; long k = r.get_dim_size(); if (s > 0 ? b <= a : b >= a) sym_assert(k == 0, "a range which goes the other way has elements"); else { sym_assert(k >= 0 && k < 100, "number of elements of a range"); for (long i = 0; i < k && i < 100; i++) { double x = ((const double *)r.cdata())[i]; sym_assert(x == a + i * s || i == 0, "element of a range"); sym_assert(i == 0 || (s > 0 ? x < b + s : x > b + s), "an element of a range beyond its end"); } } sym_reach("ok");
}
SYM_ENTRY(old_range_int) {
  int t = I8 + sym_choice(8, "type"), max = sym_tier() ? 5 : 3; char a[8], b[8], s[8]; pick(t, a, b, s, 2); bool zero = false; int k = 0; if (sym_fork(ldw(t, s) == 0)) zero = true; else { k = want(t, a, b, s, max); if (k > max) return; } nd::array r; int e = threw([&] { r = nd::old_range(nty[t], a, b, s); }); sym_assert(e == zero, e ? "a range raises" : "a range with a step of zero is accepted"); if (e || zero) { sym_reach("threw"); return; } elements(r, t, k, a, s); sym_reach("ok");
}
SYM_ENTRY(old_range_float) { if (sym_choice(2, "type")) fl<float>(F32, true); else fl<double>(F64, true); }
template <class F> static void lin(int t, int n) { int mk = t == F32 && n == 5 ? 7 : 31; int16_t p = (int16_t)(sym_u32("start") & mk) - 16, q = (int16_t)(sym_u32("stop") & mk) - 16; F a = p, b = q; nd::array r; int e = threw([&] { r = nd::old_linspace(nty[t], &a, &b, n); }); sym_assert(!e, "linspace raises"); if (e) return; bool ok = r.get_type() == ndt::make_fixed_dim(n, nty[t]); sym_assert(ok, "size or type of linspace"); if (!ok) return; int d = n - 1; for (int i = 0; i < n; i++) { F x = ((const F *)r.cdata())[i]; sym_assert(x == (F)((double)((d - i) * p + i * q) / d), "element of linspace"); } sym_reach("ok"); }
SYM_ENTRY(linspace) { static const int N[] = {2, 3, 5, 4, 6}; int n = N[sym_choice(sym_tier() ? 5 : 3, "count")]; if (sym_choice(2, "type")) lin<float>(F32, n); else lin<double>(F64, n); }
SYM_ENTRY(linspace_ends) { // the ends are the given values, bit for bit
  static const double V[] = {0.46826815216740614, 0.1, -3.7, 1e308, 5e-324, 12.9, 1.0 / 3}; int n = sym_choice(5, "count"); static const int N[] = {2, 3, 4, 50, 12}; n = N[n]; int cx = sym_choice(2, "complex"); double a = V[sym_choice(7, "start")], b = V[sym_choice(7, "stop")]; nd::array r; dynd::complex<double> ca(a, b), cb(b, -a); int e = threw([&] { r = cx ? nd::old_linspace(tc64, &ca, &cb, n) : nd::old_linspace(nty[F64], &a, &b, n); }); sym_assert(!e, "linspace raises"); if (e) return; const double *p = (const double *)r.cdata(); if (cx) sym_assert(p[0] == a && p[1] == b && p[2 * n - 2] == b && p[2 * n - 1] == -a, "linspace misses the ends"); else sym_assert(p[0] == a && p[n - 1] == b, "linspace misses the ends"); sym_reach("ok");
}
SYM_ENTRY(linspace_refused) { int n = (int)sym_u32("count"); sym_assume(n < 2); double a = 1, b = 2; int w = sym_choice(2, "type"); sym_assert(threw([&] { if (w) nd::old_linspace(nty[I32], &a, &b, 3); else nd::old_linspace(nty[F64], &a, &b, n); }), "linspace of fewer than two values is accepted"); sym_reach("threw"); }
