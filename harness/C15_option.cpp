//@property C15
//@bound every cell content of options of bool, int8 to int64, uint32, float32, float64 and two complex types; every pair of them for conversion; 13 operators on int32, int64 and float64 options, six comparisons; arrays of 0 to 4 elements, and of 100 to 300 elements with one free missing position
//@bound text to options: every text of 0 to 4 bytes for bool, of 0 to 3 bytes or 4 letters for integers
//@assume pointers, dates and nested options are outside
//@entry cells reach=na,value
//@entry convert reach=na,value,threw
//@entry to_value reach=threw,value
//@entry from_value reach=value
//@entry arrays reach=na,value
//@entry long_arrays reach=ok
//@entry texts reach=na,value,threw
//@entry arith reach=na,value
//@entry compare reach=na,value
//@entry elementwise reach=na,value
//@entry float_na reach=na,value
//@entry string_options reach=na,value
#include "num.h"
#include <dynd/option.hpp>
#include <dynd/parse.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef unsigned char u8;
enum { oB, o8, o16, o32, o64, oU32, oF32, oF64, oC64, oC128, ON };
static const char *const on[] = {"bool", "int8", "int16", "int32", "int64", "uint32", "float32", "float64", "complex[float32]", "complex[float64]"};
static const int osz[] = {1, 1, 2, 4, 8, 4, 4, 8, 8, 16};
static ndt::type vt[ON], ot[ON], os_, ts;
static nd::callable *const arith[] = {&nd::add, &nd::subtract, &nd::multiply, &nd::divide, &nd::mod, &nd::bitwise_and, &nd::bitwise_or, &nd::bitwise_xor, &nd::left_shift, &nd::right_shift, &nd::logical_and, &nd::logical_or, &nd::logical_xor};
static const char *const an[] = {"add", "subtract", "multiply", "divide", "mod", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift", "logical_and", "logical_or", "logical_xor"};
static nd::callable *const cmp[] = {&nd::equal, &nd::not_equal, &nd::less, &nd::less_equal, &nd::greater, &nd::greater_equal};
static const char *const cn[] = {"equal", "not_equal", "less", "less_equal", "greater", "greater_equal"};
extern "C" void sym_setup() {
  num_setup(); vt[oB] = nty[B]; vt[o8] = nty[I8]; vt[o16] = nty[I16]; vt[o32] = nty[I32]; vt[o64] = nty[I64]; vt[oU32] = nty[U32]; vt[oF32] = nty[F32]; vt[oF64] = nty[F64]; vt[oC64] = ndt::make_type<dynd::complex<float>>(); vt[oC128] = ndt::make_type<dynd::complex<double>>();
  for (int i = 0; i < ON; i++) ot[i] = ndt::make_type<ndt::option_type>(vt[i]); ts = ndt::make_type<dynd::string>(); os_ = ndt::make_type<ndt::option_type>(ts);
}
// Whether the cell is the missing value: R's convention, any NaN is missing for the real types
static bool na(int t, const char *p) {
  switch (t) { case oB: return *(u8 *)p > 1; case o8: return *(int8_t *)p == INT8_MIN; case o16: return *(int16_t *)p == INT16_MIN; case o32: return *(int32_t *)p == INT32_MIN; case o64: return *(int64_t *)p == INT64_MIN; case oU32: return *(uint32_t *)p == UINT32_MAX;
  case oF32: return (*(uint32_t *)p & 0x7fffffff) > 0x7f800000; case oF64: return (*(uint64_t *)p & INT64_MAX) > 0x7ff0000000000000ull; case oC64: return (((uint32_t *)p)[0] == 0x7f8007a2u) & (((uint32_t *)p)[1] == 0x7f8007a2u); default: return (((uint64_t *)p)[0] == 0x7ff00000000007a2ull) & (((uint64_t *)p)[1] == 0x7ff00000000007a2ull); }
}
static nd::array cell(int t, const char *nm) { nd::array a = nd::empty(ot[t]); sym_make(a.data(), osz[t], nm); return a; }
static nd::array plain(int t, const char *p) { nd::array a = nd::empty(vt[t]); memcpy(a.data(), p, osz[t]); return a; }
SYM_ENTRY(cells) {
  int t = sym_choice(ON, "type"); nd::array a = cell(t, "a"), r; bool m = na(t, a.cdata()); int k = threw([&] { r = nd::is_na(a); }); sym_assert(!k, msg("is_na raises for ", on[t])); if (k) return; sym_assert(*(const u8 *)r.cdata() == (u8)m, msg("is_na is wrong for ", on[t]));
  k = threw([&] { bool v = a.is_na(); sym_assert(v == m, msg("array.is_na is wrong for ", on[t])); }); sym_assert(!k, msg("array.is_na raises for ", on[t])); bool v = nd::old_is_avail(ot[t], NULL, a.cdata()); sym_assert(v == !m, msg("availability is wrong for ", on[t]));
  k = threw([&] { a.assign_na(); }); sym_assert(!k, msg("assign_na raises for ", on[t])); if (!k) sym_assert(na(t, a.cdata()), msg("assign_na leaves a value in ", on[t])); nd::array b = cell(t, "b"); nd::old_assign_na(ot[t], NULL, b.data()); sym_assert(na(t, b.cdata()), msg("a missing value is not stored in ", on[t])); sym_reach(m ? "na" : "value");
}
static void conv(int s, int d, bool so, bool dop) {
  nd::array a = nd::empty(so ? ot[s] : vt[s]); sym_make(a.data(), osz[s], "a"); if (!so && s == oB) sym_assume(*(u8 *)a.data() < 2); if (!so && s >= oF32) sym_assume(!na(s, a.cdata())); bool m = so && na(s, a.cdata()); nd::array r = nd::empty(dop ? ot[d] : vt[d]), w = nd::empty(vt[d]); memset(r.data(), 3, osz[d]); memset(w.data(), 3, osz[d]);
  m = sym_fork(m); int k = threw([&] { r.assign(a); }), kw = m ? !dop : threw([&] { w.assign(plain(s, a.cdata())); }); sym_assert(k == kw, msg(m ? "missing value: raises or not wrongly: " : "value: raises or not unlike the plain types: ", so ? "?" : "", on[s], " to ", dop ? "?" : "", on[d])); if (k || kw) { sym_reach("threw"); return; }
  if (m) { sym_assert(na(d, r.cdata()), msg("missing value lost: ", on[s], " to ", on[d])); sym_reach("na"); } else { sym_assert(!memcmp(r.cdata(), w.cdata(), osz[d]), msg("value changed: ", so ? "?" : "", on[s], " to ", dop ? "?" : "", on[d])); sym_reach("value"); }
}
SYM_ENTRY(convert) { conv(sym_choice(oC64, "from"), sym_choice(oC64, "to"), true, true); }
SYM_ENTRY(to_value) { conv(sym_choice(oC64, "from"), sym_choice(oC64, "to"), true, false); }
SYM_ENTRY(from_value) { int s = sym_choice(oC64, "from"); conv(s, sym_choice(oC64, "to"), false, true); }
// Arrays: contents symbolic, reversed sources, variable-sized
static nd::array fill(const ndt::type &et, int sz, int form, int n, const char *bytes) {
  if (form == 2) { nd::array a = nd::empty(ndt::make_type<ndt::var_dim_type>(et)); auto *m = (const ndt::var_dim_type::metadata_type *)a->metadata(); auto *d = (ndt::var_dim_type::data_type *)a.data(); d->begin = m->blockref->alloc(n); d->size = n; memcpy(d->begin, bytes, n * sz); return a; }
  nd::array a = nd::empty(ndt::make_fixed_dim(n, et)); for (int i = 0; i < n; i++) memcpy(a.data() + (form == 1 ? n - 1 - i : i) * sz, bytes + i * sz, sz); if (form == 1 && n) return a(irange().by(-1)); return a;
}
SYM_ENTRY(arrays) {
  static const int P[][2] = {{o8, o32}, {oB, o16}, {o32, o32}, {oF64, oF64}, {o16, oF32}, {oB, oB}, {o64, o64}}; int p = sym_choice(7, "pair"), s = P[p][0], d = P[p][1], form = sym_choice(3, "form"), n = sym_choice(5, "n"), op = sym_choice(3, "op"); if (form == 1 && n == 0) n = 1; char b[64]; if (n) sym_make(b, n * osz[s], "b"); nd::array a = fill(ot[s], osz[s], form, n, b), r;
  if (op == 0) { if (form == 2) return; int k = threw([&] { r = nd::is_na(a); }); sym_assert(!k, msg("is_na of an array raises: ", on[s])); if (k) return; nd::array x = r; bool ok = x.get_ndim() == 1 && x.get_dim_size() == n; sym_assert(ok, "is_na of an array has another shape"); if (!ok) return; for (int i = 0; i < n; i++) { bool m = na(s, b + i * osz[s]); nd::array e = x(i); sym_assert(*(const u8 *)e.cdata() == (u8)m, msg("is_na of an array is wrong for ", on[s])); sym_reach(m ? "na" : "value"); } return; }
  if (op == 2) { if (form == 2) return; int k = threw([&] { a.assign_na(); }); sym_assert(!k, msg("assign_na on an array raises: ", on[s])); if (k) return; for (int i = 0; i < n; i++) { nd::array e = a(i); sym_assert(na(s, e.cdata()), msg("assign_na on an array leaves a value: ", on[s])); } if (n) sym_reach("na"); return; }
  r = nd::empty(ndt::make_fixed_dim(n, ot[d])); if (n) memset(r.data(), 3, n * osz[d]); bool bad = false; static char w[64]; for (int i = 0; i < n; i++) if (!sym_fork(na(s, b + i * osz[s]))) { nd::array v = nd::empty(vt[d]); bad |= threw([&] { v.assign(plain(s, b + i * osz[s])); }); memcpy(w + i * osz[d], v.cdata(), osz[d]); }
  int k = threw([&] { r.assign(a); }); sym_assert(k == bad, msg("array of options: raises or not unlike the plain types: ", on[s], " to ", on[d])); if (k || bad) return; for (int i = 0; i < n; i++) { bool m = na(s, b + i * osz[s]); if (m) sym_assert(na(d, r.cdata() + i * osz[d]), msg("missing element lost: ", on[s], " to ", on[d])); else sym_assert(!memcmp(r.cdata() + i * osz[d], w + i * osz[d], osz[d]), msg("element changed: ", on[s], " to ", on[d])); sym_reach(m ? "na" : "value"); }
}
SYM_ENTRY(long_arrays) { // several chunks of the copying kernels
  static const int L[] = {100, 127, 128, 129, 200, 256, 257, 300}; int n = L[sym_choice(8, "n")], at = sym_choice(4, "at"), pat = sym_choice(3, "pattern"), to = sym_choice(2, "to_value"); at = at == 0 ? 0 : at == 1 ? n / 2 : at == 2 ? n - 1 : n > 128 ? 128 : n - 2; nd::array a = nd::empty(ndt::make_fixed_dim(n, ot[o32])), r = nd::empty(ndt::make_fixed_dim(n, to ? vt[o64] : ot[o64])); int32_t *p = (int32_t *)a.data(); bool any = false;
  for (int i = 0; i < n; i++) { p[i] = 7 * i - 300; if (!to && (pat == 1 ? i % 3 == 0 : pat == 2 ? i < n / 2 : false)) p[i] = INT32_MIN; } sym_make(p + at, 4, "v"); any = p[at] == INT32_MIN; any = sym_fork(any); memset(r.data(), 3, 8 * n); int k = threw([&] { r.assign(a); }); sym_assert(k == (to && any), "long array of options: raises or not wrongly"); if (k) return;
  bool ok = true; for (int i = 0; i < n; i++) ok &= ((int64_t *)r.cdata())[i] == (p[i] == INT32_MIN ? INT64_MIN : (int64_t)p[i]); sym_assert(ok, "long array of options: an element changed"); sym_reach("ok");
}
static bool na_text(const u8 *s, int n) { return n == 0 || (n == 2 && s[0] == 'N' && s[1] == 'A') || (n == 4 && (((s[0] | 32) == 'n') & ((s[1] | 32) == 'u') & ((s[2] | 32) == 'l') & ((s[3] | 32) == 'l'))) || (n == 4 && !memcmp(s, "None", 4)); }
SYM_ENTRY(texts) {
  static const int T[] = {oB, o8, o32, o64}; int t = T[sym_choice(4, "type")], n = sym_choice(5, "n"); nd::array s = nd::empty(ts), r = nd::empty(ot[t]); char b[8]; if (n) sym_make(b, n, "text"); for (int i = 0; i < n; i++) sym_assume((!isspace((u8)b[i])) & ((b[i] | 32) != 'e' || i) & (b[i] != '.')); if (n == 4 && t != oB) for (int i = 0; i < n; i++) sym_assume((u8)((b[i] | 32) - 97) < 26); ((dynd::string *)s.data())->assign(b, n); memset(r.data(), 3, osz[t]);
  bool m = sym_fork(na_text((u8 *)b, n)); int k = threw([&] { r.assign(s); }); if (m) { sym_assert(!k, msg("text of a missing value refused: ", on[t])); if (!k) sym_assert(na(t, r.cdata()), msg("text of a missing value read as a value: ", on[t])); sym_reach("na"); return; }
  nd::array w = nd::empty(vt[t]); memset(w.data(), 3, osz[t]); int kw = threw([&] { w.assign(s); }); if (t == o8 && n == 4 && b[0] == '-') sym_assume(*(int8_t *)w.cdata() != INT8_MIN); sym_assert(k == kw, msg("text raises or not unlike for the plain type: ", on[t])); if (k || kw) { sym_reach("threw"); return; } sym_assert(!memcmp(r.cdata(), w.cdata(), osz[t]), msg("text read as another value: ", on[t])); sym_reach("value");
}
static void binary(nd::callable &f, const char *fn, int s, int d, bool so, bool dop) {
  nd::array a = nd::empty(so ? ot[s] : vt[s]), b = nd::empty(dop ? ot[d] : vt[d]), r, w; sym_make(a.data(), osz[s], "a"); sym_make(b.data(), osz[d], "b"); bool m = sym_fork((so && na(s, a.cdata())) | (dop && na(d, b.cdata()))); if (!so && s == oB) sym_assume(*(u8 *)a.data() < 2); if (!dop && d == oB) sym_assume(*(u8 *)b.data() < 2);
  bool dv = !strcmp(fn, "divide") || !strcmp(fn, "mod"), sh = strstr(fn, "shift"); if (dv && s < oF32 && d < oF32) { sym_assume(!((s == o64 ? *(int64_t *)a.cdata() == INT64_MIN : *(int32_t *)a.cdata() == INT32_MIN))); } if (sh) sym_assume((*(u8 *)b.data() < 31) & (d == o64 ? *(int64_t *)b.data() >> 8 == 0 : *(int32_t *)b.data() >> 8 == 0));
  int k = threw([&] { r = f(a, b); }), kw = m ? 0 : threw([&] { w = f(plain(s, a.cdata()), plain(d, b.cdata())); }); const char *mm = so ? dop ? " of ?x and ?x" : " of ?x and x" : " of x and ?x"; if (m && dv && k) return; // division of a missing value by zero: either
  sym_assert(k == kw, msg(fn, mm, " raises or not unlike for plain values: ", on[s], " ", on[d])); if (k || kw) return; bool isopt = r.get_type().get_id() == option_id; sym_assert(isopt, msg(fn, mm, " does not give an option: ", on[s], " ", on[d])); if (!isopt) return; ndt::type rt = r.get_type().extended<ndt::option_type>()->get_value_type();
  if (m) { bool is = !nd::old_is_avail(r.get_type(), r->metadata(), r.cdata()); sym_assert(is, msg(fn, mm, " of a missing value is not missing: ", on[s], " ", on[d])); sym_reach("na"); } else { bool same = rt == w.get_type(); sym_assert(same, msg(fn, mm, " gives another type: ", on[s], " ", on[d])); if (same) sym_assert(!memcmp(r.cdata(), w.cdata(), rt.get_data_size()), msg(fn, mm, " gives another value: ", on[s], " ", on[d])); sym_reach("value"); }
}
SYM_ENTRY(arith) { int o = sym_choice(13, "op"), s = sym_choice(3, "left"), d = sym_choice(3, "right"), side = sym_choice(3, "side"); s = s == 0 ? o32 : s == 1 ? o64 : oF64; d = d == 0 ? o32 : d == 1 ? o64 : oF64; if (s == oF64 || d == oF64) { if (o >= 4 && o < 10) return; } binary(*arith[o], an[o], s, d, side != 1, side != 0); }
SYM_ENTRY(compare) { int o = sym_choice(6, "op"), s = sym_choice(6, "left"), d = sym_choice(6, "right"), side = sym_choice(3, "side"); static const int T[] = {oB, o8, o16, o32, o64, oF64}; binary(*cmp[o], cn[o], T[s], T[d], side != 1, side != 0); }
SYM_ENTRY(elementwise) {
  int o = sym_choice(2, "op"), n = 1 + sym_choice(3, "n"), side = sym_choice(3, "side"), sc = sym_choice(3, "scalar"), form = sym_choice(2, "form"); bool so = side != 1, dop = side != 0; int32_t x[4], y[4]; sym_make(x, 4 * n, "x"); sym_make(y, 4 * n, "y"); int nx = sc == 1 ? 1 : n, ny = sc == 2 ? 1 : n; nd::array a = sc == 1 ? nd::empty(so ? ot[o32] : vt[o32]) : fill(so ? ot[o32] : vt[o32], 4, form, n, (char *)x), b = sc == 2 ? nd::empty(dop ? ot[o32] : vt[o32]) : fill(dop ? ot[o32] : vt[o32], 4, 0, n, (char *)y), r; if (sc == 1) memcpy(a.data(), x, 4); if (sc == 2) memcpy(b.data(), y, 4);
  int k = threw([&] { r = o ? nd::less(a, b) : nd::add(a, b); }); sym_assert(!k, "elementwise operation on options raises"); if (k) return; bool shape = r.get_ndim() == 1 && r.get_dim_size() == n; sym_assert(shape, "elementwise operation on options gives another shape"); if (!shape) return; int sz = o ? 1 : 4;
  for (int i = 0; i < n; i++) { int32_t u = x[nx == 1 ? 0 : i], v = y[ny == 1 ? 0 : i]; bool m = (so & (u == INT32_MIN)) | (dop & (v == INT32_MIN)); nd::array e = r(i); if (o) sym_assert(m ? *(const u8 *)e.cdata() > 1 : *(const u8 *)e.cdata() == (u8)(u < v), "less of options: wrong element"); else sym_assert(*(const uint32_t *)e.cdata() == (m ? 0x80000000u : (uint32_t)u + (uint32_t)v), "add of options: wrong element"); sym_reach(m ? "na" : "value"); }
}
SYM_ENTRY(float_na) { int f = sym_choice(2, "double"), t = sym_choice(5, "to"); static const int D[] = {o8, o16, o32, o64, oF64}; int d = D[t], s = f ? oF64 : oF32; nd::array a = nd::empty(vt[s]), r = nd::empty(ot[d]), w = nd::empty(vt[d]); sym_make(a.data(), osz[s], "a"); memset(r.data(), 3, osz[d]); memset(w.data(), 3, osz[d]); bool m = sym_fork(na(s, a.cdata())); int k = threw([&] { r.assign(a); }), kw = m ? 0 : threw([&] { w.assign(a); }); sym_assert(k == kw, msg("float to option raises or not wrongly: ", on[s], " to ", on[d])); if (k || kw) return; if (m) { sym_assert(na(d, r.cdata()), msg("NaN does not become missing: ", on[s], " to ", on[d])); sym_reach("na"); } else { sym_assert(!memcmp(r.cdata(), w.cdata(), osz[d]), msg("value changed: ", on[s], " to ", on[d])); sym_reach("value"); } }
SYM_ENTRY(string_options) {
  int n = 1 + sym_choice(3, "n"), L = sym_choice(2, "long") ? 20 : 0; char b[32]; memset(b, 'q', 32); sym_make(b, n, "text"); nd::array s = nd::empty(ts), a = nd::empty(os_), c = nd::empty(os_), r; ((dynd::string *)s.data())->assign(b, n + L); int k = threw([&] { a.assign(s); }); sym_assert(!k, "a string is not assigned to an option of string"); if (k) return; auto *v = (const dynd::string *)a.cdata(); bool ok = v->size() == (size_t)(n + L) && !memcmp(v->data(), b, n + L); sym_assert(ok, "a string assigned to an option of string changes");
  k = threw([&] { r = nd::is_na(a); }); sym_assert(!k, "is_na of an option of string raises"); if (!k) sym_assert(*r.cdata() == 0, "an available string is missing"); k = threw([&] { c.assign(a); }); sym_assert(!k, "options of string are not assigned"); if (!k) { v = (const dynd::string *)c.cdata(); ok = v->size() == (size_t)(n + L) && !memcmp(v->data(), b, n + L); sym_assert(ok, "option of string changes when assigned"); } sym_reach("value");
  k = threw([&] { a.assign_na(); r = nd::is_na(a); }); sym_assert(!k, "assign_na of an option of string raises"); if (k) return; sym_assert(*r.cdata() == 1, "a missing string is not missing"); sym_assert(!nd::old_is_avail(os_, a->metadata(), a.cdata()), "a missing string is available"); k = threw([&] { c.assign(a); r = nd::is_na(c); }); sym_assert(!k && *r.cdata() == 1, "a missing string is lost when assigned"); k = threw([&] { s.assign(a); }); sym_assert(k, "a missing string assigned to a string does not raise"); sym_reach("na");
}
