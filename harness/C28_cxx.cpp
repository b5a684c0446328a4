//@property C28
//@bound scalars of fifteen C++ types with every value; conversions back to every pair of eleven types; text of up to 4 free bytes from std::string, dynd::string and character arrays; bytes
//@bound vectors of 0 to 4 elements of five element types; two-dimensional vectors of 0 to 3 rows of 0 to 3 elements and three-dimensional ones of up to 2 * 2 * 2, ragged or not; C arrays of one to three dimensions; initializer lists in eleven shapes; pointer and size; std::tuple of up to four fields, nested; nd::tuple and nd::as_struct
//@entry scalars reach=ok
//@entry back reach=ok,threw
//@entry text reach=ok
//@entry text_back reach=ok
//@entry vectors reach=ok
//@entry vectors2 reach=ok
//@entry vectors3 reach=ok
//@entry carrays reach=ok
//@entry lists reach=ok
//@entry lists_text reach=ok
//@entry tuples reach=ok
//@entry records reach=ok
//@entry not_scalar reach=threw
#include "num.h"
#include <array>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/string.hpp>
#include <dynd/bytes.hpp>
typedef dynd::complex<float> c64; typedef dynd::complex<double> c128; typedef intptr_t ip;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
extern "C" void sym_setup() { num_setup(); { nd::array a{std::string("warm"), std::string("up")}; std::vector<std::vector<int>> v{{1, 2}, {3, 4}}; nd::array b(v); nd::array c = {{1, 2}, {3}}; T("var * string"); } }
template <class V> static V any(const char *n) { V v; sym_make(&v, sizeof v, n); return v; }
template <> bool any<bool>(const char *n) { return sym_u8(n) & 1; }
template <class V> static bool eq(const void *p, const V &v) { return !__builtin_memcmp(p, &v, sizeof v); }
template <> bool eq<bool>(const void *p, const bool &v) { return *(const uint8_t *)p == (uint8_t)v; }
template <class V> static void sc(const char *tp) {
  V v = any<V>("value"); nd::array a(v), b; b = v; sym_assert(a.get_type() == T(tp) && b.get_type() == T(tp), msg("type of an array made from ", tp)); sym_assert(eq<V>(a.cdata(), v) && eq<V>(b.cdata(), v), msg("value of an array made from ", tp)); V w = a.as<V>(); sym_assert(eq<V>(&w, v), msg("value read back as ", tp)); sym_assert(a.is_immutable() && threw([&] { a.data(); }), "a scalar made from a value can be written to"); sym_reach("ok");
}
SYM_ENTRY(scalars) {
  switch (sym_choice(17, "type")) { case 0: return sc<bool>("bool"); case 1: return sc<int8_t>("int8"); case 2: return sc<int16_t>("int16"); case 3: return sc<int32_t>("int32"); case 4: return sc<int64_t>("int64"); case 5: return sc<uint8_t>("uint8"); case 6: return sc<uint16_t>("uint16"); case 7: return sc<uint32_t>("uint32"); case 8: return sc<uint64_t>("uint64");
  case 9: return sc<float>("float32"); case 10: return sc<double>("float64"); case 11: return sc<c64>("complex[float32]"); case 12: return sc<c128>("complex[float64]"); case 13: return sc<char>("int8"); case 14: return sc<long long>("int64"); case 15: return sc<unsigned long long>("uint64"); default: return sc<dynd::int128>("int128"); }
}
template <class V> static void bk(int t, int d) { // the value in its C++ type, or refused
  nd::array a = num_val(t, "value"); int m = sym_choice(3, "mode"); assign_error_mode em = m == 0 ? assign_error_fractional : m == 1 ? assign_error_inexact : assign_error_overflow; V v{}; int e = threw([&] { v = m ? a.as<V>(em) : a.as<V>(); }); char n[80]; strcpy(n, msg(tn[t], " as ", tn[d]));
  nd::array x = nd::empty(nty[d]); int f = threw([&] { x.assign(a, em); }); sym_assert(e == f, msg(n, e ? ": refused where assignment is not" : ": accepted where assignment is not")); if (e || f) { sym_reach("threw"); return; } sym_assert(eq<V>(x.cdata(), v), msg(n, ": another value than assignment gives"));
  if (m < 2 && t < F32 && d < F32) sym_assert(t == U64 || d == U64 ? ((ld<int64_t>(t, a.cdata()) < 0) == (ld<int64_t>(d, x.cdata()) < 0) && ld<uint64_t>(t, a.cdata()) == ld<uint64_t>(d, x.cdata())) || (t == U64 && d == U64) : ld<int64_t>(t, a.cdata()) == ld<int64_t>(d, x.cdata()), msg(n, ": another value")); sym_reach("ok");
}
SYM_ENTRY(back) {
  int t = sym_choice(NT, "type"), d = sym_choice(9, "C++ type"); switch (d) { case 0: return bk<bool>(t, B); case 1: return bk<int8_t>(t, I8); case 2: return bk<int32_t>(t, I32); case 3: return bk<int64_t>(t, I64); case 4: return bk<uint8_t>(t, U8); case 5: return bk<uint32_t>(t, U32); case 6: return bk<uint64_t>(t, U64); case 7: return bk<float>(t, F32); default: return bk<double>(t, F64); }
}
static bool str(const char *d, const unsigned char *b, size_t n) { const dynd::string *s = (const dynd::string *)d; return s->size() == n && !memcmp(s->data(), b, n); }
SYM_ENTRY(text) {
  int n = sym_choice(5, "length"), w = sym_choice(6, "from"); unsigned char b[5]; for (int i = 0; i < n; i++) b[i] = sym_u8("text"); b[n] = 0; nd::array a; bool by = w == 5;
  switch (w) { case 0: a = std::string((char *)b, n); break; case 1: { std::string s((char *)b, n); a = nd::array(s); for (char &c : s) c = 'x'; break; } case 2: { dynd::string s((char *)b, n); a = s; break; } case 3: { char c[4]; memcpy(c, b, 3); c[3] = 0; if (n < 3) return; n = 3; a = c; memset(c, 'x', 3); break; } case 4: { for (int i = 0; i < n; i++) sym_assume(b[i] != 0); const char *p = (char *)b; a = nd::array(&p, 1)(0); break; } default: a = dynd::bytes((char *)b, n); }
  sym_assert(a.get_type() == T(by ? "bytes" : "string"), "type of an array made from text"); const char *d = w == 4 ? a.cdata() : a.cdata(); if (by) { auto *x = (const dynd::bytes *)d; sym_assert(x->size() == (size_t)n && !memcmp(x->data(), b, n), "an array made from bytes"); } else sym_assert(str(d, b, n), "an array made from text"); sym_reach("ok");
}
SYM_ENTRY(text_back) {
  int n = sym_choice(4, "length"), w = sym_choice(3, "type"); unsigned char b[5]; for (int i = 0; i < n; i++) { b[i] = sym_u8("text"); sym_assume(b[i] < 128); if (w) sym_assume(b[i] != 0); } nd::array a; if (w == 0) { a = nd::empty(T("string")); ((dynd::string *)a.data())->assign((char *)b, n); } else if (w == 1) { a = nd::empty(T("fixed_string[4]")); memset(a.data(), 0, 4); memcpy(a.data(), b, n); } else { a = nd::empty(T("fixed_string[3,'utf32']")); for (int i = 0; i < 3; i++) ((uint32_t *)a.data())[i] = i < n ? b[i] : 0; }
  std::string s; int e = threw([&] { s = a.as<std::string>(); }); sym_assert(!e, "reading text raises"); if (e) return; sym_assert(s.size() == (size_t)n && !memcmp(s.data(), b, n), "text read back"); sym_reach("ok");
}
template <class V> static void vec(const char *tp) {
  int n = sym_choice(5, "size"), w = sym_choice(2, "pointer and size"); std::vector<V> v; V keep[4]; for (int i = 0; i < n; i++) { keep[i] = any<V>("element"); v.push_back(keep[i]); } nd::array a; if (w) a = nd::array(v.data(), v.size()); else a = nd::array(v); for (int i = 0; i < n; i++) v[i] = V();
  bool ok = a.get_type() == ndt::make_fixed_dim(n, T(tp)); sym_assert(ok, msg("type of an array made from a vector of ", tp)); if (!ok) return; for (int i = 0; i < n; i++) { sym_assert(eq<V>(a.cdata() + i * sizeof(V), keep[i]), msg("element of an array made from a vector of ", tp)); V x = a(i).as<V>(); sym_assert(eq<V>(&x, keep[i]), msg("element read from an array made from a vector of ", tp)); } sym_reach("ok");
}
SYM_ENTRY(vectors) {
  switch (sym_choice(6, "type")) { case 0: return vec<int8_t>("int8"); case 1: return vec<int32_t>("int32"); case 2: return vec<double>("float64"); case 3: return vec<uint64_t>("uint64"); case 4: return vec<c64>("complex[float32]"); default: break; }
  int n = sym_choice(4, "size"), w = sym_choice(3, "elements"); unsigned char b[4][3]; int l[4]; std::vector<std::string> v; std::vector<dynd::string> dv; const char *cp[4]; std::string z[4]; for (int i = 0; i < n; i++) { l[i] = sym_choice(3, "length"); for (int j = 0; j < l[i]; j++) { b[i][j] = sym_u8("text"); if (w == 2) sym_assume(b[i][j] != 0); } z[i] = std::string((char *)b[i], l[i]); v.push_back(z[i]); dv.push_back(dynd::string((char *)b[i], l[i])); cp[i] = z[i].c_str(); }
  nd::array a; if (w == 0) a = nd::array(v); else if (w == 1) a = nd::array(dv); else a = nd::array(cp, n); bool ok = a.get_type() == ndt::make_fixed_dim(n, T("string")); sym_assert(ok, "type of an array made from a vector of text"); if (!ok) return; v.clear(); dv.clear(); for (int i = 0; i < n; i++) sym_assert(str(a.cdata() + i * sizeof(dynd::string), b[i], l[i]), "element of an array made from a vector of text"); sym_reach("ok");
}
// rows of lengths l[], elements at e[][]
template <class F> static void rows2(const nd::array &a, int n, const int *l, const ndt::type &el, int sz, F same) {
  bool rag = false; for (int i = 1; i < n; i++) rag |= l[i] != l[0]; ndt::type row = rag ? ndt::make_type<ndt::var_dim_type>(el) : ndt::make_fixed_dim(n ? l[0] : 0, el); bool ok = a.get_type() == ndt::make_fixed_dim(n, row); sym_assert(ok, "type of an array made from rows"); if (!ok) return;
  for (int i = 0; i < n; i++) { const char *p; if (rag) { auto *d = (const ndt::var_dim_type::data_type *)(a.cdata() + i * sizeof(ndt::var_dim_type::data_type)); sym_assert(d->size == (size_t)l[i], "length of a row"); if (d->size != (size_t)l[i]) return; p = d->begin; } else p = a.cdata() + i * l[0] * sz; for (int j = 0; j < l[i]; j++) sym_assert(same(p + j * sz, i, j), "element of an array made from rows"); }
  sym_reach("ok");
}
SYM_ENTRY(vectors2) {
  int n = sym_choice(4, "rows"), l[3], w = sym_choice(2, "text"); for (int i = 0; i < n; i++) l[i] = sym_choice(sym_tier() ? 4 : i < 2 ? 3 : 2, "length"); nd::array a;
  if (!w) { int16_t x[3][3]; std::vector<std::vector<int16_t>> v; for (int i = 0; i < n; i++) { v.emplace_back(); for (int j = 0; j < l[i]; j++) { x[i][j] = any<int16_t>("element"); v.back().push_back(x[i][j]); } } int e = threw([&] { a = nd::array(v); }); sym_assert(!e, "an array of rows is refused"); if (e) return; rows2(a, n, l, nty[I16], 2, [&](const char *p, int i, int j) { return eq<int16_t>(p, x[i][j]); }); }
  else { unsigned char x[3][3]; std::vector<std::vector<std::string>> v; for (int i = 0; i < n; i++) { v.emplace_back(); for (int j = 0; j < l[i]; j++) { x[i][j] = sym_u8("text"); v.back().push_back(std::string((char *)&x[i][j], 1)); } } int e = threw([&] { a = nd::array(v); }); sym_assert(!e, "an array of rows is refused"); if (e) return; rows2(a, n, l, T("string"), sizeof(dynd::string), [&](const char *p, int i, int j) { return str(p, &x[i][j], 1); }); }
}
SYM_ENTRY(vectors3) {
  int n = sym_choice(3, "planes"), m[2], l[2][2]; std::vector<std::vector<std::vector<int32_t>>> v; int32_t x[2][2][2]; for (int i = 0; i < n; i++) { m[i] = sym_choice(3, "rows"); v.emplace_back(); for (int j = 0; j < m[i]; j++) { l[i][j] = sym_choice(3, "length"); v[i].emplace_back(); for (int k = 0; k < l[i][j]; k++) { x[i][j][k] = any<int32_t>("element"); v[i][j].push_back(x[i][j][k]); } } }
  bool rm = n == 2 && m[0] != m[1], rl = false; int len = -1; for (int i = 0; i < n; i++) for (int j = 0; j < m[i]; j++) { if (len < 0) len = l[i][j]; else if (l[i][j] != len) rl = true; } bool nolen = false; for (int i = 0; i < n; i++) nolen |= m[i] == 0; nd::array a; int e = threw([&] { a = nd::array(v); }); sym_assert(!e, "an array of planes is refused"); if (e) return; sym_assert(a.get_type().get_ndim() == 3 && a.get_type().get_dtype() == nty[I32], "type of an array made from planes");
  bool fm = n < 2 || !rm; (void)fm; (void)nolen; (void)rl; sym_assert((a.get_type().get_type_at_dimension(nullptr, 1).get_id() == var_dim_id) == rm, "the second dimension is variable-sized exactly when its sizes differ"); if (!nolen) sym_assert((a.get_type().get_type_at_dimension(nullptr, 2).get_id() == var_dim_id) == rl, "the third dimension is variable-sized exactly when its sizes differ");
  for (int i = 0; i < n; i++) { nd::array p = a(i); sym_assert(p.get_dim_size() == m[i], "size of a plane"); for (int j = 0; j < m[i]; j++) { nd::array r = p(j); sym_assert(r.get_dim_size() == l[i][j], "size of a row"); for (int k = 0; k < l[i][j]; k++) sym_assert(eq<int32_t>(r(k).cdata(), x[i][j][k]), "element of an array made from planes"); } } sym_reach("ok");
}
SYM_ENTRY(carrays) {
  nd::array a; switch (sym_choice(6, "form")) { case 0: { int32_t x[3]; sym_make(x, sizeof x, "x"); a = x; sym_assert(a.get_type() == T("3 * int32") && !memcmp(a.cdata(), x, sizeof x) && a.cdata() != (char *)x, "a C array"); break; } case 1: { double x[2][3]; sym_make(x, sizeof x, "x"); a = x; sym_assert(a.get_type() == T("2 * 3 * float64") && !memcmp(a.cdata(), x, sizeof x), "a C array of two dimensions"); break; } case 2: { int16_t x[2][1][3]; sym_make(x, sizeof x, "x"); a = x; sym_assert(a.get_type() == T("2 * 1 * 3 * int16") && !memcmp(a.cdata(), x, sizeof x), "a C array of three dimensions"); break; }
  case 3: { bool x[3]; for (bool &b : x) b = any<bool>("x"); a = x; sym_assert(a.get_type() == T("3 * bool") && !memcmp(a.cdata(), x, 3), "a C array of bool"); break; } case 4: { uint8_t x[1]; sym_make(x, 1, "x"); a = x; sym_assert(a.get_type() == T("1 * uint8") && a.cdata()[0] == (char)x[0], "a C array of one element"); break; } default: { int64_t x[2][2]; sym_make(x, sizeof x, "x"); a = x; int64_t v = a(1, 0).as<int64_t>(), w = a(0, 1).as<int64_t>(); sym_assert(v == x[1][0] && w == x[0][1], "element of a C array of two dimensions"); } } sym_reach("ok");
}
SYM_ENTRY(lists) {
  int32_t x[8]; sym_make(x, sizeof x, "x"); nd::array a; auto row = [&](const nd::array &r, int n, int o) { if (r.get_dim_size() != n) return false; bool ok = true; for (int i = 0; i < n; i++) ok &= r(i).as<int32_t>() == x[o + i]; return ok; }; bool ok = false; int w = sym_choice(11, "shape");
  switch (w) { case 0: a = {x[0]}; ok = a.get_type() == nty[I32] ? eq<int32_t>(a.cdata(), x[0]) : a.get_type() == T("1 * int32") && row(a, 1, 0); break; case 1: a = {x[0], x[1], x[2]}; ok = a.get_type() == T("3 * int32") && row(a, 3, 0); break; case 2: a = {{x[0], x[1]}, {x[2], x[3]}}; ok = a.get_type() == T("2 * 2 * int32") && row(a(0), 2, 0) && row(a(1), 2, 2); break; case 3: a = {{x[0], x[1]}, {x[2]}}; ok = a.get_type() == T("2 * var * int32") && row(a(0), 2, 0) && row(a(1), 1, 2); break;
  case 4: a = {{x[0]}, {x[1], x[2], x[3]}, {x[4], x[5]}}; ok = a.get_type() == T("3 * var * int32") && row(a(0), 1, 0) && row(a(1), 3, 1) && row(a(2), 2, 4); break; case 5: a = {{{x[0], x[1]}, {x[2], x[3]}}, {{x[4], x[5]}, {x[6], x[7]}}}; ok = a.get_type() == T("2 * 2 * 2 * int32") && row(a(0, 0), 2, 0) && row(a(0, 1), 2, 2) && row(a(1, 0), 2, 4) && row(a(1, 1), 2, 6); break; case 6: a = {{{x[0], x[1]}, {x[2]}}, {{x[3]}, {x[4], x[5]}}}; ok = a.get_type() == T("2 * 2 * var * int32") && row(a(0, 0), 2, 0) && row(a(0, 1), 1, 2) && row(a(1, 0), 1, 3) && row(a(1, 1), 2, 4); break;
  case 7: a = {{{x[0]}, {x[1]}}, {{x[2]}}}; ok = a.get_type() == T("2 * var * 1 * int32") && a(0).get_dim_size() == 2 && row(a(0)(0), 1, 0) && row(a(0)(1), 1, 1) && row(a(1)(0), 1, 2); break; case 8: a = {{{x[0]}, {x[1], x[2]}}, {{x[3]}}}; ok = a.get_type() == T("2 * var * var * int32") && row(a(0)(0), 1, 0) && row(a(0)(1), 2, 1) && row(a(1)(0), 1, 3); break; case 9: a = {std::initializer_list<int32_t>{x[0], x[1]}, {}}; ok = a.get_type() == T("2 * var * int32") && row(a(0), 2, 0) && row(a(1), 0, 0); break; default: { double d[2] = {any<double>("d"), any<double>("d")}; a = {d[0], d[1]}; ok = a.get_type() == T("2 * float64") && !memcmp(a.cdata(), d, 16); } }
  sym_assert(ok, "an array made from an initializer list"); sym_reach("ok");
}
SYM_ENTRY(lists_text) {
  unsigned char b[4] = {sym_u8("t"), sym_u8("t"), sym_u8("t"), sym_u8("t")}; for (unsigned char c : b) sym_assume(c != 0); std::string s[4]; for (int i = 0; i < 4; i++) s[i] = std::string((char *)&b[i], 1); std::string big = "a string of more than a few bytes"; nd::array a; bool ok = false; auto one = [&](const nd::array &r, int i) { return str(r.cdata(), &b[i], 1); };
  switch (sym_choice(5, "form")) { case 0: a = {s[0], s[1], s[2]}; ok = a.get_type() == T("3 * string") && one(a(0), 0) && one(a(1), 1) && one(a(2), 2); break; case 1: a = {s[0].c_str(), s[1].c_str()}; ok = a.get_type() == T("2 * string") && one(a(0), 0) && one(a(1), 1); break; case 2: a = {{s[0], s[1]}, {s[2], s[3]}}; ok = a.get_type() == T("2 * 2 * string") && one(a(0, 0), 0) && one(a(0, 1), 1) && one(a(1, 0), 2) && one(a(1, 1), 3); break; case 3: a = {{s[0], big}, {s[2]}}; ok = a.get_type() == T("2 * var * string") && one(a(0)(0), 0) && str(a(0)(1).cdata(), (const unsigned char *)big.data(), big.size()) && one(a(1)(0), 2); break; default: a = {std::initializer_list<bool>{(b[0] & 1) != 0, (b[1] & 1) != 0}, {(b[2] & 1) != 0}}; ok = a.get_type() == T("2 * var * bool") && a(0)(0).as<bool>() == (b[0] & 1) && a(0)(1).as<bool>() == (b[1] & 1) && a(1)(0).as<bool>() == (b[2] & 1); }
  sym_assert(ok, "an array of text made from an initializer list"); sym_reach("ok");
}
SYM_ENTRY(tuples) {
  int8_t p = any<int8_t>("a"); double d = any<double>("b"); int16_t q = any<int16_t>("c"); bool t = any<bool>("d"); int64_t z = any<int64_t>("e"); nd::array a; bool ok = false; auto is = [&](const nd::array &x, const ndt::type &tp, const void *v, int n) { return x.get_type() == tp && !memcmp(x.cdata(), v, n); };
  switch (sym_choice(4, "form")) { case 0: a = std::make_tuple(p, d); ok = a.get_type() == T("(int8, float64)") && is(a(0), nty[I8], &p, 1) && is(a(1), nty[F64], &d, 8); break; case 1: a = std::make_tuple(p, d, q, t); ok = a.get_type() == T("(int8, float64, int16, bool)") && is(a(0), nty[I8], &p, 1) && is(a(1), nty[F64], &d, 8) && is(a(2), nty[I16], &q, 2) && is(a(3), nty[B], &t, 1); break; case 2: a = std::make_tuple(std::make_tuple(q, z), p); ok = a.get_type() == T("((int16, int64), int8)") && is(a(0)(0), nty[I16], &q, 2) && is(a(0)(1), nty[I64], &z, 8) && is(a(1), nty[I8], &p, 1); break; default: a = std::make_tuple(z); ok = a.get_type() == T("(int64)") && is(a(0), nty[I64], &z, 8); }
  sym_assert(ok, "an array made from a tuple"); sym_reach("ok");
}
SYM_ENTRY(records) {
  int n = sym_choice(4, "fields"), k[3]; nd::array v[3], a; bool st = sym_choice(2, "struct"); std::pair<const char *, nd::array> pr[3]; static const char *const N[] = {"x", "yy", "z1"}; for (int i = 0; i < n; i++) { k[i] = sym_choice(sym_tier() ? 4 : i ? 3 : 4, "kind"); v[i] = k[i] == 0 ? num_val(I8, "v") : k[i] == 1 ? num_val(F64, "v") : k[i] == 2 ? nd::array(std::string("abc")) : nd::array({1, 2, 3}); pr[i] = {N[i], v[i]}; }
  int e = threw([&] { a = st ? nd::as_struct(n, pr) : nd::tuple(n, v); }); sym_assert(!e, "making a record raises"); if (e) return; sym_assert(a.get_type().get_id() == (st ? struct_id : tuple_id), "type of a record"); for (int i = 0; i < n; i++) { nd::array f = st ? a.p(N[i]) : a(i); sym_assert(f.get_type() == v[i].get_type(), "type of a field"); if (f.get_type() != v[i].get_type()) return; if (k[i] == 2) sym_assert(str(f.cdata(), (const unsigned char *)"abc", 3), "value of a field"); else sym_assert(!memcmp(f.cdata(), v[i].cdata(), k[i] == 0 ? 1 : k[i] == 1 ? 8 : 12), "value of a field"); } sym_reach("ok");
}
SYM_ENTRY(not_scalar) { nd::array a; int w = sym_choice(5, "array"); if (w == 0) a = {1, 2}; else if (w == 1) a = {{1, 2}, {3}}; else if (w == 2) a = std::make_tuple(1, 2); else if (w == 3) a = nd::as_struct({{"x", nd::array(1)}}); else a = nd::empty(T("0 * int32")); int t = sym_choice(3, "as"); sym_assert(threw([&] { if (t == 0) a.as<int>(); else if (t == 1) a.as<double>(); else a.as<bool>(); }), "an array which is not a scalar is read as one"); sym_reach("threw"); }
