//@property C30
//@bound functions of three arguments of which the last zero to three are keywords, called with up to four positional arguments and up to two named ones in any order (three for the all-keyword form), every argument value; every pair of argument type and parameter type out of fourteen; five ways of making a callable out of C++ code
//@bound overload sets of three candidates over up to four types with one or two dispatched arguments in every insertion order, queried with every combination of four types
//@bound a destination of each of eleven types and four shapes given to seven operations; assignment between every pair out of 34 types, with free contents where the type has plain storage
//@entry named reach=ok,threw
//@entry types reach=ok,threw
//@entry forms reach=ok
//@entry dst reach=ok,threw
//@entry dst_shape reach=ok,threw
//@entry overload1 reach=ok,threw
//@entry overload2 reach=ok,threw
//@entry assign_pairs reach=ok,threw
#include "num.h"
#include <dynd/functional.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/int_kind_type.hpp>
#include <dynd/types/uint_kind_type.hpp>
#include <dynd/types/float_kind_type.hpp>
static int64_t G(int32_t x, int64_t y, uint8_t z) { return (int64_t)x * 3 + y * 1000003 + z * 7; }
static nd::callable fk[4];
struct Obj { int64_t k; int64_t meth(int32_t x, int64_t y, uint8_t z) { return G(x, y, z) + k; } }; static Obj obj;
struct Functor { int64_t k; Functor(int64_t k = 5) : k(k) {} int64_t operator()(int32_t x, int64_t y, uint8_t z) const { return G(x, y, z) ^ k; } };
struct Made { int64_t z; Made(int64_t z) : z(z) {} int64_t operator()(int32_t x, int64_t y) const { return x * 11 + y + z; } };
static nd::callable forms[6], eg;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
struct tagged : nd::base_callable { using nd::base_callable::base_callable; ndt::type resolve(nd::base_callable *, char *, nd::call_graph &, const ndt::type &d, size_t, const ndt::type *, size_t, const nd::array *, const std::map<std::string, ndt::type> &) { return d; } };
enum { C32, C64, CF, CINT, CSC, CANY, NC }; static ndt::type ct[NC]; static ndt::type q4[4];
// Which of the six candidate types accepts which, and the four query types
static bool accepts(int a, int b) { if (a == b || a == CANY) return true; if (a == CSC) return b != CANY; if (a == CINT) return b == C32 || b == C64; return false; }
static bool takes(int a, int q) { static const int as[] = {C32, C64, CF}; return q < 3 ? accepts(a, as[q]) : a == CANY; } // the fourth is an array
static const int NA_ = 34; static ndt::type aty[NA_];
extern "C" void sym_setup() {
  num_setup(); obj.k = 77;
  auto g = [](int32_t x, int64_t y, uint8_t z) { return G(x, y, z); };
  fk[0] = nd::functional::apply(g); fk[1] = nd::functional::apply(g, "z"); fk[2] = nd::functional::apply(g, "y", "z"); fk[3] = nd::functional::apply(g, "x", "y", "z");
  forms[0] = nd::functional::apply(&G); forms[1] = nd::functional::apply<decltype(&G), &G>(); forms[2] = nd::functional::apply(&obj, &Obj::meth); forms[3] = nd::functional::apply(Functor(9)); forms[4] = nd::functional::apply<Made, int64_t>("z"); forms[5] = nd::functional::elwise(fk[0]); eg = nd::functional::elwise(fk[1]);
  ct[C32] = nty[I32]; ct[C64] = nty[I64]; ct[CF] = nty[F64]; ct[CINT] = T("Int"); ct[CSC] = T("Scalar"); ct[CANY] = T("Any"); q4[0] = nty[I32]; q4[1] = nty[I64]; q4[2] = nty[F64]; q4[3] = T("3 * int32");
  static const char *A[NA_] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "int128", "uint128", "float16", "float128", "complex[float32]", "complex[float64]", "string", "fixed_string[5]", "fixed_string[3,'utf16']", "bytes", "fixed_bytes[4]", "char", "type", "?int32", "?float64", "?string", "(int32, float64)", "{x: int32, y: int16}", "2 * int32", "var * int32", "pointer[int32]", "2 * string", "void"};
  for (int i = 0; i < NA_; i++) aty[i] = T(A[i]);
  nd::array a = nd::empty(nty[I32]), b = nd::empty(nty[I64]), c = nd::empty(nty[U8]); fk[0](a, b, c); forms[4]({a, b}, {{"z", b}}); nd::add(a, b); nd::less(a, b); nd::add(nd::empty(q4[3]), a);
}
SYM_ENTRY(named) {
  static const char *const N[] = {"x", "y", "z", "q", "dst", "dst_tp"}; int k = sym_choice(4, "keywords"), np = sym_choice(5, "positional"), nk = sym_choice(k == 3 ? 4 : 3, "named"); int id[3] = {0, 0, 0}; for (int i = 0; i < nk; i++) id[i] = nk == 3 ? sym_choice(3, "name") : sym_choice(6, "name");
  int32_t x = (int32_t)sym_u32("x"); int64_t y = (int64_t)sym_u64("y"); uint8_t z = sym_u8("z"); nd::array v[6]; v[0] = nd::empty(nty[I32]); *(int32_t *)v[0].data() = x; v[1] = nd::empty(nty[I64]); *(int64_t *)v[1].data() = y; v[2] = nd::empty(nty[U8]); *(uint8_t *)v[2].data() = z; v[3] = v[0]; v[4] = nd::empty(nty[I64]); v[5] = nd::array(nty[I64]); *(int64_t *)v[4].data() = 0;
  bool bad = np < 3 - k || np > 3, have[3] = {false, false, false}, dst = false; for (int i = 0; i < 3 && i < np; i++) have[i] = true;
  for (int i = 0; i < nk; i++) { int d = id[i]; if (d >= 4) dst |= d == 4; else if (d == 3 || d < 3 - k || have[d]) bad = true; else have[d] = true; } for (int i = 0; i < 3; i++) bad |= !have[i];
  std::pair<const char *, nd::array> kw[3]; for (int i = 0; i < nk; i++) kw[i] = {N[id[i]], v[id[i]]}; nd::array pos[4] = {v[0], v[1], v[2], v[2]}, r; int t = threw([&] { r = fk[k].call(np, pos, nk, kw); });
  sym_assert(t == bad, bad ? "a call with wrong arguments is accepted" : "a call with the right arguments is refused"); if (t || bad) { sym_reach("threw"); return; }
  sym_assert(r.get_type() == nty[I64], "type of the result of a call"); sym_assert(*(const int64_t *)r.cdata() == G(x, y, z), "result of a call"); if (dst) { bool last4 = false; for (int i = 0; i < nk; i++) if (id[i] >= 4) last4 = id[i] == 4; if (last4) sym_assert(*(const int64_t *)v[4].cdata() == G(x, y, z), "destination of a call"); } sym_reach("ok");
}
SYM_ENTRY(types) { // Argument types are taken only when they are the types of the parameters
  int which = sym_choice(3, "argument"), t = sym_choice(14, "type"); bool kw = which == 2 && sym_choice(2, "keyword"); static const int P[] = {I32, I64, U8}; nd::array v[3]; int32_t x = (int32_t)sym_u32("x"); int64_t y = (int64_t)sym_u64("y"); uint8_t z = sym_u8("z"); v[0] = nd::empty(nty[I32]); *(int32_t *)v[0].data() = x; v[1] = nd::empty(nty[I64]); *(int64_t *)v[1].data() = y; v[2] = nd::empty(nty[U8]); *(uint8_t *)v[2].data() = z;
  bool bad = t != P[which]; if (bad) { static const char *const X[] = {"string", "2 * int32", "?int32"}; v[which] = t < NT ? num_val(t, "other") : nd::empty(T(X[t - NT])); if (t >= NT + 1) memset(v[which].data(), 0, 4); }
  nd::array r; int k = threw([&] { r = kw ? fk[1]({v[0], v[1]}, {{"z", v[2]}}) : fk[0](v[0], v[1], v[2]); }); sym_assert(k == bad, bad ? "an argument of another type is accepted" : "an argument of the right type is refused"); if (k || bad) { sym_reach("threw"); return; } sym_assert(*(const int64_t *)r.cdata() == G(x, y, z), "result of a call"); sym_reach("ok");
}
SYM_ENTRY(forms) {
  int f = sym_choice(6, "form"), again = sym_choice(2, "again"); nd::array a = num_val(I32, "x"), b = num_val(I64, "y"), c = num_val(U8, "z"), d = num_val(I64, "w"); int32_t x = *(const int32_t *)a.cdata(); int64_t y = *(const int64_t *)b.cdata(), w = *(const int64_t *)d.cdata(); uint8_t z = *(const uint8_t *)c.cdata(); int64_t want = G(x, y, z); if (f == 2) want += 77; if (f == 3) want ^= 9; if (f == 4) want = x * 11 + y + w;
  nd::array r; int k = 0; for (int i = 0; i <= again; i++) k |= threw([&] { r = f == 4 ? forms[4]({a, b}, {{"z", d}}) : forms[f](a, b, c); }); sym_assert(!k, "a call raises"); if (k) return; sym_assert(r.get_type() == nty[I64] && *(const int64_t *)r.cdata() == want, "result of a call of C++ code"); sym_reach("ok");
}
SYM_ENTRY(dst) { // a result goes only into a destination of its own type
  int op = sym_choice(5, "op"), t = sym_choice(NT, "type"); nd::array a = num_val(op == 3 ? F64 : I32, "a"), b = num_val(op == 4 ? I16 : I32, "b"); nd::array u = nd::empty(T("32 * uint8")); memset(u.data(), 0x5a, 32); nd::array d = nd::empty(nty[t]); uint8_t old[8]; sym_make(old, 8, "old"); if (t == B) old[0] &= 1; memcpy(d.data(), old, tsz[t]);
  int want = op == 2 ? B : op == 3 ? F64 : I32; int k = threw([&] { switch (op) { case 0: nd::add({a, b}, {{"dst", d}}); break; case 1: nd::minus({a}, {{"dst", d}}); break; case 2: nd::less({a, b}, {{"dst", d}}); break; case 3: nd::multiply({a, b}, {{"dst", d}}); break; default: nd::subtract({a, b}, {{"dst", d}}); break; } });
  bool bad = t != want; sym_assert(k == bad, bad ? "a result is written into a destination of another type" : "a destination of the right type is refused"); if (k || bad) { sym_assert(!memcmp(d.cdata(), old, tsz[t]), "a refused destination changed"); sym_reach("threw"); return; }
  int32_t x = *(const int32_t *)a.cdata(), y = op == 4 ? *(const int16_t *)b.cdata() : *(const int32_t *)b.cdata(); if (op == 3) return sym_reach("ok"), void(); int32_t r = op == 0 ? (int32_t)((uint32_t)x + (uint32_t)y) : op == 1 ? (int32_t)(0 - (uint32_t)x) : (int32_t)((uint32_t)x - (uint32_t)y); if (op == 2) sym_assert(*(const bool *)d.cdata() == (x < y), "destination of a comparison"); else sym_assert(*(const int32_t *)d.cdata() == r, "destination of an operation"); sym_reach("ok");
}
SYM_ENTRY(dst_shape) { // destination shapes: broadcast to or refused, never overrun
  static const char *const S[] = {"int32", "3 * int32", "2 * int32", "2 * 3 * int32", "2 * 2 * int32", "var * int32", "3 * 1 * int32"}; int op = sym_choice(2, "op"), as = sym_choice(4, "source"), ds = sym_choice(7, "destination"); nd::array a = nd::empty(T(S[as])), d = nd::empty(T(S[ds])); int n = as == 0 ? 1 : as == 1 ? 3 : as == 2 ? 2 : 6; sym_make(a.data(), 4 * n, "a"); static const int N[] = {1, 3, 2, 6, 4, 0, 3}; if (ds != 5) memset(d.data(), 0x5a, 4 * N[ds]);
  bool fit = as == ds || (as == 1 && (ds == 3 || ds == 5)) || (as == 2 && (ds == 4 || ds == 5)); if (op) fit = as == ds;
  nd::array z = nd::empty(nty[U8]); *(uint8_t *)z.data() = 1; nd::array y = nd::empty(nty[I64]); *(int64_t *)y.data() = 0; nd::array one = nd::empty(nty[I32]); *(int32_t *)one.data() = 1; if (op) { d = nd::empty(ds == 0 ? nty[I64] : ds == 1 ? T("3 * int64") : ds == 2 ? T("2 * int64") : ds == 3 ? T("2 * 3 * int64") : ds == 4 ? T("2 * 2 * int64") : ds == 5 ? T("var * int64") : T("3 * 1 * int64")); }
  int k = threw([&] { if (op) eg({a, y}, {{"z", z}, {"dst", d}}); else nd::add({a, one}, {{"dst", d}}); }); if (op && as == 0 && ds == 0) fit = true; if (op && !fit) { sym_reach(k ? "threw" : "ok"); return; } // only memory safety
  sym_assert(k == !fit, fit ? "a destination which fits is refused" : "a destination which does not fit is accepted"); if (k || !fit) { sym_reach("threw"); return; }
  int m = ds == 5 ? n : N[ds]; const char *p = d.cdata(); if (ds == 5) p = ((const ndt::var_dim_type::data_type *)p)->begin; for (int i = 0; i < m; i++) { int32_t s = ((const int32_t *)a.cdata())[i % n]; if (op) sym_assert(((const int64_t *)p)[i] == G(s, 0, 1), "element of a destination of an elementwise function"); else sym_assert(((const int32_t *)p)[i] == (int32_t)((uint32_t)s + 1), "element of a destination"); } sym_reach("ok");
}
SYM_ENTRY(overload1) {
  int id[3]; bool thorough = sym_tier(); int form = sym_choice(2, "form"); for (int i = 0; i < 3; i++) id[i] = sym_choice(thorough ? NC : NC - 1, "candidate"); int q = sym_choice(4, "query"); nd::callable c[3]; for (int i = 0; i < 3; i++) c[i] = nd::make_callable<tagged>(ndt::make_type<ndt::callable_type>(nty[I32], {ct[thorough ? id[i] : id[i] + (id[i] >= C64)]}));
  if (!thorough) for (int i = 0; i < 3; i++) id[i] += id[i] >= C64; // without int64 as a candidate
  static auto fp = [](const ndt::type &, size_t, const ndt::type *s) { return std::vector<ndt::type>{s[0]}; }; nd::callable f; const nd::callable *r = nullptr; int k = threw([&] { f = form ? nd::make_callable<nd::multidispatch_callable<1>>(T("(Any) -> Any"), dispatcher<1, nd::callable>(fp)) : nd::make_callable<nd::multidispatch_callable<1>>(T("(Any) -> Any"), dispatcher<1, nd::callable>(fp, c, c + 3)); if (form) for (int i = 0; i < 3; i++) f->overload(c[i]); });
  sym_assert(!k, "one-argument candidates are never ambiguous"); if (k) return; k = threw([&] { r = &f->specialize(nty[I32], 1, &q4[q]); }); bool any = false; for (int i = 0; i < 3; i++) any |= takes(id[i], q); sym_assert(k == !any, "an overload is found exactly when one accepts the argument"); if (k || !any) { sym_reach("threw"); return; }
  int got = -1; for (int i = 0; i < 3; i++) if (r->get() == c[i].get()) got = i; sym_assert(got >= 0 && takes(id[got], q), "the chosen overload accepts the argument"); if (got < 0) return; for (int i = 0; i < 3; i++) if (takes(id[i], q)) sym_assert(id[i] == id[got] || !accepts(id[got], id[i]), "a more specific overload is passed over"); sym_reach("ok");
}
SYM_ENTRY(overload2) {
  static const int K[] = {C32, CINT, CSC, CF}; int nk = sym_tier() ? 4 : 3, id[3][2]; for (int i = 0; i < 3; i++) { int p = sym_choice(nk * nk, "candidate"); id[i][0] = K[p / nk]; id[i][1] = K[p % nk]; } nd::callable c[3]; for (int i = 0; i < 3; i++) c[i] = nd::make_callable<tagged>(ndt::make_type<ndt::callable_type>(nty[I32], {ct[id[i][0]], ct[id[i][1]]}));
  auto sup = [&](int i, int j) { return accepts(id[j][0], id[i][0]) && accepts(id[j][1], id[i][1]); }; bool amb = false; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) { bool cons = true; for (int d = 0; d < 2; d++) cons &= accepts(id[i][d], id[j][d]) || accepts(id[j][d], id[i][d]); if (cons && !sup(i, j) && !sup(j, i)) { bool ok = false; for (int m = 0; m < 3; m++) ok |= sup(m, i) && sup(m, j); amb |= !ok; } }
  static auto fp = [](const ndt::type &, size_t, const ndt::type *s) { return std::vector<ndt::type>{s[0], s[1]}; }; nd::callable f; int k = threw([&] { f = nd::make_callable<nd::multidispatch_callable<2>>(T("(Any, Any) -> Any"), dispatcher<2, nd::callable>(fp, c, c + 3)); }); sym_assert(k == amb, amb ? "ambiguous overloads are accepted" : "overloads are taken for ambiguous"); if (k || amb) { sym_reach("threw"); return; }
  for (int q = 0; q < 3; q++) for (int p = 0; p < 3; p++) { ndt::type s[2] = {q4[q], q4[p]}; const nd::callable *r = nullptr; k = threw([&] { r = &f->specialize(nty[I32], 2, s); }); bool any = false; for (int i = 0; i < 3; i++) any |= takes(id[i][0], q) && takes(id[i][1], p); sym_assert(k == !any, "an overload is found exactly when one accepts the arguments"); if (k || !any) continue;
    int got = -1; for (int i = 0; i < 3; i++) if (r->get() == c[i].get()) got = i; sym_assert(got >= 0 && takes(id[got][0], q) && takes(id[got][1], p), "the chosen overload accepts the arguments"); if (got < 0) continue; for (int i = 0; i < 3; i++) if (takes(id[i][0], q) && takes(id[i][1], p)) sym_assert(sup(got, i) || !sup(i, got), "a more specific overload is passed over"); } sym_reach("ok");
}
SYM_ENTRY(assign_pairs) { // every pair of types: assigned or refused, within memory
  int s = sym_choice(NA_, "source"), d = sym_choice(NA_, "destination"); nd::array a, b; if (threw([&] { a = nd::empty(aty[s]); b = nd::empty(aty[d]); })) { sym_reach("threw"); return; } size_t n = aty[s].get_data_size(); if (s == 28) n = 8; if (s < 17 || (s >= 21 && s <= 22) || s == 24 || s == 25 || s == 27 || s == 28 || s == 29) sym_make(a.data(), n, "contents"); else if (n) memset(a.data(), 0, n); if (s == 0) sym_assume(*(uint8_t *)a.data() < 2);
  if (s == 31) { *(char **)a.data() = nullptr; return; } if (d == 31 || s == 23 || d == 23 || s == 30) return; int k = threw([&] { b.assign(a); }); if (k) sym_reach("threw"); else sym_reach("ok");
}
