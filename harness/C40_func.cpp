//@property C40
//@bound outer products of functions of one to three arguments, each a scalar or an array of one or two dimensions of sizes 0 to 3, contiguous, reversed or every second; every value
//@bound compositions with buffers of four types, on scalars and on arrays of up to 257 elements (three chunks of 128) with free elements at four places; constants of seven types with any arguments; left and right compounds; where on up to 5 elements
//@entry outer reach=ok
//@entry outer_refused reach=threw
//@entry compose reach=ok
//@entry compose_arrays reach=ok
//@entry compose_strings reach=ok
//@entry constant reach=ok
//@entry compound reach=ok
//@entry where reach=ok
//@entry where_arrays reach=ok
//@entry adapted reach=ok
#include "num.h"
#include <dynd/functional.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/index.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef intptr_t ip;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
static ndt::type fx(const ndt::type &e, int n) { return ndt::make_fixed_dim(n, e); }
static nd::callable out[4], outd, comp, comps, compe, lc, rc, wh, whel, out4; static ndt::type ts;
static int64_t A1(int32_t x) { return (int64_t)x * 3 + 1; }
static int64_t A2(int32_t x, int16_t y) { return (int64_t)x * 100003 + y; }
static int64_t A3(int32_t x, int16_t y, int64_t z) { return (int64_t)x * 100003 + (int64_t)y * 7 + (z << 20); }
static int64_t H(int16_t x) { return (int64_t)x * 5 - 3; }
static double K(int64_t x) { return (double)(int32_t)x * 0.5; }
static int32_t S2(int32_t x, int32_t y) { return (int32_t)((uint32_t)x * 3u - (uint32_t)y); }
extern "C" void sym_setup() {
  num_setup(); ts = T("string"); out[1] = nd::functional::outer(nd::functional::apply(&A1)); out[2] = nd::functional::outer(nd::functional::apply(&A2)); out[3] = nd::functional::outer(nd::functional::apply(&A3)); out4 = nd::functional::outer(nd::functional::apply([](int a, int b, int c, int d) { return a + b + c + d; }));
  comp = nd::functional::compose(nd::functional::apply(&H), nd::functional::apply(&K), nty[I64]); comps = nd::functional::compose(nd::copy, nd::functional::apply([](int64_t x) { return x + 1; }), nty[I64]); compe = nd::functional::elwise(comp); lc = nd::functional::left_compound(nd::functional::apply(&S2)); rc = nd::functional::right_compound(nd::functional::apply(&S2));
  wh = nd::functional::where(nd::functional::apply([](int32_t x) { return x < 11; }));
  nd::array a = nd::empty(fx(nty[I32], 2)), b = nd::empty(fx(nty[I16], 2)), c = nd::empty(fx(nty[I64], 2)); memset(a.data(), 0, 8); memset(b.data(), 0, 4); memset(c.data(), 0, 16); out[1](a); out[2](a, b); out[3](a, b, c); compe(b); wh(a); nd::array d = nd::empty(nty[I16]); *(int16_t *)d.data() = 1; comp(d); comps(d);
}
static const int AT[] = {I32, I16, I64};
SYM_ENTRY(outer) {
  int N = 1 + sym_choice(3, "arguments"), sh[3][2], nd_[3], lay = sym_choice(3, "layout"); bool deep = sym_tier(); nd::array a[3], f[3]; int total[3]; char *ptr[3][9];
  for (int i = 0; i < N; i++) { nd_[i] = sym_choice(3, "dimensions"); if (N == 3 && nd_[i] == 2 && !deep && i != 1) return; for (int d = 0; d < nd_[i]; d++) sh[i][d] = N == 3 || d ? 2 : sym_choice(deep ? 4 : 3, "size"); int t = AT[i]; if (nd_[i] == 0) { a[i] = nd::empty(nty[t]); total[i] = 1; ptr[i][0] = a[i].data(); } else { ndt::type e = nty[t]; if (nd_[i] == 2) e = fx(e, sh[i][1]); int n = sh[i][0]; f[i] = nd::empty(fx(e, lay == 2 ? 2 * n : n)); a[i] = lay == 0 || !n ? f[i] : lay == 1 ? f[i](irange().by(-1)) : f[i](irange().by(2)); ip s0 = ((const size_stride_t *)a[i]->metadata())->stride; int m = nd_[i] == 2 ? sh[i][1] : 1; total[i] = n * m; for (int k = 0; k < n * m; k++) ptr[i][k] = (char *)a[i].cdata() + (k / m) * s0 + (k % m) * tsz[t]; } for (int k = 0; k < total[i]; k++) sym_make(ptr[i][k], tsz[t], "element"); }
  nd::array r; int k = threw([&] { r = N == 1 ? out[1](a[0]) : N == 2 ? out[2](a[0], a[1]) : out[3](a[0], a[1], a[2]); }); sym_assert(!k, "an outer product raises"); if (k) return; ndt::type want = nty[I64]; int size = 1; for (int i = N; i-- > 0;) for (int d = nd_[i]; d-- > 0;) { want = fx(want, sh[i][d]); size *= sh[i][d]; } bool ok = r.get_type() == want; sym_assert(ok, "type of an outer product"); if (!ok) return; const int64_t *p = (const int64_t *)r.cdata(); int q[3] = {0, 0, 0};
  for (int x = 0; x < size; x++) { int y = x; for (int i = N; i-- > 0;) { q[i] = y % total[i]; y /= total[i]; } int32_t u = *(int32_t *)ptr[0][q[0]]; int64_t w = N == 1 ? A1(u) : N == 2 ? A2(u, *(int16_t *)ptr[1][q[1]]) : A3(u, *(int16_t *)ptr[1][q[1]], *(int64_t *)ptr[2][q[2]]); sym_assert(p[x] == w, "element of an outer product"); } sym_reach("ok");
}
SYM_ENTRY(outer_refused) {
  int w = sym_choice(6, "case"); nd::array v = nd::empty(T("var * int32")); auto *d = (ndt::var_dim_type::data_type *)v.data(); (void)d; nd::array i32 = nd::empty(fx(nty[I32], 2)), i16 = nd::empty(fx(nty[I16], 2)), s = nd::empty(nty[I32]); memset(i32.data(), 0, 8); memset(i16.data(), 0, 4); *(int *)s.data() = 0; if (w == 0 || w == 1) v.assign(i32); nd::array r; int k = threw([&] { switch (w) { case 0: r = out[1](v); break; case 1: r = out[2](v, i16); break; case 2: r = out4(i32, i32, i32, i32); break; case 3: r = out[2](i16, i16); break; case 4: r = out[2](i32); break; default: r = out[1](i32, i32); } }); sym_assert(k, "an outer product of unsupported arguments is accepted"); sym_reach("threw");
}
SYM_ENTRY(compose) { int w = sym_choice(2, "which"); nd::array x = num_val(I16, "x"), r; int16_t v = *(const int16_t *)x.cdata(); int k = threw([&] { r = w ? comps(x) : comp(x); }); sym_assert(!k, "a composition raises"); if (k) return; if (w) sym_assert(r.get_type() == nty[I64] && *(const int64_t *)r.cdata() == (int64_t)v + 1, "result of a composition"); else sym_assert(r.get_type() == nty[F64] && *(const double *)r.cdata() == K(H(v)), "result of a composition"); sym_reach("ok"); }
SYM_ENTRY(compose_arrays) { // through the buffer, chunk by chunk
  static const int L[] = {0, 1, 2, 70, 127, 128, 129, 200, 257, 256, 330, 400}; int n = L[sym_choice(sym_tier() ? 12 : 9, "size")], lay = sym_choice(3, "layout"); nd::array f = nd::empty(fx(nty[I16], lay == 2 ? 2 * n : n)), a = !n || !lay ? f : lay == 1 ? f(irange().by(-1)) : f(irange().by(2)), r; ip st = ((const size_stride_t *)a->metadata())->stride; for (int i = 0; i < n; i++) *(int16_t *)(a.cdata() + i * st) = (int16_t)(i * 37 - 1000); int16_t sy[4]; int q[4] = {0, n / 2, n - 1, 128}; for (int i = 0; i < 4; i++) if (q[i] < n && q[i] >= 0) { sy[i] = (int16_t)(sym_u32("x")); *(int16_t *)(a.cdata() + q[i] * st) = sy[i]; }
  int k = threw([&] { r = compe(a); }); sym_assert(!k, "a composition raises"); if (k) return; bool ok = r.get_type() == fx(nty[F64], n); sym_assert(ok, "type of a composition"); if (!ok) return; for (int i = 0; i < n; i++) { int16_t v = *(const int16_t *)(a.cdata() + i * st); sym_assert(((const double *)r.cdata())[i] == K(H(v)), "element of a composition"); } sym_reach("ok");
}
SYM_ENTRY(compose_strings) { // a buffer which owns memory is emptied between chunks
  static nd::callable f; int n = sym_choice(3, "size"); n = n == 0 ? 1 : n == 1 ? 128 : 150; f = nd::functional::elwise(nd::functional::compose(nd::assign, nd::functional::apply([](dynd::string s) { return (int64_t)s.size() * 1000 + (s.size() ? (unsigned char)s.data()[0] : 0); }), ts)); ndt::type t = sym_choice(2, "fixed") ? T("fixed_string[20]") : ts; nd::array a = nd::empty(fx(t, n)), r; unsigned char c[3]; int l[150]; bool fixed = t != ts; for (int i = 0; i < n; i++) { char b[20]; memset(b, 'a' + i % 26, 20); l[i] = (i * 7) % 19; if (i == 0 || i == n - 1 || i == 127) { b[0] = (char)(32 + (sym_u8("text") & 63)); l[i] = 3; } if (fixed) { memset(a.data() + 20 * i, 0, 20); memcpy(a.data() + 20 * i, b, l[i]); } else ((dynd::string *)a.data())[i].assign(b, l[i]); } (void)c;
  int k = threw([&] { r = f(a); }); sym_assert(!k, "a composition raises"); if (k) return; for (int i = 0; i < n; i++) { const char *p = fixed ? a.cdata() + 20 * i : ((const dynd::string *)a.cdata())[i].data(); sym_assert(((const int64_t *)r.cdata())[i] == (int64_t)l[i] * 1000 + (l[i] ? (unsigned char)p[0] : 0), "element of a composition through strings"); } sym_reach("ok");
}
SYM_ENTRY(constant) {
  static const char *const S[] = {"int32", "float64", "bool", "string", "3 * int16", "(int8, int64)", "var * int32"}; int w = sym_choice(6, "constant"), g = sym_choice(4, "arguments"); nd::array c = nd::empty(T(S[w])); unsigned char b[16]; static const int Z[] = {4, 8, 1, 0, 6, 16}; sym_make(b, 16, "constant"); if (w == 2) b[0] &= 1; if (w == 3) ((dynd::string *)c.data())->assign((const char *)b, 2), sym_assume((b[0] < 128) & (b[1] < 128)); else if (w == 5) { c.data()[0] = b[0]; memcpy(c.data() + 8, b + 8, 8); } else memcpy(c.data(), b, Z[w]); nd::callable f = nd::functional::constant(c); nd::array x = num_val(I16, "x"), y = nd::empty(T("2 * string")), r; int k = threw([&] { r = g == 0 ? f() : g == 1 ? f(x) : g == 2 ? f(x, y) : f(y); }); sym_assert(!k, "a constant raises"); if (k) return; bool ok = r.get_type() == c.get_type(); sym_assert(ok && r.cdata() != c.cdata(), "type of a constant"); if (!ok) return; if (w == 3) { auto *s = (const dynd::string *)r.cdata(); sym_assert(s->size() == 2 && !memcmp(s->data(), b, 2), "value of a constant"); } else if (w == 5) sym_assert(r.cdata()[0] == (char)b[0] && !memcmp(r.cdata() + 8, b + 8, 8), "value of a constant"); else sym_assert(!memcmp(r.cdata(), b, Z[w]), "value of a constant"); sym_reach("ok");
}
SYM_ENTRY(compound) { int w = sym_choice(2, "side"), again = sym_choice(3, "again"); nd::array x = num_val(I32, "x"), y = num_val(I32, "y"); int32_t v = *(const int32_t *)y.cdata(), u = *(const int32_t *)x.cdata(); for (int i = 0; i <= again; i++) { int k = threw([&] { (w ? rc : lc)({x}, {{"dst", y}}); }); sym_assert(!k, "a compound raises"); if (k) return; v = w ? S2(u, v) : S2(v, u); sym_assert(*(const int32_t *)y.cdata() == v, "result of a compound"); } sym_assert(*(const int32_t *)x.cdata() == u, "a compound changes its source"); sym_reach("ok"); }
static void where_check(const nd::array &a, int n) { ip st = ((const size_stride_t *)a->metadata())->stride; nd::array r; int k = threw([&] { r = wh(a); }); sym_assert(!k, "where raises"); if (k) return; ndt::type t = T("var * 1 * intptr"); bool ok = r.get_type() == t; sym_assert(ok, "type of where"); if (!ok) return; auto *v = (const ndt::var_dim_type::data_type *)r.cdata(); ip rs = ((const ndt::var_dim_type::metadata_type *)r->metadata())->stride; int want = 0; for (int i = 0; i < n; i++) if (sym_fork(*(const int32_t *)(a.cdata() + i * st) < 11)) { bool in = want < (int)v->size; sym_assert(in, "where misses an element"); if (!in) return; sym_assert(*(const ip *)(v->begin + want * rs) == i, "position found by where"); want++; } sym_assert((int)v->size == want, "where finds an element which is not there"); sym_reach("ok"); }
SYM_ENTRY(where) { int n = sym_choice(sym_tier() ? 7 : 6, "size"); nd::array a = nd::empty(fx(nty[I32], n)); for (int i = 0; i < n; i++) sym_make(a.data() + 4 * i, 4, "element"); where_check(a, n); }
SYM_ENTRY(where_arrays) { int n = 1 + sym_choice(3, "size"), lay = 1 + sym_choice(2, "layout"); nd::array f = nd::empty(fx(nty[I32], lay == 2 ? 2 * n : n)), a = lay == 1 ? f(irange().by(-1)) : f(irange().by(2)); sym_make(f.data(), 4 * (lay == 2 ? 2 * n : n), "elements"); where_check(a, n); }
SYM_ENTRY(adapted) { // a child which is itself elementwise
  nd::array x = nd::empty(fx(nty[I32], 2)), y = nd::empty(fx(nty[I32], 3)), r; sym_make(x.data(), 8, "x"); sym_make(y.data(), 12, "y"); static nd::callable f; f = nd::functional::outer(nd::functional::apply(&S2)); int k = threw([&] { r = f(x, y); }); sym_assert(!k, "an outer product raises"); if (k) return; sym_assert(r.get_type() == fx(fx(nty[I32], 3), 2), "type of an outer product"); for (int i = 0; i < 6; i++) sym_assert(((const int32_t *)r.cdata())[i] == S2(((const int32_t *)x.cdata())[i / 3], ((const int32_t *)y.cdata())[i % 3]), "element of an outer product"); sym_reach("ok");
}
