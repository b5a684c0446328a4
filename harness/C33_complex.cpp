//@property C33
//@bound every finite and non-finite value of every part; complex[float32] and complex[float64] with each other and with six integer types, float32 and float64, in either order; arrays of up to three elements, contiguous, reversed or every second
//@assume an operation of a complex number with a real one is the componentwise formula, with the real operand converted to the common floating-point type first; quotients are (a * conj(b)) / |b|^2 evaluated as written
//@entry cxx_compare reach=ok
//@entry cxx_arith reach=ok
//@entry cxx_assign reach=ok
//@entry arith reach=ok
//@entry compare reach=ok
//@entry compare_mixed reach=threw
//@entry parts reach=ok
//@entry parts_typed reach=threw
//@entry sums reach=ok
#include "num.h"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/math.hpp>
#include <dynd/statistics.hpp>
#include <dynd/types/fixed_dim_type.hpp>
template <class T> using C = dynd::complex<T>;
static ndt::type ct[2], c3[2], c6[2]; static const char *const cn[] = {"complex[float32]", "complex[float64]"};
extern "C" void sym_setup() { num_setup(); for (int i = 0; i < 2; i++) { ct[i] = ndt::type(cn[i]); c3[i] = ndt::make_fixed_dim(3, ct[i]); c6[i] = ndt::make_fixed_dim(6, ct[i]); } }
template <class T> static bool same(T a, T b) { return ((a != a) & (b != b)) | (a == b); }
template <class T> static T any(const char *n) { T v; sym_make(&v, sizeof v, n); return v; }
template <class T> static bool is(C<T> r, T re, T im) { return same<T>(r.m_real, re) & same<T>(r.m_imag, im); }
#define A(e, m) sym_assert((e), msg(m, " (", nm, ")"))
template <class T, class U> static void cmp2(const char *nm, C<T> x, C<U> y) { bool q = (x.m_real == y.m_real) & (x.m_imag == y.m_imag); A((x == y) == q, "complex == complex"); A((x != y) == !q, "complex != complex"); }
template <class T, class U> static void cmp1(const char *nm, C<T> x, U v) { bool q = (x.m_real == v) & (x.m_imag == 0); A((x == v) == q, "complex == real"); A((v == x) == q, "real == complex"); A((x != v) == !q, "complex != real"); }
template <class T> static void cmps(const char *nm) {
  C<T> x(any<T>("re"), any<T>("im")); int w = sym_choice(6, "with");
  switch (w) { case 0: cmp2(nm, x, C<float>(any<float>("re2"), any<float>("im2"))); break; case 1: cmp2(nm, x, C<double>(any<double>("re2"), any<double>("im2"))); break;
  case 2: cmp1(nm, x, any<T>("v")); break; case 3: cmp1(nm, x, any<int16_t>("v")); break; case 4: { std::complex<T> s(any<T>("re2"), any<T>("im2")); bool q = (x.m_real == s.real()) & (x.m_imag == s.imag()); A((x == s) == q, "complex == std::complex"); A((s == x) == q, "std::complex == complex"); break; }
  default: A((bool)x == ((x.m_real != 0) | (x.m_imag != 0)), "conversion to bool"); A(same<T>((T)x, x.m_real), "conversion to the real type"); A(same<T>(x.real(), x.m_real) & same<T>(x.imag(), x.m_imag), "parts"); { std::complex<T> s = x; A(same<T>(s.real(), x.m_real) & same<T>(s.imag(), x.m_imag), "conversion to std::complex"); C<T> b = s; A(is<T>(b, x.m_real, x.m_imag), "conversion from std::complex"); } }
  sym_reach("ok");
}
SYM_ENTRY(cxx_compare) { if (sym_choice(2, "type")) cmps<float>("float"); else cmps<double>("double"); }
template <class T, class U> static void ar2(const char *nm, int op, C<T> x, C<U> y) {
  typedef typename std::common_type<T, U>::type R; R a = x.m_real, b = x.m_imag, c = y.m_real, d = y.m_imag;
  if (op == 0) A(is<R>(x + y, a + c, b + d), "complex + complex"); else if (op == 1) A(is<R>(x - y, a - c, b - d), "complex - complex"); else if (op == 2) A(is<R>(x * y, a * c - b * d, a * d + c * b), "complex * complex"); else { R q = c * c + d * d; A(is<R>(x / y, (a * c + b * d) / q, (c * b - a * d) / q), "complex / complex"); }
}
template <class T, class U> static void ar1(const char *nm, int op, C<T> x, U v) {
  typedef typename std::common_type<T, U>::type R; R a = x.m_real, b = x.m_imag, c = v;
  if (op == 0) { A(is<R>(x + v, a + c, b), "complex + real"); A(is<R>(v + x, c + a, b), "real + complex"); } else if (op == 1) { A(is<R>(x - v, a - c, b), "complex - real"); A(is<R>(v - x, c - a, -b), "real - complex"); }
  else if (op == 2) { A(is<R>(x * v, a * c, b * c), "complex * real"); A(is<R>(v * x, c * a, c * b), "real * complex"); } else { R q = a * a + b * b; A(is<R>(x / v, a / c, b / c), "complex / real"); A(is<R>(v / x, c * a / q, -c * b / q), "real / complex"); }
}
template <class T> static void ars(const char *nm) {
  C<T> x(any<T>("re"), any<T>("im")); int w = sym_choice(7, "with"), op = w == 6 ? 0 : sym_choice(4, "op");
  switch (w) { case 0: ar2(nm, op, x, C<float>(any<float>("re2"), any<float>("im2"))); break; case 1: ar2(nm, op, x, C<double>(any<double>("re2"), any<double>("im2"))); break;
  case 2: ar1(nm, op, x, any<float>("v")); break; case 3: ar1(nm, op, x, any<double>("v")); break; case 4: ar1(nm, op, x, any<int16_t>("v")); break; case 5: ar1(nm, op, x, any<int32_t>("v")); break;
  default: A(is<T>(+x, x.m_real, x.m_imag), "+complex"); A(is<T>(-x, -x.m_real, -x.m_imag), "-complex"); A(is<T>(dynd::conj(x), x.m_real, -x.m_imag), "conj"); }
  sym_reach("ok");
}
SYM_ENTRY(cxx_arith) { if (sym_choice(2, "type")) ars<float>("float"); else ars<double>("double"); }
template <class T> static void asg(const char *nm) {
  C<T> x(any<T>("re"), any<T>("im")), y(any<T>("re2"), any<T>("im2")), z = x; T v = any<T>("v"), a = x.m_real, b = x.m_imag, c = y.m_real, d = y.m_imag, q = c * c + d * d; int op = sym_choice(10, "op");
  switch (op) { case 0: z += y; A(is<T>(z, a + c, b + d), "+="); break; case 1: z -= y; A(is<T>(z, a - c, b - d), "-="); break; case 2: z *= y; A(is<T>(z, a * c - b * d, a * d + c * b), "*="); break; case 3: z /= y; A(is<T>(z, (a * c + b * d) / q, (c * b - a * d) / q), "/="); break;
  case 4: z += v; A(is<T>(z, a + v, b), "+= real"); break; case 5: z -= v; A(is<T>(z, a - v, b), "-= real"); break; case 6: z *= v; A(is<T>(z, a * v, b * v), "*= real"); break; case 7: z /= v; A(is<T>(z, a / v, b / v), "/= real"); break;
  case 8: z *= z; A(is<T>(z, a * a - b * b, a * b + a * b), "*= itself"); break; default: { C<float> f; C<double> g; f = x; g = x; A(is<float>(f, (float)a, (float)b) & is<double>(g, (double)a, (double)b), "assignment between precisions"); f = C<float>(x); g = C<double>(x); A(is<float>(f, (float)a, (float)b) & is<double>(g, (double)a, (double)b), "conversion between precisions"); } }
  sym_reach("ok");
}
SYM_ENTRY(cxx_assign) { if (sym_choice(2, "type")) asg<float>("float"); else asg<double>("double"); }
// ---- callables
static nd::callable &fn(int o) { return o == 0 ? nd::add : o == 1 ? nd::subtract : o == 2 ? nd::multiply : nd::divide; }
static const char *const fnn[] = {"add", "subtract", "multiply", "divide"};
static nd::array cval(int s, const char *n) { nd::array a = nd::empty(ct[s]); sym_make(a.data(), s ? 16 : 8, n); return a; }
template <class R> static R lc(int t, const char *p, int part) { return t == 0 ? (R)((const float *)p)[part] : (R)((const double *)p)[part]; }
template <class R> static bool two(int op, R a, R b, bool xc, R c, R d, bool yc, const char *got) {
  R re, im; if (xc && yc) { R q = c * c + d * d; re = op == 0 ? a + c : op == 1 ? a - c : op == 2 ? a * c - b * d : (a * c + b * d) / q; im = op == 0 ? b + d : op == 1 ? b - d : op == 2 ? a * d + c * b : (c * b - a * d) / q; }
  else if (xc) { re = op == 0 ? a + c : op == 1 ? a - c : op == 2 ? a * c : a / c; im = op < 2 ? b : op == 2 ? b * c : b / c; }
  else { R q = c * c + d * d; re = op == 0 ? a + c : op == 1 ? a - c : op == 2 ? a * c : a * c / q; im = op == 0 ? d : op == 1 ? -d : op == 2 ? a * d : -a * d / q; }
  return same<R>(((const R *)got)[0], re) & same<R>(((const R *)got)[1], im);
}
SYM_ENTRY(arith) {
  static const int O[] = {I8, I32, I64, U8, U32, U64, F32, F64}; int s = sym_choice(2, "complex"), w = sym_choice(10, "with"), op = sym_choice(4, "op"), sw = sym_choice(2, "swapped"); bool oc = w >= 8; int os = w - 8, od = oc ? os : O[w] == F64;
  nd::array x = cval(s, "x"), y = oc ? cval(os, "y") : num_val(O[w], "y"), r; int k = s | od; char m[120]; strcpy(m, msg(fnn[op], sw ? " swapped: " : ": ", cn[s], ", ", oc ? cn[os] : tn[O[w]]));
  int e = threw([&] { r = sw ? fn(op)(y, x) : fn(op)(x, y); }); sym_assert(!e, msg(m, " raises")); if (e) return; bool okt = r.get_type() == ct[k]; sym_assert(okt, msg(m, ": result type")); if (!okt) return;
#define GO(R) { R a = lc<R>(s, x.cdata(), 0), b = lc<R>(s, x.cdata(), 1), c = oc ? lc<R>(os, y.cdata(), 0) : ld<R>(O[w], y.cdata()), d = oc ? lc<R>(os, y.cdata(), 1) : 0; bool okv = sw ? two<R>(op, c, d, oc, a, b, true, r.cdata()) : two<R>(op, a, b, true, c, d, oc, r.cdata()); sym_assert(okv, msg(m, ": value")); }
  if (k) GO(double) else GO(float) sym_reach("ok");
}
SYM_ENTRY(compare) {
  int s = sym_choice(2, "type"), form = sym_choice(3, "form"); nd::array x, y, r, q; if (form == 0) { x = cval(s, "x"); y = cval(s, "y"); } else { x = nd::empty(c3[s]); sym_make(x.data(), s ? 48 : 24, "x"); if (form == 1) { y = nd::empty(c3[s]); sym_make(y.data(), s ? 48 : 24, "y"); } else y = cval(s, "y"); }
  sym_assert(!threw([&] { r = nd::equal(x, y); q = nd::not_equal(x, y); }), msg(cn[s], ": comparison raises")); if (r.is_null()) return; int z = s ? 16 : 8;
  for (int i = 0; i < (form ? 3 : 1); i++) { const char *a = x.cdata() + i * z, *b = y.cdata() + (form == 1 ? i * z : 0); bool w = (lc<double>(s, a, 0) == lc<double>(s, b, 0)) & (lc<double>(s, a, 1) == lc<double>(s, b, 1)); sym_assert((r.cdata()[i] != 0) == w, msg(cn[s], ": equal")); sym_assert((q.cdata()[i] != 0) == !w, msg(cn[s], ": not_equal")); }
  sym_reach("ok");
}
SYM_ENTRY(compare_mixed) { // an order is refused; what is not refused is the right answer
  static const int O[] = {I32, U64, F32, F64}; int s = sym_choice(2, "type"), w = sym_choice(5, "with"), f = sym_choice(6, "op"), sw = sym_choice(2, "swapped"); nd::array x = cval(s, "x"), y = w == 4 ? cval(1 - s, "y") : num_val(O[w], "y"), r;
  nd::callable &g = f == 0 ? nd::equal : f == 1 ? nd::not_equal : f == 2 ? nd::less : f == 3 ? nd::less_equal : f == 4 ? nd::greater : nd::greater_equal; int e = threw([&] { r = sw ? g(y, x) : g(x, y); }); if (e) { sym_reach("threw"); return; }
  sym_assert(f < 2, msg(cn[s], ": an order of complex numbers is accepted")); if (f >= 2) return; double c = w == 4 ? lc<double>(1 - s, y.cdata(), 0) : ld<double>(O[w], y.cdata()), d = w == 4 ? lc<double>(1 - s, y.cdata(), 1) : 0; bool v = (lc<double>(s, x.cdata(), 0) == c) & (lc<double>(s, x.cdata(), 1) == d); sym_assert((r.cdata()[0] != 0) == (v == (f == 0)), msg(cn[s], ": mixed comparison"));
}
SYM_ENTRY(parts) {
  int s = sym_choice(2, "type"), lay = sym_choice(4, "layout"), f = sym_choice(3, "part"), z = s ? 16 : 8; nd::array b, x, r; if (lay == 0) x = b = cval(s, "x"); else { b = nd::empty(lay == 2 ? c6[s] : c3[s]); sym_make(b.data(), (lay == 2 ? 6 : 3) * z, "x"); x = lay == 1 ? b : lay == 2 ? b(irange().by(2)) : b(irange().by(-1)); }
  static const char *const pn[] = {"real", "imag", "conj"}; char m[80]; strcpy(m, msg(pn[f], " of ", cn[s])); int e = threw([&] { r = f == 0 ? nd::real(x) : f == 1 ? nd::imag(x) : nd::conj(x); }); sym_assert(!e, msg(m, " raises")); if (e) return; ndt::type el = f == 2 ? ct[s] : nty[s ? F64 : F32]; bool ok = r.get_type() == (lay ? ndt::make_fixed_dim(3, el) : el); sym_assert(ok, msg(m, ": type")); if (!ok) return; int rz = f == 2 ? z : z / 2, h = z / 2;
  for (int i = 0; i < (lay ? 3 : 1); i++) { const char *p = x.cdata() + (lay == 2 ? 2 : lay == 3 ? -1 : 1) * i * z, *g = r.cdata() + i * rz; double re = lc<double>(s, p, 0), im = lc<double>(s, p, 1);
    if (f < 2) sym_assert(same<double>(lc<double>(s, g, 0), f ? im : re), msg(m)); else sym_assert(same<double>(lc<double>(s, g, 0), re) & same<double>(lc<double>(s, g, 1), -im), msg(m)); (void)h; }
  sym_reach("ok");
}
SYM_ENTRY(parts_typed) { // not defined for anything else
  int t = sym_choice(NT, "type"), f = sym_choice(3, "part"); nd::array x = num_val(t, "x"), r; int e = threw([&] { r = f == 0 ? nd::real(x) : f == 1 ? nd::imag(x) : nd::conj(x); }); if (e) { sym_reach("threw"); return; }
  sym_assert(r.get_type().is_builtin() && ((f != 1 && ld<double>(t, x.cdata()) == r.as<double>()) || (f == 1 && r.as<double>() == 0)), msg("part of ", tn[t]));
}
SYM_ENTRY(sums) {
  int s = sym_choice(2, "type"), n = sym_choice(4, "size"), rev = n ? sym_choice(2, "reversed") : 0; if (!n) n = 1; int z = s ? 16 : 8; nd::array x = nd::empty(ndt::make_fixed_dim(n, ct[s])), r; sym_make(x.data(), n * z, "x"); nd::array v = rev ? x(irange().by(-1)) : x; int e = threw([&] { r = nd::sum(v); }); sym_assert(!e, msg("sum of ", cn[s], " raises")); if (e) return; bool ok = r.get_type() == ct[s]; sym_assert(ok, msg("sum of ", cn[s], ": type")); if (!ok) return;
#define SUMP(T) { T re = 0, im = 0; for (int i = 0; i < n; i++) { const T *p = (const T *)(v.cdata() + (rev ? -i : i) * z); re = re + p[0]; im = im + p[1]; } sym_assert(same<T>(((const T *)r.cdata())[0], re) & same<T>(((const T *)r.cdata())[1], im), msg("sum of ", cn[s])); }
  if (s) SUMP(double) else SUMP(float) sym_reach("ok");
}
