//@property C24
//@bound promotion: every pair out of 21 types (the built-in numeric types with 128-bit and half precision ones, bool, void, two complex types, strings) and options of them; C++ operands of every pair of ten numeric types
//@bound lossless conversion: every pair of 17 types, with every value of the source converted and converted back in the strictest error mode; options, fixed and variable-sized dimensions, tuples and structs of three numeric types
//@entry promotion reach=ok
//@entry options reach=ok
//@entry cxx reach=ok
//@entry lossless reach=yes,no
//@entry lossless_values reach=ok
//@entry lossless_compound reach=yes,no
//@entry lossless_fields reach=yes,no
#include "num.h"
#include <dynd/type_promotion.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/complex.hpp>
// kinds: b bool, i int, u uint, f float, c complex, v void, s string
struct ty { char k; int size; const char *name; };
static const ty T[] = {{'b', 1, "bool"}, {'i', 1, "int8"}, {'i', 2, "int16"}, {'i', 4, "int32"}, {'i', 8, "int64"}, {'i', 16, "int128"}, {'u', 1, "uint8"}, {'u', 2, "uint16"}, {'u', 4, "uint32"}, {'u', 8, "uint64"}, {'u', 16, "uint128"},
  {'f', 2, "float16"}, {'f', 4, "float32"}, {'f', 8, "float64"}, {'f', 16, "float128"}, {'c', 8, "complex[float32]"}, {'c', 16, "complex[float64]"}, {'v', 0, "void"}, {'s', 0, "string"}, {'s', 8, "fixed_string[8]"}, {'s', 16, "fixed_string[4,'utf32']"}};
enum { N = 21, NV = 17, NI = 17 };
static ndt::type t[N], o[N];
static int find(char k, int size) { for (int i = 0; i < N; i++) if (T[i].k == k && T[i].size == size) return i; return -1; }
// The promotion rules: at least int; the larger wins, the unsigned one on a tie; then float (at least float32), then complex, wide enough for a float64 operand.
static int promoted(int a, int b) {
  const ty &x = T[a], &y = T[b];
  if (x.k == 's' && y.k == 's') return 18; if (x.k == 's' || y.k == 's') return x.k == 'v' ? b : y.k == 'v' ? a : -1;
  if (x.k == 'v') return b; if (y.k == 'v') return a;
  if (x.k == 'c' || y.k == 'c') { int s = 8; for (const ty *z : {&x, &y}) if ((z->k == 'c' && z->size == 16) || (z->k == 'f' && z->size == 8)) s = 16; return find('c', s); }
  if (x.k == 'f' || y.k == 'f') { int s = 4; for (const ty *z : {&x, &y}) if (z->k == 'f' && z->size > s) s = z->size; return find('f', s); }
  int xs = x.k == 'b' ? 0 : x.size, ys = y.k == 'b' ? 0 : y.size; if (xs < 4 && ys < 4) return find('i', 4);
  if (xs == ys) return find(x.k == 'u' || y.k == 'u' ? 'u' : 'i', xs); return xs > ys ? a : b;
}
extern "C" void sym_setup() { num_setup(); for (int i = 0; i < N; i++) { t[i] = ndt::type(T[i].name); if (T[i].k != 'v') o[i] = ndt::make_type<ndt::option_type>(t[i]); } }
SYM_ENTRY(promotion) {
  int a = sym_choice(N, "a"), b = sym_choice(N, "b"), w = promoted(a, b); ndt::type r; char m[200]; strcpy(m, msg(T[a].name, " and ", T[b].name));
  if ((T[a].k == 'c' && T[b].size == 16 && T[b].k == 'f') || (T[b].k == 'c' && T[a].size == 16 && T[a].k == 'f')) return;   // no complex type as wide as float128
  int e = threw([&] { r = promote_types_arithmetic(t[a], t[b]); }); sym_assert(e == (w < 0), msg("promotion of ", m, w < 0 ? ": accepted" : ": raised")); if (!e) { sym_assert(r == t[w], msg("promotion of ", m, ": wrong type")); sym_reach("ok"); }
}
SYM_ENTRY(options) {
  int a = sym_choice(NV, "a"), b = sym_choice(NV, "b"), f = sym_choice(3, "which"), w = promoted(a, b);
  if ((T[a].k == 'c' && T[b].size == 16 && T[b].k == 'f') || (T[b].k == 'c' && T[a].size == 16 && T[a].k == 'f')) return;
  ndt::type r; char m[200]; strcpy(m, msg(f != 1 ? "?" : "", T[a].name, " and ", f != 0 ? "?" : "", T[b].name)); int e = threw([&] { r = promote_types_arithmetic(f != 1 ? o[a] : t[a], f != 0 ? o[b] : t[b]); });
  sym_assert(!e, msg("promotion of ", m, ": raised")); if (!e) { sym_assert(r == o[w], msg("promotion of ", m, ": wrong type")); sym_reach("ok"); }
}
template <class X> static void with(int b) {
  ndt::type x = ndt::make_type<X>();
#define Y(i, U) if (b == i) sym_assert(promote_types_arithmetic(x, ndt::make_type<U>()) == ndt::make_type<decltype(X() + U())>() && promote_types_arithmetic(ndt::make_type<U>(), x) == ndt::make_type<decltype(X() + U())>(), "promotion is not that of C++ operands");
  Y(0, int8_t) Y(1, int16_t) Y(2, int32_t) Y(3, int64_t) Y(4, uint8_t) Y(5, uint16_t) Y(6, uint32_t) Y(7, uint64_t) Y(8, float) Y(9, double)
}
SYM_ENTRY(cxx) {
  int a = sym_choice(10, "a"), b = sym_choice(10, "b");
  switch (a) { case 0: with<int8_t>(b); break; case 1: with<int16_t>(b); break; case 2: with<int32_t>(b); break; case 3: with<int64_t>(b); break; case 4: with<uint8_t>(b); break; case 5: with<uint16_t>(b); break; case 6: with<uint32_t>(b); break; case 7: with<uint64_t>(b); break; case 8: with<float>(b); break; default: with<double>(b); }
  sym_reach("ok");
}
// Can dst hold every value of src: exact sets of values. Integers: range; floats: precision (and exponent) of the significand.
static bool holds(int d, int s) {
  const ty &D = T[d], &S = T[s]; auto prec = [](int size) { return size == 2 ? 11 : size == 4 ? 24 : size == 8 ? 53 : 113; }; auto emax = [](int size) { return size == 2 ? 16 : size == 4 ? 128 : size == 8 ? 1024 : 16384; };
  int df = D.k == 'c' ? D.size / 2 : D.size, sf = S.k == 'c' ? S.size / 2 : S.size;
  if (S.k == 'b') return true; if (D.k == 'b') return false;
  if (S.k == 'i' || S.k == 'u') { int bits = 8 * S.size - (S.k == 'i');
    if (D.k == 'i') return 8 * D.size - 1 >= bits; if (D.k == 'u') return S.k == 'u' && D.size >= S.size; return prec(df) >= bits && emax(df) > bits; }
  if (S.k == 'c' && D.k != 'c') return false; if (D.k == 'f' || D.k == 'c') return df >= sf; return false;
}
SYM_ENTRY(lossless) {
  int d = sym_choice(NV, "dst"), s = sym_choice(NV, "src"); bool w = holds(d, s), r = false; char m[200]; strcpy(m, msg(T[s].name, " to ", T[d].name));
  int e = threw([&] { r = is_lossless_assignment(t[d], t[s]); }); sym_assert(!e, msg(m, ": raised")); if (e) return; sym_assert(r == w, msg(m, w ? ": not reported as lossless" : ": reported as lossless")); if (w) sym_reach("yes"); else sym_reach("no");
}
SYM_ENTRY(lossless_values) { // what is reported as lossless is: every value converts and converts back
  int d = sym_choice(NT, "dst"), s = sym_choice(NT, "src"); if (!is_lossless_assignment(nty[d], nty[s])) return; nd::array x = num_val(s, "x"), y = nd::empty(nty[d]), z = nd::empty(nty[s]); eval::eval_context ec; ec.errmode = assign_error_inexact; char m[200]; strcpy(m, msg(tn[s], " to ", tn[d]));
  sym_assert(!threw([&] { y.assign(x, assign_error_inexact); }), msg(m, ": a value is refused")); if (s == F32 || s == F64) { double v = ld<double>(s, x.cdata()); sym_assume(v == v); }
  if (s == B || d < s || (d >= F32 && s < F32) || s == d || true) { sym_assert(!threw([&] { z.assign(y, assign_error_inexact); }), msg(m, ": a value does not convert back")); sym_assert(!memcmp(z.cdata(), x.cdata(), tsz[s]), msg(m, ": a value changes")); }
  sym_reach("ok");
}
SYM_ENTRY(lossless_compound) {
  static const char *const el[] = {"int16", "int32", "uint8"}; static const char *const form[][3] = {{"?", "", ""}, {"3 * ", "", ""}, {"var * ", "", ""}, {"(", ", int8)", ""}, {"{a: ", "}", ""}, {"2 * 3 * ", "", ""}, {"3 * (int32, ", ")", ""}};
  int f = sym_choice(7, "form"), a = sym_choice(3, "dst"), b = sym_choice(3, "src"); ndt::type d(std::string(form[f][0]) + el[a] + form[f][1]), s(std::string(form[f][0]) + el[b] + form[f][1]), v(el[b]); char m[200]; strcpy(m, msg(form[f][0], el[b], " to ", el[a]));
  bool r = is_lossless_assignment(d, s); if (a == b) { sym_assert(r, msg(m, ": the same type is not lossless")); sym_reach("yes"); }
  else if (r) { sym_assert(is_lossless_assignment(ndt::type(el[a]), v), msg(m, ": reported as lossless")); } else sym_reach("no");
  if (f == 0) { bool g = is_lossless_assignment(v, d); sym_assert(!g, "a type without a missing value is reported to hold every value of an option"); }
}
SYM_ENTRY(lossless_fields) { // between structs it needs the same field names, each without loss
  static const char *const N[] = {"x", "y", "z", "X", ""}; static const char *const el[] = {"int16", "int32", "?int16"}; int n[2], f[2][2], e[2][2]; ndt::type t2[2]; for (int i = 0; i < 2; i++) { n[i] = 1 + sym_choice(2, "fields"); std::string s = "{"; for (int j = 0; j < n[i]; j++) { f[i][j] = sym_choice(j ? 4 : 2, "name"); e[i][j] = sym_choice(j ? 2 : 3, "type"); if (j && f[i][0] == f[i][1]) return; s += std::string(j ? ", " : "") + N[f[i][j]] + ": " + el[e[i][j]]; } t2[i] = ndt::type(s + "}"); }
  bool r = false, same = n[0] == n[1], part = same; for (int j = 0; j < n[0] && same; j++) same = f[0][j] == f[1][j] && e[0][j] == e[1][j]; for (int j = 0; j < n[0] && part; j++) { bool g = false; for (int k = 0; k < n[1]; k++) g |= f[0][j] == f[1][k] && is_lossless_assignment(ndt::type(el[e[0][j]]), ndt::type(el[e[1][k]])); part = g; }
  int k = threw([&] { r = is_lossless_assignment(t2[0], t2[1]); }); sym_assert(!k, "structs: raised"); if (k) return; if (same) sym_assert(r, "the same struct is not lossless"); if (r) sym_assert(part, "structs of other fields are reported as lossless"); if (r) sym_reach("yes"); else sym_reach("no");
}
