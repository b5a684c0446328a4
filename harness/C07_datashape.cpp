//@property C07
//@bound types nested to depth three out of 33 leaf types and 24 constructors, written with three styles of white space and comments; field names of 0 to 3 ASCII bytes or of one code point
//@bound every text of 0 to 3 bytes, every one-byte replacement, deletion and truncation of 26 texts; sizes of 1 to 20 digits
//@assume categorical, adapted, array-valued and device types are outside
//@entry trees reach=ok
//@entry names reach=simple,quoted
//@entry code_points reach=ok
//@entry free_texts reach=ok,threw
//@entry edits reach=ok,threw
//@entry sizes reach=ok,threw
//@entry misc reach=ok,threw
//@entry printed_sizes reach=ok
#include "common.h"
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/char_type.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_bytes_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/state_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/type_type.hpp>
#include <dynd/types/typevar_constructed_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <sstream>
using namespace ndt;
using ndt::type;
typedef std::vector<type> TV; typedef std::vector<std::string> SV;
static const int NL = 33; static const char *const ln[NL] = {"int32", "bool", "int8", "int16", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128", "float16", "float32", "float64", "float128", "complex[float32]", "complex[float64]", "void", "string", "bytes", "type", "Any", "Scalar", "T", "Foo_1", "fixed_string[7]", "fixed_string[3, 'utf16']", "fixed_bytes[6, align=2]", "fixed_bytes[5]", "bytes[align=4]", "char", "char['ascii']", "State"};
static type lt[NL], T32;
extern "C" void sym_setup() {
  T32 = make_type<int32_t>(); type l[NL] = {T32, make_type<bool1>(), make_type<int8_t>(), make_type<int16_t>(), make_type<int64_t>(), make_type<int128>(), make_type<uint8_t>(), make_type<uint16_t>(), make_type<uint32_t>(), make_type<uint64_t>(), make_type<uint128>(), make_type<float16>(), make_type<float>(), make_type<double>(), make_type<float128>(), make_type<dynd::complex<float>>(), make_type<dynd::complex<double>>(), make_type<void>(), make_type<dynd::string>(), make_type<dynd::bytes>(), make_type<type_type>(), make_type<any_kind_type>(), make_type<scalar_kind_type>(), make_type<typevar_type>("T"), make_type<typevar_type>("Foo_1"), make_type<fixed_string_type>(7, string_encoding_utf_8), make_type<fixed_string_type>(3, string_encoding_utf_16), make_type<fixed_bytes_type>(6, 2), make_type<fixed_bytes_type>(5, 1), make_type<bytes_type>(4), make_type<char_type>(), make_type<char_type>(string_encoding_ascii), make_type<state_type>()};
  for (int i = 0; i < NL; i++) lt[i] = l[i];
}
static std::string show(const type &t) { std::stringstream o; o << t; return o.str(); }
static std::string ws(int style, bool opt) { return style == 0 ? opt ? "" : " " : style == 1 ? "  " : "\t# x]\n"; }
// One constructor around a type; text with `w` where white space may stand
static const int NC = 24;
static type wrap(int c, const type &t, const std::string &s, const std::string &w, std::string &o) {
  std::string p = w + "*" + w; auto kw = [&](bool v) { return make_type<struct_type>(SV{"x"}, TV{t}, v); };
  switch (c) {
  case 0: o = "3" + p + s; return make_fixed_dim(3, t); case 1: o = "0" + p + s; return make_fixed_dim(0, t); case 2: o = "var" + p + s; return make_type<var_dim_type>(t); case 3: o = "Fixed" + p + s; return make_type<fixed_dim_kind_type>(t); case 4: o = "N" + p + s; return make_type<typevar_dim_type>("N", t); case 5: o = "Dims" + w + "..." + p + s; return make_type<ellipsis_dim_type>("Dims", t); case 6: o = "..." + p + s; return make_type<ellipsis_dim_type>(t);
  case 7: o = "3" + w + "**N" + p + s; return make_type<pow_dimsym_type>(make_fixed_dim(3, make_type<void>()), "N", t); case 8: o = "M" + w + "**N" + p + s; return make_type<pow_dimsym_type>(make_type<typevar_dim_type>("M", make_type<void>()), "N", t); case 9: o = "Fixed" + w + "**N" + p + s; return make_type<pow_dimsym_type>(make_type<fixed_dim_kind_type>(make_type<void>()), "N", t); case 10: o = "var**2" + p + s; return make_type<var_dim_type>(make_type<var_dim_type>(t));
  case 11: o = "?" + w + s; return make_type<option_type>(t); case 12: o = "pointer" + w + "[" + w + s + w + "]"; return make_type<pointer_type>(t); case 13: o = "(" + w + s + w + ")"; return make_type<tuple_type>(TV{t}); case 14: o = "(" + w + s + w + "," + w + "int8" + w + "," + w + ")"; return make_type<tuple_type>(TV{t, lt[2]}); case 15: o = "(" + w + s + w + "," + w + "..." + w + ")"; return make_type<tuple_type>(1, &t, true);
  case 16: o = "{" + w + "x" + w + ":" + w + s + w + "}"; return make_type<struct_type>(SV{"x"}, TV{t}); case 17: o = "{" + w + "'a b'" + w + ":" + w + "int8" + w + "," + w + "y_2" + w + ":" + w + s + w + "}"; return make_type<struct_type>(SV{"a b", "y_2"}, TV{lt[2], t}); case 18: o = "{" + w + "x" + w + ":" + w + s + w + "," + w + "..." + w + "}"; return make_type<struct_type>(SV{"x"}, TV{t}, true);
  case 19: o = "(" + w + s + w + ")" + w + "->" + w + s; return make_type<callable_type>(t, make_type<tuple_type>(TV{t}), make_type<struct_type>()); case 20: o = "(int8," + w + "x" + w + ":" + w + s + w + ")" + w + "->" + w + "int32"; return make_type<callable_type>(T32, make_type<tuple_type>(TV{lt[2]}), kw(false)); case 21: o = "(" + w + "..." + w + "," + w + "x" + w + ":" + w + s + w + "," + w + "..." + w + ")->" + w + s; { TV e; return make_type<callable_type>(t, make_type<tuple_type>(0, e.data(), true), kw(true)); }
  case 22: o = "C" + w + "[" + w + s + w + "]"; return make_type<typevar_constructed_type>("C", t); default: o = "2" + w + "**3" + p + s; return make_fixed_dim(2, make_fixed_dim(2, make_fixed_dim(2, t)));
  }
}
static void trip(const type &t, const char *what0) {
  std::string w_ = what0; const char *what = w_.c_str();
  std::string s, s2; type u; int k = threw([&] { s = show(t); }); sym_assert(!k, msg("a type does not print: ", what)); if (k) return; k = threw([&] { u = type(s); }); sym_assert(!k, msg("printed type is refused: ", what)); if (k) return;
  sym_assert(u == t, msg("printed type reads back as another type: ", what)); sym_assert(!(u != t), "== and != of types agree"); k = threw([&] { s2 = show(u); }); sym_assert(!k && s2 == s, msg("type prints differently after reading: ", what));
}
SYM_ENTRY(trees) {
  sym_pin_iostream(-1); int d = sym_choice(sym_tier() ? 4 : 3, "depth"), l, st = sym_choice(3, "spaces"); static const int L2[] = {0, 23, 29, 15}, L3[] = {0, 2, 6, 7, 9, 11, 12, 15, 17, 18, 20, 21, 22}; l = d < 2 ? sym_choice(NL, "leaf") : L2[sym_choice(sym_tier() ? 4 : 2, "leaf")]; type t = lt[l]; std::string s = ln[l], w = ws(st, true); const char *in = ln[l];
  for (int i = 0; i < d; i++) { int c = d < 3 || i == 0 ? sym_choice(NC, "constructor") : L3[sym_choice(13, "constructor")]; std::string o; type n; int k = threw([&] { n = wrap(c, t, s, w, o); }); if (k) { type r; sym_assert(threw([&] { r = type(o); }), "text of a type that cannot be made is accepted"); return; } if (c == 11 && s[0] == '?') return; t = n; s = o; }
  static const char *const cn[] = {"", " in a constructor", " in two constructors", " in three constructors"}; type u; std::string full = w + s + w; int k = threw([&] { u = type(full); }); sym_assert(!k, msg("text is refused: ", in, cn[d])); if (k) return; sym_assert(u == t, msg("text reads as another type: ", in, cn[d])); trip(t, msg(in, cn[d])); sym_reach("ok");
}
static void named(const std::string &n, const char *what) { type t = make_type<struct_type>(SV{n, "z"}, TV{T32, lt[1]}); trip(t, what); }
SYM_ENTRY(names) { sym_pin_iostream(-1); int n = sym_choice(4, "n"); char b[4]; if (n) sym_make(b, n, "name"); bool simple = n > 0; for (int i = 0; i < n; i++) { sym_assume((unsigned char)b[i] < 128); simple &= sym_fork(isalpha((unsigned char)b[i]) || b[i] == '_' || (i && isdigit((unsigned char)b[i]))); } named(std::string(b, n), "field name"); sym_reach(simple ? "simple" : "quoted"); }
SYM_ENTRY(code_points) {
  sym_pin_iostream(-1); uint32_t c = sym_u32("c"); sym_assume((c < 0x110000) & ((c < 0xd800) | (c > 0xdfff))); char b[4]; int n = 0; if (c < 0x80) b[n++] = c; else if (c < 0x800) { b[n++] = 0xc0 | c >> 6; b[n++] = 0x80 | (c & 63); } else if (c < 0x10000) { b[n++] = 0xe0 | c >> 12; b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } else { b[n++] = 0xf0 | c >> 18; b[n++] = 0x80 | (c >> 12 & 63); b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); }
  named(std::string(b, n), "field name of a code point"); sym_reach("ok");
}
static void any(const char *b, size_t n, const char *what0) { std::string w_ = what0; const char *what = w_.c_str(); char *h = (char *)malloc(n ? n : 1); memcpy(h, b, n); type t; int k = threw([&] { t = type_from_datashape(h, h + n); }); free(h); if (k) { sym_reach("threw"); return; } sym_assert(!t.is_null(), msg("text gives no type: ", what)); trip(t, what); sym_reach("ok"); }
SYM_ENTRY(free_texts) { sym_pin_iostream(-1); int n = sym_choice(sym_tier() ? 5 : 4, "n"); char b[8]; if (n) sym_make(b, n, "text"); any(b, n, "free text"); }
static const char *const tpl[] = {"3*int8", "var * T", "?int8", "(int8)", "(T,...)", "{x:T}", "{x:T,...}", "{'a':T}", "(T)->T", "(T,x:T)->T", "(...,x:T,...)->T", "pointer[T]", "fixed_bytes[4,align=2]", "fixed_string[3,'A']", "bytes[align=2]", "char['ascii']", "N**M*T", "Fixed**N*T", "2**3*T", "A...*T", "...*T", "C[T]", "complex[float32]", "type X=T T", "{'\\u00e9\\n':T}", "#a\nT"};
SYM_ENTRY(edits) { sym_pin_iostream(-1); int t = sym_choice(26, "text"), kind = sym_choice(4, "edit"); std::string s = tpl[t]; int n = s.size(), p = sym_choice(n, "at"); if (kind == 0) sym_make(&s[p], 1, "byte"); else if (kind == 1) s.erase(p, 1); else if (kind == 2) s.resize(p); else { s.insert(p, 1, 'x'); sym_make(&s[p], 1, "byte"); } if (kind == 0 || kind == 3) sym_assume((unsigned char)s[p] < 128); if (t == 18) sym_assume((s[3] < '4') | (s[3] > '9')); any(s.data(), s.size(), msg("edit of ", tpl[t])); }
SYM_ENTRY(sizes) {
  sym_pin_iostream(-1); static const char *const pre[] = {"", "", "1", "12345", "9223372036854775", "92233720368547758", "9999999999999999", "18446744073709551", "1844674407370955", "922337203685477580"}; int q = sym_choice(10, "prefix"), f = sym_choice(4, "form"), m = 1 + sym_choice(3, "digits"), n = strlen(pre[q]); char d[24]; memcpy(d, pre[q], n); sym_make(d + n, m, "d"); n += m; u128 v = 0; for (int i = 0; i < n; i++) { sym_assume((d[i] >= '0') & (d[i] <= '9')); v = v * 10 + (u128)(d[i] - '0'); } sym_assume((d[0] != '0') | (n == 1)); std::string s = f == 0 ? std::string(d, n) + " * int32" : f == 1 ? "fixed_string[" + std::string(d, n) + ", 'utf8']" : f == 2 ? "fixed_bytes[" + std::string(d, n) + "]" : "{x: " + std::string(d, n) + " * int8}";
  type t; int k = threw([&] { t = type_from_datashape(s.data(), s.data() + s.size()); }); bool fits = sym_fork(v <= (u128)INT64_MAX); if (f == 0) { sym_assert(k == !fits, "dimension size is refused or accepted wrongly"); if (k || !fits) { sym_reach("threw"); return; } sym_assert(t.get_id() == fixed_dim_id && t.extended<fixed_dim_type>()->get_fixed_dim_size() == (intptr_t)v, "dimension size is another number"); }
  else if (f == 3) { sym_assert(k == !fits, "nested dimension size is refused or accepted wrongly"); if (k || !fits) { sym_reach("threw"); return; } sym_assert(t.extended<struct_type>()->get_field_type(0).extended<fixed_dim_type>()->get_fixed_dim_size() == (intptr_t)v, "nested dimension size is another number"); }
  else { bool ok = fits && sym_fork(v > 0); sym_assert(k == !ok, f == 1 ? "string size is refused or accepted wrongly" : "bytes size is refused or accepted wrongly"); if (k || !ok) { sym_reach("threw"); return; } if (f == 1) sym_assert(t.extended<fixed_string_type>()->get_size() == (intptr_t)v, "string size is another number"); else sym_assert(t.extended()->get_data_size() == (size_t)v, "bytes size is another number"); } sym_reach("ok");
}
SYM_ENTRY(misc) { // accepted and refused texts with a known meaning
  sym_pin_iostream(-1); struct { const char *s, *same; } M[] = {{"(...)", "( ... )"}, {"{...}", "{ ... }"}, {"()", "( )"}, {"{}", "{ }"}, {"{x:int32,}", "{x: int32}"}, {"(int32,)", "(int32)"}, {"intptr", "int64"}, {"size", "uint64"}, {"int", "int32"}, {"real", "float64"}, {"complex", "complex[float64]"}, {"complex64", "complex[float32]"}, {"{\"x\":int8}", "{x:int8}"}, {"{'\\u0078':int8}", "{x:int8}"}, {"char['utf32']", "char"}, {"fixed_string[4,'U8']", "fixed_string[4]"}, {"type X = int8\n int16", "int16"}, {"(x:T)->T", "( x : T )-> T"}, {"(...)->T", "( ... ) -> T"}, {"()->T", "( ) -> T"}, {"{'':int8}", "{\"\":int8}"}, {"?3*?int8", "? 3 * ? int8"}, {"3*?{x:var*?string}", "3 * ?{x: var * ?string}"}};
  static const char *const bad[] = {"", " ", "\n", "#", "3", "3 *", "* T", "(T", "T)", "{x}", "{x:}", "{x:T y:T}", "{x:T,,}", "{,}", "(,)", "(T,,T)", "(T T)", "[T]", "??T", "?", "(T)->", "(T)-", "var", "Fixed", "pointer", "pointer[]", "pointer[T", "fixed_bytes", "fixed_bytes[]", "fixed_bytes[4", "fixed_bytes[4,align=3]", "fixed_string[4,'x']", "bytes[3]", "int32[T]", "foo", "foo*T", "-3*T", "3.5*T", "00*T", "03*T", "N**", "N**M", "N**M*", "3**0*T", "3**-1*T", "foo**2*T", "A...", "A...T", "...", "...T", "complex[int32]", "complex[float32", "{'x:T}", "{'x\\':T}", "{'\\q':T}", "{'\\u00':T}", "{x:T,...,y:T}", "(...,T)", "(x:T)", "(T,x:T)", "(x:T,T)->T", "type X", "type X=", "type int32=T", "T]", "T}", "T,", "T;", "3***T", "char['utf16']"};
  int i = sym_choice(23 + sizeof bad / sizeof *bad, "case"); if (i < 23) { type a, b; int k = threw([&] { a = type(std::string(M[i].s)); b = type(std::string(M[i].same)); }); sym_assert(!k, msg("text is refused: ", M[i].s)); if (k) return; sym_assert(a == b, msg("text reads as another type: ", M[i].s)); trip(a, M[i].s); sym_reach("ok"); return; }
  i -= 23; type t; const char *s = bad[i]; int k = threw([&] { t = type_from_datashape(s, s + strlen(s)); }); sym_assert(k, msg("malformed text is accepted: ", s)); sym_reach("threw");
}
SYM_ENTRY(printed_sizes) { // every size prints as itself
  sym_pin_iostream(-1); int f = sym_choice(8, "form"), digits = 1 + sym_choice(19, "digits"); uint64_t v = sym_u64("size"), lo = digits == 1 ? 0 : 1, hi = 1; for (int i = 1; i < digits; i++) lo *= 10; for (int i = 0; i < digits && hi < UINT64_MAX / 10; i++) hi *= 10; if (digits == 19) hi = 1ull << 63; sym_assume((v >= lo) & (v < hi)); if (f) sym_assume((v > 0) & (v < (1ull << 60)));
  if (f && digits == 19) return; intptr_t n = (intptr_t)v; type t; int k = threw([&] { switch (f) { case 0: t = make_fixed_dim(n, T32); break; case 1: t = make_type<fixed_bytes_type>(n, 1); break; case 2: t = make_type<fixed_string_type>(n, string_encoding_utf_8); break; case 3: t = make_type<fixed_string_type>(n, string_encoding_utf_16); break; case 4: t = make_type<fixed_bytes_type>(n * 8, 8); break; case 5: t = make_type<struct_type>(SV{"x"}, TV{make_fixed_dim(n, make_type<var_dim_type>(T32))}); break; case 6: t = make_type<option_type>(make_type<fixed_string_type>(n, string_encoding_ascii)); break; default: t = make_type<callable_type>(make_fixed_dim(n, T32), make_type<tuple_type>(TV{make_fixed_dim(n, T32)}), make_type<struct_type>()); } }); sym_assert(!k, "a type of some size cannot be made"); if (k) return; std::string s; type u; k = threw([&] { s = show(t); u = type(s); }); sym_assert(!k, "a printed size is refused"); if (k) return; sym_assert(u == t, "a printed size reads back as another one"); sym_reach("ok");
}
