//@property C34
//@bound numbers: every value of the integers of 8 to 64 bits; booleans
//@bound text: no, one or two (three in the thorough tier) arbitrary code points in strings, fixed strings of each encoding and characters; 0 to 3, 39 to 41, 64 and 90 arbitrary bytes
//@bound lists of 0 to 79, 120, 375, 400 and 800 numbers of 1, 2 and 6 digits with one arbitrary digit; rows and nested lists up to 12 x 40 of both layouts, reversed and strided; 1 to 14 rows of long text and 8 to 40 short texts with a long one at each of eight places; tuples and structs with options, var dimensions and nested lists
//@assume floating point values are not printed: the stream formats them, with six digits
//@entry numbers reach=positive,negative
//@entry booleans reach=ok
//@entry strings reach=ok
//@entry fixed_texts reach=ok
//@entry raw_bytes reach=ok
//@entry lists reach=whole,cut
//@entry nested reach=ok,cut
//@entry long_rows reach=whole,cut
//@entry wide_middle reach=whole,cut
//@entry records reach=ok
//@entry number_text reach=ok,refused
#include "num.h"
#include <sstream>
#include <vector>
#include <dynd/index.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/string_encodings.hpp>
typedef unsigned char u8; typedef std::string Str;
static bool digit(char c) { return (u8)(c - '0') < 10; }
// Reader of printed text
struct Rd { const char *p, *e; const char *what; };
static bool take(Rd &r, const char *s) { size_t n = strlen(s); if ((size_t)(r.e - r.p) < n) return false; for (size_t i = 0; i < n; i++) if (r.p[i] != s[i]) return false; r.p += n; return true; }
static void must(Rd &r, const char *s) { sym_assert(take(r, s), msg(r.what, ": expected ", s)); }
static bool blank(Rd &r) { return r.p < r.e && (*r.p == ' ' || *r.p == '\n'); }
static void blanks(Rd &r) { while (blank(r)) r.p++; }
static void decimal(Rd &r, uint64_t v, bool neg) {   // exactly the digits of v
  if (neg) must(r, "-"); const char *b = r.p; uint64_t x = 0; unsigned __int128 y = 0; while (r.p < r.e) { u8 d = (u8)(*r.p - '0'); if (d >= 10) break; r.p++; if (r.p - b < 20) x = x * 10 + d; else y = (unsigned __int128)x * 10 + d; }
  int n = r.p - b; sym_assert(n > 0 && n <= 20, msg(r.what, ": digits expected")); sym_assert(n < 20 ? x == v : y == (unsigned __int128)v, msg(r.what, ": another number")); sym_assert(n == 1 || *b != '0', msg(r.what, ": leading zero"));
}
static uint32_t hexes(Rd &r, int n) { uint32_t v = 0, ok = 1; sym_assert(r.e - r.p >= n, msg(r.what, ": digits of an escape")); for (int i = 0; i < n; i++) { u8 c = *r.p++; uint32_t d = (u8)(c - '0'), l = (u8)(c - 'a'), m = -(uint32_t)(d < 10); ok &= (d < 10) | (l < 6); v = v * 16 + ((d & m) | ((l + 10) & ~m)); } sym_assert(ok, msg(r.what, ": digit of an escape")); return v; }
static uint32_t one(Rd &r) {   // one code point of quoted text
  sym_assert(r.p < r.e, msg(r.what, ": text ends")); u8 c = *r.p++; sym_assert((c >= 32) & (c < 127), msg(r.what, ": unprintable character")); if (c != '\\') return c; sym_assert(r.p < r.e, msg(r.what, ": escape ends")); c = *r.p++;
  switch (c) { case 'b': return 8; case 'f': return 12; case 'n': return 10; case 'r': return 13; case 't': return 9; case '"': return '"'; case '\\': return '\\'; case 'u': return hexes(r, 4); case 'U': return hexes(r, 8); }
  sym_assert(0, msg(r.what, ": unknown escape")); return 0;
}
static void quoted(Rd &r, const uint32_t *cp, int n) { must(r, "\""); for (int i = 0; i < n; i++) { sym_assert(r.p < r.e && *r.p != '"', msg(r.what, ": text too short")); sym_assert(one(r) == cp[i], msg(r.what, ": another character")); } must(r, "\""); }
static Str shown;
static Rd show(const nd::array &a, const char *what) { std::stringstream ss; ss << a; shown = ss.str(); Rd r = {shown.data(), shown.data() + shown.size(), what}; must(r, "array("); return r; }
static void finish(Rd &r, const char *type) { must(r, ",\n      type=\""); must(r, type); must(r, "\")"); sym_assert(r.p == r.e, msg(r.what, ": more text")); }
static nd::array made(const char *t) { return nd::empty(ndt::type(Str(t))); }
static nd::array from_json(const char *t, const char *j) { return parse_json(ndt::type(Str(t)), j, j + strlen(j), &eval::default_eval_context); }
static int put8(uint32_t c, char *b) { int n = 0; if (c < 0x80) b[n++] = c; else if (c < 0x800) { b[n++] = 0xc0 | c >> 6; b[n++] = 0x80 | (c & 63); } else if (c < 0x10000) { b[n++] = 0xe0 | c >> 12; b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } else { b[n++] = 0xf0 | c >> 18; b[n++] = 0x80 | (c >> 12 & 63); b[n++] = 0x80 | (c >> 6 & 63); b[n++] = 0x80 | (c & 63); } return n; }
static uint32_t any_cp(const char *name) { uint32_t c = sym_u32(name); sym_assume((c < 0x110000) & ((c < 0xd800) | (c > 0xdfff))); return c; }
extern "C" void sym_setup() {
  libdynd_init(); num_setup(); std::stringstream ss; ss << from_json("3 * {a: ?int32, b: var * (string, bool), c: string}", "[[1, [[\"x\", true]], \"a\"], [null, [], \"b\"], [3, [[\"y\", false]], \"c\"]]") << nd::array(1.5) << nd::array((signed char)3); ss << made("2 * 2 * fixed_string[3, 'utf16']") << ndt::type("int32");
  nd::array f = made("fixed_string[4, 'utf32']"); f.assign(nd::array(12)); threw([&] { f.assign(nd::array(123456)); });
  for (int t = 0; t < F32; t++) { nd::array a = nd::empty(nty[t]); memset(a.data(), 0, tsz[t]); ss << a; }
}
static void number(int t, char *p) { sym_make(p, tsz[t], "v"); if (t == B) sym_assume(*(u8 *)p < 2); }
static void expect_number(Rd &r, int t, const char *p) { bool sg = t >= I8 && t <= I64; uint64_t v = sg ? (uint64_t)ld<int64_t>(t, p) : ld<uint64_t>(t, p); bool neg = sg && sym_fork((int64_t)v < 0); decimal(r, neg ? -v : v, neg); sym_reach(neg ? "negative" : "positive"); }
SYM_ENTRY(numbers) { sym_pin_iostream(-1); int t = I8 + sym_choice(U64 - I8 + 1, "type"); nd::array a = nd::empty(nty[t]); number(t, a.data()); Rd r = show(a, tn[t]); expect_number(r, t, a.cdata()); finish(r, tn[t]); }
SYM_ENTRY(booleans) { sym_pin_iostream(-1); int n = 1 + sym_choice(3, "n"); nd::array a = nd::empty(ndt::make_fixed_dim(n, nty[B])); sym_make(a.data(), n, "v"); for (int i = 0; i < n; i++) sym_assume((u8)a.data()[i] < 2); Rd r = show(a, "booleans"); for (int i = 0; i < n; i++) { must(r, i ? "," : "["); blanks(r); must(r, sym_fork(a.cdata()[i]) ? "True" : "False"); } must(r, "]"); finish(r, n == 1 ? "1 * bool" : n == 2 ? "2 * bool" : "3 * bool");
  nd::array b = nd::empty(nty[B]); b.data()[0] = a.cdata()[0]; Rd q = show(b, "boolean"); must(q, b.cdata()[0] ? "True" : "False"); finish(q, "bool"); sym_reach("ok"); }
SYM_ENTRY(strings) { sym_pin_iostream(-1); int n = sym_choice(sym_tier() ? 4 : 3, "n"); uint32_t cp[4]; char b[20]; int m = 0; for (int i = 0; i < n; i++) { cp[i] = any_cp("c"); m += put8(cp[i], b + m); } nd::array a = made("string"); ((dynd::string *)a.data())->assign(b, m); Rd r = show(a, "string"); quoted(r, cp, n); finish(r, "string"); sym_reach("ok"); }
SYM_ENTRY(fixed_texts) { sym_pin_iostream(-1); static const char *const tt[] = {"fixed_string[2, 'ascii']", "fixed_string[8]", "fixed_string[4, 'utf16']", "fixed_string[2, 'utf32']", "char['ascii']", "char", "char['ucs2']"}; static const int lim[] = {0x80, 0x110000, 0x110000, 0x110000, 0x80, 0x110000, 0x10000};
  int k = sym_choice(7, "type"), n = k >= 4 ? 1 : sym_choice(3, "n"); uint32_t cp[2]; nd::array a = made(tt[k]); char *p = a.data(); int sz = a.get_type().get_data_size(); memset(p, 0, sz); char *e = p + sz;
  for (int i = 0; i < n; i++) { cp[i] = any_cp("c"); sym_assume(((int)cp[i] < lim[k]) & ((k >= 4) | (cp[i] != 0)));
    if (k == 0 || k == 4) *p++ = cp[i]; else if (k == 1) { char b[4]; int m = put8(cp[i], b); memcpy(p, b, m); p += m; } else if (k == 3 || k == 5) { memcpy(p, &cp[i], 4); p += 4; } else { uint16_t u[2] = {(uint16_t)cp[i], 0}; int m = 1; if (cp[i] > 0xffff) { m = 2; u[0] = 0xd7c0 + (cp[i] >> 10); u[1] = 0xdc00 | (cp[i] & 0x3ff); } memcpy(p, u, 2 * m); p += 2 * m; } sym_assert(p <= e, "harness"); }
  Rd r = show(a, tt[k]); quoted(r, cp, n); Str t = a.get_type().str(); finish(r, t.c_str()); sym_reach("ok"); }
SYM_ENTRY(raw_bytes) { sym_pin_iostream(-1); static const int L[] = {0, 1, 2, 3, 39, 40, 41, 64, 90}; int n = L[sym_choice(9, "n")], fixed = sym_choice(2, "fixed"); sym_assume(!fixed | (n > 0)); char b[100]; for (int i = 0; i < n; i++) b[i] = i * 37 + 11; sym_make(b, n, "b");
  nd::array a = fixed ? nd::empty(ndt::type("fixed_bytes[" + std::to_string(n) + "]")) : made("bytes"); if (fixed) memcpy(a.data(), b, n); else ((dynd::bytes *)a.data())->assign(b, n); Rd r = show(a, "bytes"); if (n == 0) must(r, "NULL"); int i = 0, dots = 0; while (i < n) { if (r.p < r.e && *r.p == ' ') { must(r, " ... "); dots++; int k = 0; while (r.p + k < r.e && *(r.p + k) != ',') k++; sym_assert(k % 2 == 0 && k > 0 && k / 2 <= n - i, "bytes: end of a summary"); i = n - k / 2; } sym_assert(hexes(r, 2) == (u8)b[i], "bytes: another byte"); i++; }
  sym_assert(dots == (n > 40), "bytes: cut or not"); Str t = a.get_type().str(); finish(r, t.c_str()); sym_reach("ok"); }
// A printed list: reads "[x, y, ... z]" where each element is read by f(r, i); returns whether it was cut. Elements of the end are found by their count.
template <class F> static bool list(Rd &r, int n, F f, int tail) {
  must(r, "["); int i = 0; bool cut = false; blanks(r);
  while (i < n) { if (i || cut) { must(r, ","); blanks(r); } if (!cut && r.p < r.e && *r.p == '.') { must(r, "..."); cut = true; blanks(r); sym_assert(i > 0, msg(r.what, ": nothing before the dots")); int left = tail < 0 ? -1 : tail; if (left < 0) { int k = 1; for (const char *q = r.p; q < r.e && *q != ']'; q++) k += *q == ','; left = k; } sym_assert(left >= 1 && left < n - i, msg(r.what, ": nothing after the dots")); i = n - left; } f(r, i); i++; }
  must(r, "]"); return cut;
}
SYM_ENTRY(lists) { sym_pin_iostream(-1); static const int big[] = {120, 374, 375, 376, 400, 800}; int w = sym_choice(3, "digits"), k = sym_choice(86, "n"), n = k < 80 ? k : big[k - 80]; sym_assume((k >= 80) | (k % 3 == (int)w) | (k > 70) | (k % 25 < 3) | (k < 13) | sym_tier()); static const int base[] = {0, 10, 123450}; int var = k & 1;
  nd::array a = var ? from_json("var * int32", "[]") : nd::empty(ndt::make_fixed_dim(n, nty[I32])); if (var) { a = made("var * int32"); ndt::var_dim_type::data_type *d = (ndt::var_dim_type::data_type *)a.data(); d->begin = ((ndt::var_dim_type::metadata_type *)a.get()->metadata())->blockref->alloc(n ? n : 1); d->size = n; } int *v = var ? (int *)((ndt::var_dim_type::data_type *)a.data())->begin : (int *)a.data();
  for (int i = 0; i < n; i++) v[i] = base[w] + i % 10; if (n) { int p = n < 2 ? 0 : (k * 7 + w) % 3 == 0 ? 0 : n - 1; sym_make(v + p, 4, "v"); sym_assume((v[p] >= base[w]) & (v[p] < base[w] + 10)); }
  Rd r = show(a, "list"); bool cut = list(r, n, [&](Rd &q, int i) { decimal(q, v[i], false); }, -1); sym_assert(!cut || n > 90, "list: a short list is cut"); sym_reach(cut ? "cut" : "whole"); Str t = a.get_type().str(); finish(r, t.c_str()); }
SYM_ENTRY(nested) { sym_pin_iostream(-1); static const int R[] = {1, 2, 3, 8, 9, 12, 2, 11, 3, 2}, C[] = {1, 2, 0, 2, 4, 3, 40, 40, 30, 26}; int s = sym_choice(10, "shape"), lay = sym_choice(4, "layout"), n = R[s], m = C[s], rr = lay & 1 ? 2 * n : n, cc = lay & 2 ? m * 2 : m; nd::array b = nd::empty(rr, cc, nty[I32]); int *v = (int *)b.data(); for (int i = 0; i < rr * cc; i++) v[i] = 10 + i % 90;
  nd::array a = b; if (lay == 1) a = b(irange().by(2)); if (lay == 2) a = b(irange(), irange().by(-2)); if (lay == 3) a = b(irange().by(-2), irange().by(2)); auto at = [&](int i, int j) -> int & { int x = lay == 1 ? 2 * i : lay == 3 ? rr - 1 - 2 * i : i, y = lay == 2 ? cc - 1 - 2 * j : lay == 3 ? 2 * j : j; return v[x * cc + y]; }; if (m) { int &x = at(n - 1, m / 2); sym_make(&x, 4, "v"); sym_assume((x >= 10) & (x < 100)); }
  Rd r = show(a, "rows"); int rows = 0; for (const char *q = r.p; q < r.e; q++) rows += *q == '['; bool dots = shown.find("...") != Str::npos; int tail = -1; if (dots) { size_t d = shown.find("..."); tail = 0; for (size_t i = d; i < shown.size(); i++) tail += shown[i] == '['; } bool cut = list(r, n, [&](Rd &q, int i) { bool c = list(q, m, [&](Rd &z, int j) { decimal(z, at(i, j), false); }, -1); sym_assert(!c, "rows: a row is cut"); }, tail); sym_assert(!cut || n * ((m + 17) / 18) > 10, "rows: few rows are cut"); sym_reach(cut ? "cut" : "ok"); Str t = a.get_type().str(); finish(r, t.c_str()); }
// texts of the elements: repeated letters, the last character arbitrary but printable
static Str cell(int i, int len) { return Str(len, 'a' + i % 26); }
static void texts(const char *what, int n, const std::vector<Str> &s) { nd::array a = nd::empty(ndt::make_fixed_dim(n, ndt::type("string"))); for (int i = 0; i < n; i++) ((dynd::string *)a.data())[i].assign(s[i].data(), s[i].size());
  Rd r = show(a, what); int tail = 0; size_t d = shown.find("\n ..."); if (d == Str::npos) d = shown.find("       ...\n"); if (d != Str::npos) { for (size_t i = d; i < shown.size(); i++) tail += shown[i] == '"'; tail = (tail - 2) / 2; }
  bool cut = list(r, n, [&](Rd &q, int i) { uint32_t cp[100]; for (size_t k = 0; k < s[i].size(); k++) cp[k] = (u8)s[i][k]; quoted(q, cp, s[i].size()); }, tail); sym_reach(cut ? "cut" : "whole"); Str t = a.get_type().str(); finish(r, t.c_str()); }
static void letter(Str &s) { if (s.empty()) return; char &c = s[s.size() - 1]; sym_make(&c, 1, "c"); sym_assume((c > ' ') & (c < 127) & (c != '"') & (c != '\\')); }
SYM_ENTRY(long_rows) { sym_pin_iostream(-1); int n = 1 + sym_choice(14, "n"), p = sym_choice(2, "at") ? n - 1 : 0; std::vector<Str> s; for (int i = 0; i < n; i++) s.push_back(cell(i, 29 + (i * 5) % 40)); letter(s[p]); texts("long rows", n, s); }
SYM_ENTRY(wide_middle) { sym_pin_iostream(-1); static const int N[] = {8, 11, 12, 13, 14, 20, 30, 40}; int n = N[sym_choice(8, "n")], p = sym_choice(8, "at") + (n > 8 ? 2 : 0), len = sym_choice(2, "very") ? 90 : 32; std::vector<Str> s; for (int i = 0; i < n; i++) s.push_back(cell(i, 1)); s[p] = cell(p, len); letter(s[n - 1]); texts("one long text", n, s); }
SYM_ENTRY(records) { sym_pin_iostream(-1); int k = sym_choice(5, "shape"); int8_t x = (int8_t)sym_u8("x"); bool na = sym_choice(2, "missing"); uint32_t c = 'a' + (sym_u8("c") & 15); char cc = c; static const char *const T[] = {"{a: int8, b: ?int32, c: string}", "(int8, (?int32, string), bool)", "(string, int8, var * ?int32)", "2 * {a: int8, b: (?int32, string)}", "var * ?int8"};
  nd::array a; if (k == 4) { a = from_json(T[4], na ? "[null, 5]" : "[7, 5]"); int8_t *q = (int8_t *)((ndt::var_dim_type::data_type *)a.data())->begin; sym_assume(x != -128); q[1] = x; } else a = from_json(T[k], k == 0 ? na ? "[0, null, \"x\"]" : "[0, 77, \"x\"]" : k == 1 ? na ? "[0, [null, \"x\"], true]" : "[0, [77, \"x\"], true]" : k == 2 ? na ? "[\"x\", 0, [1, null]]" : "[\"x\", 0, [1, 77]]" : na ? "[[0, [null, \"x\"]], [0, [5, \"y\"]]]" : "[[0, [77, \"x\"]], [0, [5, \"y\"]]]");
  bool neg = sym_fork(x < 0); uint64_t ax = neg ? -(uint64_t)x : (uint64_t)x; auto num = [&](Rd &r) { if (na) must(r, "NA"); else decimal(r, 77, false); };
  if (k == 0) { *(int8_t *)a(0).data() = x; ((dynd::string *)a(2).data())->assign(&cc, 1); } else if (k == 1) { *(int8_t *)a(0).data() = x; ((dynd::string *)a(1, 1).data())->assign(&cc, 1); } else if (k == 2) { *(int8_t *)a(1).data() = x; ((dynd::string *)a(0).data())->assign(&cc, 1); } else if (k == 3) { *(int8_t *)a(1, 0).data() = x; ((dynd::string *)a(0, 1, 1).data())->assign(&cc, 1); }
  Rd r = show(a, T[k]); if (k == 0) { must(r, "["); decimal(r, ax, neg); must(r, ", "); num(r); must(r, ", "); quoted(r, &c, 1); must(r, "]"); }
  else if (k == 1) { must(r, "["); decimal(r, ax, neg); must(r, ", ["); num(r); must(r, ", "); quoted(r, &c, 1); must(r, "], True]"); }
  else if (k == 2) { must(r, "["); quoted(r, &c, 1); must(r, ", "); decimal(r, ax, neg); must(r, ", ["); blanks(r); decimal(r, 1, false); must(r, ","); blanks(r); num(r); must(r, "]]"); }
  else if (k == 3) { must(r, "["); blanks(r); must(r, "["); decimal(r, 0, false); must(r, ", ["); num(r); must(r, ", "); quoted(r, &c, 1); must(r, "]],"); blanks(r); must(r, "["); decimal(r, ax, neg); must(r, ", ["); decimal(r, 5, false); must(r, ", \"y\"]]]"); }
  else { must(r, "["); blanks(r); if (na) must(r, "NA"); else decimal(r, 7, false); must(r, ","); blanks(r); decimal(r, ax, neg); must(r, "]"); }
  Str t = a.get_type().str(); finish(r, t.c_str()); sym_reach("ok"); }
SYM_ENTRY(number_text) { sym_pin_iostream(-1); int d = sym_choice(3, "target"); static const char *const D[] = {"fixed_string[4]", "fixed_string[5, 'utf16']", "fixed_string[11, 'utf32']"}; static const int cap[] = {4, 5, 11}; nd::array a = nd::empty(nty[I32]), s = made(D[d]); char *w = a.data(); number(I32, w); char *f = s.data(); memset(f, 'z', s.get_type().get_data_size()); int th = threw([&] { s.assign(a); });
  int64_t v = *(int *)w; bool neg = sym_fork(v < 0); uint64_t av = neg ? -v : v; int len = neg; uint64_t p = 1; do { len++; p *= 10; } while (sym_fork(av >= p));
  sym_assert(th == (len > cap[d]), msg("int32 as ", D[d], ": refused or not")); if (th) { sym_reach("refused"); return; }
  char b[16]; int n = 0; while (n < cap[d]) { uint32_t c = d == 0 ? (u8)f[n] : d == 1 ? ((uint16_t *)f)[n] : ((uint32_t *)f)[n]; if (!c) break; sym_assert(c < 128, "character"); b[n++] = c; }
  sym_assert(n == len, msg("int32 as ", D[d], ": length")); Rd r = {b, b + n, "number as text"}; decimal(r, av, neg); sym_assert(r.p == r.e, "number as text: more text"); sym_reach("ok"); }
