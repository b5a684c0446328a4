//@property C05
//@bound validation: every text of 0 to 4 bytes; every text of up to 7 of the characters []{},:"1 and space; every text of up to 6 of -+.eE019 and blanks; words of up to 6 letters; strings of up to 4 free bytes between quotes; escapes with every four free bytes after \u and two free bytes within \U; bytes form feed and vertical tab excluded
//@bound round trips: every integer of 8 to 64 bits and options of them; strings of up to 3 free bytes of valid UTF-8 and of lengths around the growth points of the output buffer with one free byte; booleans, missing values, nested lists, tuples and structs of fixed integers, strings and booleans
//@entry any reach=valid,invalid
//@entry structure reach=valid,invalid
//@entry numbers reach=valid,invalid
//@entry words reach=valid,invalid
//@entry strings reach=valid,invalid
//@entry unicode_escapes reach=valid,invalid
//@entry unescape reach=ok,threw
//@entry utf8_text reach=ok
//@entry roundtrip reach=ok
//@entry long_text reach=ok
//@entry containers reach=ok
//@entry integers reach=ok,missing
#include "common.h"
#include <dynd/json_parser.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/option.hpp>
typedef unsigned char u8;
// Reference recogniser of JSON text
struct Rd { const u8 *p, *e; };
static void ws(Rd &r) { while (r.p < r.e && (*r.p == ' ' || *r.p == '\t' || *r.p == '\n' || *r.p == '\r')) r.p++; }
static bool hexd(u8 c) { return (u8)(c - '0') < 10 || (u8)((c | 32) - 'a') < 6; }
static bool digit(u8 c) { return (u8)(c - '0') < 10; }
static bool str(Rd &r) {
  if (r.p == r.e || *r.p != '"') return false; r.p++;
  for (;;) { if (r.p == r.e) return false; u8 c = *r.p++; if (c == '"') return true; if (c != '\\') continue; if (r.p == r.e) return false; c = *r.p++;
    if (c == 'u' || c == 'U') { for (int k = c == 'u' ? 4 : 8; k; k--) { if (r.p == r.e || !hexd(*r.p)) return false; r.p++; } continue; }
    if (!(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')) return false; }
}
static bool word(Rd &r, const char *w) { size_t n = strlen(w); if ((size_t)(r.e - r.p) < n || memcmp(r.p, w, n)) return false; r.p += n; return true; }
static bool number(Rd &r) {
  if (r.p < r.e && *r.p == '-') r.p++; if (r.p == r.e || !digit(*r.p)) return false; if (*r.p == '0') r.p++; else while (r.p < r.e && digit(*r.p)) r.p++;
  if (r.p < r.e && *r.p == '.') { r.p++; if (r.p == r.e || !digit(*r.p)) return false; while (r.p < r.e && digit(*r.p)) r.p++; }
  if (r.p < r.e && (*r.p == 'e' || *r.p == 'E')) { r.p++; if (r.p < r.e && (*r.p == '+' || *r.p == '-')) r.p++; if (r.p == r.e || !digit(*r.p)) return false; while (r.p < r.e && digit(*r.p)) r.p++; } return true;
}
static bool value(Rd &r) {
  ws(r); if (r.p == r.e) return false;
  if (*r.p == '[' || *r.p == '{') { bool o = *r.p == '{'; u8 cl = o ? '}' : ']'; r.p++; ws(r); if (r.p < r.e && *r.p == cl) { r.p++; return true; }
    for (;;) { if (o) { ws(r); if (!str(r)) return false; ws(r); if (r.p == r.e || *r.p != ':') return false; r.p++; } if (!value(r)) return false; ws(r); if (r.p == r.e) return false; if (*r.p == cl) { r.p++; return true; } if (*r.p != ',') return false; r.p++; } }
  if (*r.p == '"') return str(r); if (*r.p == 't') return word(r, "true"); if (*r.p == 'f') return word(r, "false"); if (*r.p == 'n') return word(r, "null"); return number(r);
}
static bool is_json(const char *p, int n) { Rd r = {(const u8 *)p, (const u8 *)p + n}; if (!value(r)) return false; ws(r); return r.p == r.e; }
static void judge(const char *b, int n, const char *what) {
  // an exact-size copy, so that reading past the end is noticed
  char *h = (char *)malloc(n ? n : 1); memcpy(h, b, n); int t = threw([&] { validate_json(h, h + n); }); bool ok = is_json(b, n); if (ok) { sym_assert(!t, msg("valid JSON refused: ", what)); sym_reach("valid"); } else { sym_assert(t, msg("invalid JSON accepted: ", what)); sym_reach("invalid"); } free(h);
}
static void in_set(const char *b, int n, const char *set) { for (int i = 0; i < n; i++) { bool k = false; for (const char *s = set; *s; s++) k |= b[i] == *s; sym_assume(k); } }
SYM_ENTRY(any) { int n = sym_choice(sym_tier() ? 6 : 5, "n"); char b[8]; if (n) sym_make(b, n, "text"); for (int i = 0; i < n; i++) sym_assume((b[i] != 11) & (b[i] != 12)); judge(b, n, "short text"); }
SYM_ENTRY(structure) { int n = 4 + sym_choice(sym_tier() ? 5 : 3, "n"); char b[12]; sym_make(b, n, "text"); in_set(b, n, "[]{},:\"1 "); judge(b, n, "lists and objects"); }
SYM_ENTRY(numbers) { int n = 1 + sym_choice(sym_tier() ? 8 : 6, "n"); char b[12]; sym_make(b, n, "text"); in_set(b, n, "-+.eE019 "); judge(b, n, "numbers"); }
SYM_ENTRY(words) { int n = 4 + sym_choice(3, "n"); char b[12]; sym_make(b, n, "text"); in_set(b, n, "truefalsn ,T"); judge(b, n, "words"); }
SYM_ENTRY(strings) { int n = sym_choice(sym_tier() ? 6 : 5, "n"), f = sym_choice(2, "form"); char b[16]; int k = 0; if (f) { memcpy(b, "{\"", 2); k = 2; } else b[k++] = '"'; if (n) { sym_make(b + k, n, "text"); for (int i = 0; i < n; i++) sym_assume((b[k + i] != 11) & (b[k + i] != 12)); k += n; } b[k++] = '"'; if (f) { memcpy(b + k, ":1}", 3); k += 3; } judge(b, k, "strings"); }
SYM_ENTRY(unicode_escapes) { int big = sym_choice(2, "long"), n = 1 + sym_choice(big ? 2 : 5, "n"); char b[16] = "\"\\u"; int k = 3; if (big) { b[2] = 'U'; memcpy(b + 3, "0001F6", 6); k = 9; } sym_make(b + k, n, "text"); for (int i = 0; i < n; i++) sym_assume((b[k + i] != 11) & (b[k + i] != 12)); k += n; b[k++] = '"'; judge(b, k, "unicode escapes"); }

static ndt::type ts, tb, ti, tso; static nd::array pool[8];
static nd::array parse(const ndt::type &t, const char *b, int n) { char *h = (char *)malloc(n ? n : 1); memcpy(h, b, n); try { nd::array r = parse_json(t, h, h + n, &eval::default_eval_context); free(h); return r; } catch (...) { free(h); throw; } }
extern "C" void sym_setup() {
  ts = ndt::make_type<ndt::string_type>(); tb = ndt::make_type<bool>(); ti = ndt::make_type<int32_t>(); tso = ndt::make_type<ndt::option_type>(ts);
  threw([&] { nd::array a = parse(ts, "\"a\\u00e9\\n\"", 11); format_json(a); validate_json("[1,\"a\",{\"b\":true}]", "[1,\"a\",{\"b\":true}]" + 18); }); threw([&] { parse(ts, "\"\\x\"", 4); }); threw([&] { parse(tso, "null", 4); });
}
// Reference: contents of a JSON string (between the quotes) as UTF-8; -1 when it cannot be represented
static int put8(u8 *o, uint32_t c) { if (c < 0x80) { o[0] = c; return 1; } if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; } if (c < 0x10000) { if (c - 0xd800u < 0x800u) return -1; o[0] = 0xe0 | c >> 12; o[1] = 0x80 | (c >> 6 & 63); o[2] = 0x80 | (c & 63); return 3; } if (c > 0x10ffff) return -1; o[0] = 0xf0 | c >> 18; o[1] = 0x80 | (c >> 12 & 63); o[2] = 0x80 | (c >> 6 & 63); o[3] = 0x80 | (c & 63); return 4; }
static uint32_t hexv(u8 c) { return digit(c) ? c - '0' : (c | 32) - 'a' + 10; }
static int unesc(const u8 *p, const u8 *e, u8 *o) {
  int n = 0; while (p < e) { u8 c = *p++; if (c != '\\') { o[n++] = c; continue; } c = *p++; if (c == 'u' || c == 'U') { uint32_t v = 0; for (int k = c == 'u' ? 4 : 8; k; k--) v = v << 4 | hexv(*p++); if (c == 'u' && v - 0xd800u < 0x400u && e - p >= 6 && p[0] == '\\' && p[1] == 'u') { uint32_t w = 0; for (int k = 2; k < 6; k++) w = w << 4 | hexv(p[k]); if (w - 0xdc00u < 0x400u) { p += 6; v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); } } int k = put8(o + n, v); if (k < 0) return -1; n += k; }
    else o[n++] = c == 'b' ? '\b' : c == 'f' ? '\f' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c; } return n;
}
static void unesc_case(const char *b, int k, const char *what) {
  sym_assume(is_json(b, k)); u8 w[64]; int n = unesc((const u8 *)b + 1, (const u8 *)b + k - 1, w); nd::array r; int t = threw([&] { r = parse(ts, b, k); }); if (n < 0) { sym_assert(t, msg(what, ": surrogate or out of range code point accepted")); sym_reach("threw"); return; } sym_assert(!t, msg(what, ": valid string refused")); if (t) return; const dynd::string *s = (const dynd::string *)r.cdata(); bool ok = s->size() == (size_t)n; sym_assert(ok, msg(what, ": wrong length")); if (ok) sym_assert(!memcmp(s->data(), w, n), msg(what, ": wrong text")); sym_reach("ok");
}
static int sym_hex(char *b, int n) { sym_make(b, n, "hex"); for (int i = 0; i < n; i++) sym_assume((((u8)(b[i] - '0') < 10) | ((u8)(b[i] - 'a') < 6)) != 0); return n; }
SYM_ENTRY(unescape) {
  int f = sym_choice(5, "form"); char b[40] = "\""; int k = 1;
  if (f == 0) { int n = 1 + sym_choice(3, "n"); sym_make(b + k, n, "text"); for (int i = 0; i < n; i++) sym_assume((b[k + i] != '"') & ((u8)b[k + i] >= 0x20) & ((u8)b[k + i] < 0x7f)); k += n; } // whatever escapes fit
  else if (f == 1) { memcpy(b + k, "x\\u", 3); k += 3; k += sym_hex(b + k, 4); b[k++] = 'y'; }
  else if (f == 2) { memcpy(b + k, "\\ud8", 4); k += 4; k += sym_hex(b + k, 2); memcpy(b + k, "\\ud", 3); k += 3; k += sym_hex(b + k, 3); }
  else if (f == 3) { memcpy(b + k, "\\U00", 4); k += 4; k += sym_hex(b + k, 2); memcpy(b + k, "f6", 2); k += 2; k += sym_hex(b + k, 2); }
  else { memcpy(b + k, "a\\", 2); k += 2; sym_make(b + k, 1, "c"); sym_assume((b[k] != 'u') & (b[k] != 'U')); k++; memcpy(b + k, "\\\\z", 3); k += 3; }
  b[k++] = '"'; unesc_case(b, k, f == 0 ? "string with escapes" : f == 1 ? "\\u escape" : f == 2 ? "surrogate pair escape" : f == 3 ? "\\U escape" : "simple escape");
}
// One code point of each UTF-8 length, free
static int code_point(u8 *o) { int n = 1 + sym_choice(4, "len"); uint32_t c = sym_u32("cp"); sym_assume(n == 1 ? c < 0x80 : n == 2 ? c >= 0x80 && c < 0x800 : n == 3 ? c >= 0x800 && c < 0x10000 && c - 0xd800u >= 0x800u : c >= 0x10000 && c < 0x110000); return put8(o, c); }
static nd::array text(const char *p, int n) { nd::array a = nd::empty(ts); ((dynd::string *)a.data())->assign(p, n); return a; }
static bool is_text(const nd::array &a, const char *p, int n) { const dynd::string *s = (const dynd::string *)a.cdata(); return s->size() == (size_t)n && !memcmp(s->data(), p, n); }
SYM_ENTRY(utf8_text) { char b[16] = "\"a"; int k = 2; k += code_point((u8 *)b + k); sym_assume((b[2] != '"') & (b[2] != '\\')); b[k++] = '"'; nd::array r; int t = threw([&] { r = parse(ts, b, k); }); sym_assert(!t, "text refused"); if (t) return; sym_assert(is_text(r, b + 1, k - 2), "text changed"); sym_reach("ok"); }
static void round_trip(const nd::array &a, const char *what, nd::array &r, bool list = false) {
  nd::array j; int t = threw([&] { j = format_json(a, list); }); sym_assert(!t, msg(what, ": not formatted")); if (t) { r = nd::array(); return; } const dynd::string *s = (const dynd::string *)j.cdata(); t = threw([&] { validate_json(s->begin(), s->end()); }); sym_assert(!t, msg(what, ": formatted text is not JSON")); { bool raw = false; for (const char *q = s->begin(); q < s->end(); q++) raw |= (u8)*q < 0x20; sym_assert(!raw, msg(what, ": formatted text holds a raw control character")); sym_assert(is_json(s->begin(), s->size()), msg(what, ": formatted text is not valid JSON")); if (a.get_type() == ts) { static u8 o[8192]; const u8 *e = (const u8 *)s->end(); const dynd::string *w = (const dynd::string *)a.cdata(); bool q = s->size() >= 2; sym_assert(q, msg(what, ": formatted text is no string")); if (q) { int m = unesc((const u8 *)s->begin() + 1, e - 1, o); q = m == (int)w->size(); sym_assert(q, msg(what, ": formatted text denotes another string")); if (q) sym_assert(!memcmp(o, w->data(), m), msg(what, ": formatted text denotes another text")); } } } t = threw([&] { r = parse(a.get_type(), s->begin(), s->size()); }); sym_assert(!t, msg(what, ": formatted text is not read back")); if (t) r = nd::array();
}
SYM_ENTRY(roundtrip) { sym_pin_iostream(-1); char b[16]; int n = 0, m = sym_choice(3, "chars"); for (int i = 0; i < m; i++) n += code_point((u8 *)b + n); nd::array r; round_trip(text(b, n), "string", r); if (!r.is_null()) { sym_assert(is_text(r, b, n), "string: text changed"); sym_reach("ok"); } }
SYM_ENTRY(long_text) { sym_pin_iostream(-1); static const int L[] = {1000, 1021, 1022, 1023, 1024, 1025, 2045, 2047}; int n = L[sym_choice(8, "length")]; static char b[4096]; for (int i = 0; i < n; i++) b[i] = 'a' + i % 26; int at = sym_choice(3, "at"); at = at == 0 ? 0 : at == 1 ? n - 1 : n - 4; sym_make(b + at, 1, "c"); sym_assume((u8)b[at] < 0x80); nd::array r; round_trip(text(b, n), "long string", r); if (!r.is_null()) { sym_assert(is_text(r, b, n), "long string: text changed"); sym_reach("ok"); } }
SYM_ENTRY(containers) { sym_pin_iostream(-1);
  int f = sym_choice(7, "form"), n = sym_choice(4, "n"), list = sym_choice(2, "list"); u8 v[4]; sym_make(v, 4, "b"); for (int i = 0; i < 4; i++) sym_assume(v[i] < 2); ndt::type vd = ndt::make_type<ndt::var_dim_type>(tb); nd::array a, r; const char *w = "";
  if (f == 0) { w = "fixed list"; a = nd::empty(ndt::make_fixed_dim(n, tb)); memcpy(a.data(), v, n); round_trip(a, w, r, list); if (!r.is_null()) sym_assert(!memcmp(r.cdata(), v, n), msg(w, ": changed")); }
  else if (f == 1) { w = "variable list"; a = nd::empty(vd); auto *m = (const ndt::var_dim_type::metadata_type *)a->metadata(); auto *d = (ndt::var_dim_type::data_type *)a.data(); d->begin = m->blockref->alloc(n); d->size = n; memcpy(d->begin, v, n); round_trip(a, w, r, list); if (!r.is_null()) { auto *e = (const ndt::var_dim_type::data_type *)r.cdata(); bool ok = e->size == (size_t)n; sym_assert(ok, msg(w, ": size changed")); if (ok) sym_assert(!memcmp(e->begin, v, n), msg(w, ": changed")); } }
  else if (f == 2) { w = "struct"; ndt::type t = ndt::make_type<ndt::struct_type>({{tb, "a\"\\"}, {ts, "\n"}, {ti, ""}}); a = nd::empty(t); auto *off = (const uintptr_t *)a->metadata(); *(u8 *)(a.data() + off[0]) = v[0]; char c[2] = {(char)(v[1] ? 'x' : '"'), (char)(v[2] ? '\t' : '\\')}; ((dynd::string *)(a.data() + off[1]))->assign(c, 2); *(int32_t *)(a.data() + off[2]) = n - 2; round_trip(a, w, r, list); if (!r.is_null()) { auto *o2 = (const uintptr_t *)r->metadata(); sym_assert(*(const u8 *)(r.cdata() + o2[0]) == v[0], msg(w, ": first field changed")); auto *s = (const dynd::string *)(r.cdata() + o2[1]); sym_assert(s->size() == 2 && !memcmp(s->data(), c, 2), msg(w, ": second field changed")); sym_assert(*(const int32_t *)(r.cdata() + o2[2]) == n - 2, msg(w, ": third field changed")); } }
  else if (f == 3) { w = "list of options"; ndt::type o = ndt::make_type<ndt::option_type>(tb); a = nd::empty(ndt::make_fixed_dim(n, o)); for (int i = 0; i < n; i++) ((u8 *)a.data())[i] = i & 1 ? 2 : v[i]; round_trip(a, w, r, list); if (!r.is_null()) { bool ok = true; for (int i = 0; i < n; i++) ok &= ((const u8 *)r.cdata())[i] == (i & 1 ? 2 : v[i]); sym_assert(ok, msg(w, ": changed")); } }
  else if (f == 4) { w = "list of lists"; a = nd::empty(ndt::make_fixed_dim(n, ndt::make_fixed_dim(2, tb))); for (int i = 0; i < 2 * n; i++) ((u8 *)a.data())[i] = v[i & 3]; round_trip(a, w, r, list); if (!r.is_null()) { bool ok = true; for (int i = 0; i < 2 * n; i++) ok &= ((const u8 *)r.cdata())[i] == v[i & 3]; sym_assert(ok, msg(w, ": changed")); } }
  else if (f == 5) { w = "list of numbers"; static const int64_t x[] = {0, -1, INT64_MAX, INT64_MIN}; a = nd::empty(ndt::make_fixed_dim(n, ndt::make_type<int64_t>())); for (int i = 0; i < n; i++) ((int64_t *)a.data())[i] = x[i]; round_trip(a, w, r, list); if (!r.is_null()) sym_assert(!memcmp(r.cdata(), x, 8 * n), msg(w, ": changed")); }
  else { w = "reversed list"; a = nd::empty(ndt::make_fixed_dim(n + 1, tb)); memcpy(a.data(), v, n + 1); nd::array b = a(irange().by(-1)); round_trip(b, w, r, list); if (!r.is_null()) { bool ok = true; for (int i = 0; i <= n; i++) ok &= ((const u8 *)r.cdata())[i] == v[n - i]; sym_assert(ok, msg(w, ": changed")); } }
  sym_reach("ok");
}
// Every integer: the text is its decimal digits, and is read back as the same integer
SYM_ENTRY(integers) { sym_pin_iostream(-1); static const char *const N[] = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "?int8", "?int16", "?int32", "?int64", "?uint32"}; int t = sym_choice(13, "type"); const char *w = N[t]; nd::array a = nd::empty(ndt::type(std::string(w))), r; int z = a.get_type().get_data_size(); char *p = a.data(); sym_make(p, z, "v");
  bool sg = w[w[0] == '?'] == 'i'; auto ld = [&](const char *p) { uint64_t v; if (z == 1) v = sg ? (uint64_t)(int64_t)*(int8_t *)p : *(u8 *)p; else if (z == 2) v = sg ? (uint64_t)(int64_t)*(int16_t *)p : *(uint16_t *)p; else if (z == 4) v = sg ? (uint64_t)(int64_t)*(int32_t *)p : *(uint32_t *)p; else v = *(uint64_t *)p; return v; }; uint64_t v = ld(p);
  bool na = t >= 8 && sym_fork(sg ? v == -(uint64_t)1 << (8 * z - 1) : v == 0xffffffffu); bool neg = !na && sg && sym_fork((int64_t)v < 0); uint64_t m = neg ? -v : v;
  nd::array j; int th = threw([&] { j = format_json(a); }); sym_assert(!th, msg(w, ": not formatted")); const dynd::string *s = (const dynd::string *)j.cdata(); const char *q = s->begin(), *e = s->end();
  if (na) sym_assert(e - q == 4 && !memcmp(q, "null", 4), msg(w, ": missing value is not null"));
  else { if (neg) { sym_assert(q < e && *q == '-', msg(w, ": sign")); q++; } int n = e - q; sym_assert(n > 0 && n <= 20, msg(w, ": digits expected")); uint64_t x = 0; unsigned __int128 y = 0; for (int i = 0; i < n; i++) { u8 d = (u8)(q[i] - '0'); sym_assert(d < 10, msg(w, ": digit expected")); if (i < 19) x = x * 10 + d; else y = (unsigned __int128)x * 10 + d; } sym_assert(n < 20 ? x == m : y == (unsigned __int128)m, msg(w, ": another number")); sym_assert(n == 1 || *q != '0', msg(w, ": leading zero")); }
  th = threw([&] { validate_json(s->begin(), e); }); sym_assert(!th, msg(w, ": formatted text is not JSON")); if (th) return; th = threw([&] { r = parse(a.get_type(), s->begin(), e - s->begin()); }); sym_assert(!th, msg(w, ": formatted text is refused")); if (th) return; sym_assert(ld(r.cdata()) == v, msg(w, ": changed by the round trip")); sym_reach(na ? "missing" : "ok"); }
