//@property C06
//@bound scalars: every text of 0 to 4 bytes as bool and option of bool, of up to 5 (6) of -0129"nul and blanks as int8, uint8, int16 and options; quoted texts of up to 3 free bytes and of up to 5 letters; the limits of every integer type plus and minus one with a free last digit
//@bound lists, tuples and structs: 18 types, texts of up to 6 characters of [],1- and blank; skeletons with free separators, keys and values, objects of up to 2 members; lists of up to 40 elements with one free digit; strings of up to 3 free bytes
//@assume bytes form feed and vertical tab excluded; the missing-value sentinels themselves are not used as values
//@entry bools reach=ok,threw
//@entry ints reach=ok,threw
//@entry limits reach=ok,threw
//@entry quoted reach=ok,threw
//@entry lists reach=ok,threw
//@entry skeleton reach=ok,threw
//@entry objects reach=ok,threw
//@entry long_lists reach=ok,threw
//@entry texts reach=ok,threw
//@entry escaped reach=ok,threw
//@entry scalar_parse reach=ok,threw
#include "common.h"
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/option.hpp>
typedef unsigned char u8;
// Reference reader. Reads one value of type tp at r; when data is given, also compares it with the array contents.
struct Rd { const u8 *p, *e; };
static bool same; // whether the array held the values of the text
static void ws(Rd &r) { while (r.p < r.e && (*r.p == ' ' || *r.p == '\t' || *r.p == '\n' || *r.p == '\r')) r.p++; }
static bool digit(u8 c) { return (u8)(c - '0') < 10; }
static bool hexd(u8 c) { return digit(c) || (u8)((c | 32) - 'a') < 6; }
static uint32_t hexv(u8 c) { return digit(c) ? c - '0' : (c | 32) - 'a' + 10; }
static bool word(Rd &r, const char *w) { size_t n = strlen(w); if ((size_t)(r.e - r.p) < n || memcmp(r.p, w, n)) return false; r.p += n; return true; }
// A quoted string; its unescaped contents (escapes below U+0800 only) in o
static bool str(Rd &r, u8 *o, int &n) {
  n = 0; if (r.p == r.e || *r.p != '"') return false; r.p++;
  for (;;) { if (r.p == r.e || n > 500) return false; u8 c = *r.p++; if (c == '"') return true; if (c != '\\') { o[n++] = c; continue; } if (r.p == r.e) return false; c = *r.p++;
    if (c == 'u') { uint32_t v = 0; for (int k = 0; k < 4; k++) { if (r.p == r.e || !hexd(*r.p)) return false; v = v << 4 | hexv(*r.p++); } if (v < 0x80) o[n++] = v; else { o[n++] = 0xc0 | v >> 6; o[n++] = 0x80 | (v & 63); } continue; }
    if (!(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')) return false;
    o[n++] = c == 'b' ? '\b' : c == 'f' ? '\f' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : c; }
}
static bool is_na(const u8 *s, int n) { auto lw = [&](int i) { return s[i] | 32; }; return n == 0 || (n == 2 && s[0] == 'N' && s[1] == 'A') || (n == 4 && (((lw(0) == 'n') & (lw(1) == 'u') & (lw(2) == 'l') & (lw(3) == 'l')) || !memcmp(s, "None", 4))); }
static bool bool_word(const u8 *s, int n, bool &v) {
  auto w = [&](const char *x) { if ((int)strlen(x) != n) return false; bool k = true; for (int i = 0; i < n; i++) k &= (s[i] == x[i]) | (s[i] == x[i] - 32); return k; };
  bool f = w("n") | w("f") | w("no") | w("off") | w("false"), t = w("y") | w("t") | w("on") | w("yes") | w("true"); if (n == 1) { f |= s[0] == '0'; t |= s[0] == '1'; } v = t; return f | t;
}
static bool int_text(const u8 *s, int n, type_id_t id, const char *data) {
  int i = 0; bool neg = false; if (n && s[0] == '-') { neg = true; i = 1; } if (i == n) return false; u128 v = 0; for (; i < n; i++) { if (!digit(s[i])) return false; v = v * 10 + (s[i] - '0'); }
  static const int bits[] = {8, 16, 32, 64}; bool sg = id <= int64_id; int b = bits[(sg ? id - int8_id : id - uint8_id)]; u128 mx = ((u128)1 << (sg ? b - 1 : b)) - 1;
  if (v > (neg ? (sg ? mx + 1 : 0) : mx)) return false; if (data) { u128 x = neg ? -v : v; same &= !memcmp(data, &x, b / 8); } return true;
}
static bool number_token(Rd &r, const u8 *&b, int &n) { // integers only: the alphabets have no '.' or 'e'
  b = r.p; if (r.p < r.e && *r.p == '-') r.p++; if (r.p == r.e || !digit(*r.p)) return false; if (*r.p == '0') r.p++; else while (r.p < r.e && digit(*r.p)) r.p++; n = r.p - b; return true;
}
static bool skip(Rd &r) { // an unknown member's value
  ws(r); u8 o[512]; int n; const u8 *b; if (r.p == r.e) return false; if (*r.p == '"') return str(r, o, n); if (*r.p == 't') return word(r, "true"); if (*r.p == 'f') return word(r, "false"); if (*r.p == 'n') return word(r, "null");
  if (*r.p == '[') { r.p++; ws(r); if (r.p < r.e && *r.p == ']') { r.p++; return true; } for (;;) { if (!skip(r)) return false; ws(r); if (r.p == r.e) return false; if (*r.p == ']') { r.p++; return true; } if (*r.p++ != ',') return false; } }
  if (*r.p == '{') { r.p++; ws(r); if (r.p < r.e && *r.p == '}') { r.p++; return true; } for (;;) { ws(r); if (!str(r, o, n)) return false; ws(r); if (r.p == r.e || *r.p++ != ':') return false; if (!skip(r)) return false; ws(r); if (r.p == r.e) return false; if (*r.p == '}') { r.p++; return true; } if (*r.p++ != ',') return false; } }
  return number_token(r, b, n);
}
static bool na_ok(const ndt::type &v, const char *d) { switch (v.get_id()) { case bool_id: return *d == 2; case int8_id: return *(int8_t *)d == INT8_MIN; case int16_id: return *(int16_t *)d == INT16_MIN; case int32_id: return *(int32_t *)d == INT32_MIN; case int64_id: return *(int64_t *)d == INT64_MIN; case string_id: return ((const dynd::string *)d)->size() == 0; default: return false; } }
static bool rd(Rd &r, const ndt::type &tp, const char *am, const char *d) {
  ws(r); u8 o[512]; int n; const u8 *b; bool v; type_id_t id = tp.get_id();
  auto punct = [&](u8 c) { ws(r); if (r.p == r.e || *r.p != c) return false; r.p++; return true; };
  switch (id) {
  case bool_id: if (r.p < r.e && *r.p == '"') { if (!str(r, o, n) || !bool_word(o, n, v)) return false; } else if (word(r, "true")) v = true; else if (word(r, "false")) v = false; else { if (!number_token(r, b, n) || n != 1 || *b > '1') return false; v = *b == '1'; } if (d) same &= *d == v; return true;
  case int8_id: case int16_id: case int32_id: case int64_id: case uint8_id: case uint16_id: case uint32_id: case uint64_id:
    if (r.p < r.e && *r.p == '"') return str(r, o, n) && !is_na(o, n) && int_text(o, n, id, d); return number_token(r, b, n) && int_text(b, n, id, d);
  case string_id: { if (!str(r, o, n)) return false; if (d) { auto *s = (const dynd::string *)d; bool k = s->size() == (size_t)n; same &= k; if (k) same &= !memcmp(s->data(), o, n); } return true; }
  case fixed_string_id: { int cap = (int)tp.get_data_size(); if (!str(r, o, n) || n > cap) return false; if (d) { bool k = true; for (int i = 0; i < cap; i++) k &= (u8)d[i] == (i < n ? o[i] : 0); same &= k; } return true; }
  case option_id: { const ndt::type &vt = tp.extended<ndt::option_type>()->get_value_type(); if (word(r, "null")) { if (d) same &= na_ok(vt, d); return true; }
    if (r.p < r.e && *r.p == '"' && vt.get_base_id() != string_kind_id) { Rd q = r; if (!str(q, o, n)) return false; if (is_na(o, n)) { r = q; if (d) same &= na_ok(vt, d); return true; } } return rd(r, vt, am, d); }
  case fixed_dim_id: { auto *m = (const size_stride_t *)am; intptr_t sz = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size(); ndt::type et = tp.extended<ndt::base_dim_type>()->get_element_type(); if (!punct('[')) return false; for (intptr_t i = 0; i < sz; i++) { if (i && !punct(',')) return false; if (!rd(r, et, am ? am + sizeof(size_stride_t) : NULL, d ? d + i * m->stride : NULL)) return false; } return punct(']'); }
  case var_dim_id: { auto *m = (const ndt::var_dim_type::metadata_type *)am; auto *vd = (const ndt::var_dim_type::data_type *)d; ndt::type et = tp.extended<ndt::base_dim_type>()->get_element_type(); if (!punct('[')) return false; size_t i = 0; ws(r); if (r.p < r.e && *r.p == ']') r.p++; else for (;;) { if (vd && i >= vd->size) { same = false; return true; } if (!rd(r, et, am ? am + sizeof(*m) : NULL, vd ? vd->begin + m->offset + i * m->stride : NULL)) return false; i++; if (punct(']')) break; if (!punct(',')) return false; } if (vd) same &= vd->size == i; return true; }
  case tuple_id: case struct_id: {
    bool st = id == struct_id; auto *tt = st ? NULL : tp.extended<ndt::tuple_type>(); auto *sy = st ? tp.extended<ndt::struct_type>() : NULL; int nf = (int)(st ? sy->get_field_count() : tt->get_field_count()); auto ft_ = [&](int i) -> const ndt::type & { return st ? sy->get_field_type(i) : tt->get_field_type(i); }; auto *off = (const uintptr_t *)am; auto fam = [&](int i) { return am ? am + (st ? sy->get_arrmeta_offsets() : tt->get_arrmeta_offsets())[i] : NULL; };
    if (id == struct_id && r.p < r.e && *r.p == '{') {
      Rd last[8]; bool seen[8] = {}; r.p++; ws(r); if (r.p < r.e && *r.p == '}') r.p++; else for (;;) { ws(r); if (!str(r, o, n) || !punct(':')) return false; int f = -1; for (int i = 0; i < nf; i++) { const dynd::string &nm = tp.extended<ndt::struct_type>()->get_field_name(i); if (nm.size() == (size_t)n && !memcmp(nm.data(), o, n)) f = i; } if (f < 0) { if (!skip(r)) return false; } else { last[f] = r; seen[f] = true; if (!rd(r, ft_(f), NULL, NULL)) return false; } ws(r); if (r.p == r.e) return false; if (*r.p == '}') { r.p++; break; } if (*r.p++ != ',') return false; }
      for (int i = 0; i < nf; i++) { const ndt::type &ft = ft_(i); if (!seen[i] && ft.get_id() != option_id) return false; if (!d) continue; if (seen[i]) rd(last[i], ft, fam(i), d + off[i]); else same &= na_ok(ft.extended<ndt::option_type>()->get_value_type(), d + off[i]); } return true; }
    if (!punct('[')) return false; for (int i = 0; i < nf; i++) { if (i && !punct(',')) return false; if (!rd(r, ft_(i), fam(i), d ? d + off[i] : NULL)) return false; } return punct(']'); }
  default: return false; }
}
static nd::array pool[64];
static nd::array read(const ndt::type &t, const char *b, int n) { char *h = (char *)malloc(n ? n : 1); memcpy(h, b, n); try { nd::array r = parse_json(t, h, h + n, &eval::default_eval_context); free(h); return r; } catch (...) { free(h); throw; } }
static void judge(const ndt::type &t, const char *b, int n, const char *what) {
  for (int i = 0; i < n; i++) sym_assume((b[i] != 11) & (b[i] != 12)); nd::array a; int k = threw([&] { a = read(t, b, n); }); Rd r = {(const u8 *)b, (const u8 *)b + n}; bool ok = rd(r, t, NULL, NULL); if (ok) { ws(r); ok = r.p == r.e; }
  if (!ok) { sym_assert(k, msg("text that does not fit the type accepted: ", what)); sym_reach("threw"); return; } sym_assert(!k, msg("text that fits the type refused: ", what)); if (k) return;
  r = {(const u8 *)b, (const u8 *)b + n}; same = true; rd(r, t, a->metadata(), a.cdata()); sym_assert(same, msg("array does not hold the values of the text: ", what)); sym_reach("ok");
}
static const char *const tn[] = {"int8", "uint8", "?int16", "int16", "bool", "?bool", "0 * int8", "1 * int8", "2 * int8", "3 * uint8", "var * int8", "2 * var * bool", "var * 2 * int8", "(int8, bool)", "(?int8, int32)", "{a: int8, b: ?int8}", "var * ?int16", "var * {x: int8}", "string", "?string", "fixed_string[2]", "2 * string", "(string, int8)", "int32", "uint32", "int64", "uint64", "uint16", "?int32", "{a: ?string, b: ?int32, c: bool}", "var * int32", "var * string", "var * var * int16", "{aa: int32, a: int16, aaa: ?bool}", "{\"\": int8}", "?int8", "?int64", "()", "var * (string, ?bool)"};
enum { NT = sizeof tn / sizeof *tn }; static ndt::type T[NT];
static int ty(const char *s) { for (int i = 0; i < NT; i++) if (!strcmp(tn[i], s)) return i; abort(); }
extern "C" void sym_setup() {
  for (int i = 0; i < NT; i++) T[i] = ndt::type(std::string(tn[i]));
  threw([&] { read(T[ty("{a: int8, b: ?int8}")], "{\"a\":1}", 7); }); threw([&] { read(T[ty("{a: int8, b: ?int8}")], "{}", 2); }); threw([&] { read(T[0], "\"x\"", 3); }); threw([&] { read(T[ty("fixed_string[2]")], "\"abc\"", 5); }); threw([&] { read(T[ty("?string")], "null", 4); });
  for (const char *s : {"bool", "int8", "?int16", "string", "?bool", "uint32", "int64", "uint8", "uint16", "uint64", "int16", "int32", "?string", "?int64"}) { threw([&] { nd::json::parse(T[ty(s)], "null"); }); threw([&] { nd::json::parse(T[ty(s)], "1"); }); }
}
static void in_set(const char *b, int n, const char *set) { for (int i = 0; i < n; i++) { bool k = false; for (const char *s = set; *s; s++) k |= b[i] == *s; sym_assume(k); } }
static int pick(std::initializer_list<const char *> l, const char *nm) { int i = sym_choice((int)l.size(), nm); return ty(l.begin()[i]); }
SYM_ENTRY(bools) { int t = pick({"bool", "?bool"}, "type"), n = sym_choice(sym_tier() ? 6 : 5, "n"); char b[8]; if (n) sym_make(b, n, "text"); for (int i = 0; i < n; i++) sym_assume((b[i] != '.') & ((b[i] | 32) != 'e')); judge(T[t], b, n, tn[t]); }
SYM_ENTRY(ints) { int t = pick({"int8", "uint8", "?int16", "int16", "?int8"}, "type"), n = 1 + sym_choice(sym_tier() ? 6 : 5, "n"); char b[8]; sym_make(b, n, "text"); in_set(b, n, "-0129\"nul "); judge(T[t], b, n, tn[t]); }
SYM_ENTRY(limits) {
  static const struct { const char *t, *hi, *lo; } L[] = {{"int8", "12", "-12"}, {"uint8", "25", "-"}, {"int16", "3276", "-3276"}, {"uint16", "6553", "-"}, {"int32", "214748364", "-214748364"}, {"uint32", "429496729", "-"}, {"int64", "922337203685477580", "-922337203685477580"}, {"uint64", "1844674407370955161", "-"}, {"?int32", "214748364", "-214748364"}, {"?int64", "922337203685477580", "-922337203685477580"}};
  int k = sym_choice(10, "type"), t = ty(L[k].t), q = sym_choice(2, "quoted"); std::string s = sym_choice(2, "low") ? L[k].lo : L[k].hi; char b[40]; int n = 0; if (q) b[n++] = '"'; memcpy(b + n, s.data(), s.size()); n += s.size(); int x = sym_choice(3, "extra"); for (int i = 0; i < x; i++) { sym_make(b + n, 1, "d"); sym_assume(digit(b[n])); n++; } if (T[t].get_id() == option_id && x == 1) sym_assume(b[n - 1] != '8'); if (q) b[n++] = '"'; judge(T[t], b, n, tn[t]);
}
SYM_ENTRY(quoted) { int t = pick({"bool", "?bool", "int8", "uint16", "?int32", "?int8", "fixed_string[2]", "?string"}, "type"), n = sym_choice(t == ty("bool") || t == ty("?bool") ? 6 : 5, "n"); char b[12] = "\""; if (n) sym_make(b + 1, n, "text"); for (int i = 1; i <= n; i++) sym_assume((b[i] != '\\') & ((u8)b[i] < 0x80) & (b[i] != '.')); if (T[t].get_base_id() != bool_kind_id && n == 4) in_set(b + 1, n, "NnUuLlA1-"); if (t == ty("?string")) sym_assume(n); if (t != ty("bool") && t != ty("?bool")) for (int i = 1; i + 1 <= n; i++) sym_assume(n == 4 || (b[i + 1] | 32) != 'e'); if (t != ty("bool") && t != ty("?bool") && n) sym_assume((b[1] | 32) != 'e'); b[n + 1] = '"'; judge(T[t], b, n + 2, tn[t]); }
SYM_ENTRY(lists) { int t = pick({"0 * int8", "1 * int8", "2 * int8", "3 * uint8", "var * int8", "2 * var * bool", "var * 2 * int8", "(int8, bool)", "()", "{a: int8, b: ?int8}", "var * {x: int8}"}, "type"), n = 1 + sym_choice(sym_tier() ? 7 : 6, "n"); char b[12]; sym_make(b, n, "text"); in_set(b, n, sym_tier() ? "[],12- " : "[],1- "); judge(T[t], b, n, tn[t]); }
SYM_ENTRY(skeleton) {
  static const struct { const char *t, *s; } K[] = {{"var * ?int16", "?null?1?"}, {"(?int8, int32)", "[null?-1?]"}, {"(?int8, int32)", "?\"NA\"?\"7?\"?"}, {"2 * var * bool", "[[true?fals?],[]?"}, {"2 * var * bool", "[[?],[?,?]]"}, {"var * 2 * int8", "[[?,?]?[?,?]]"}, {"var * 2 * int8", "[[1,2?,[3,4?]"}, {"{a: int8, b: ?int8}", "[?,null?"}, {"{a: int8, b: ?int8}", "[?1,??]?"}, {"var * {x: int8}", "[{\"?\":?},[?]?"}, {"(string, int8)", "[\"??\",?]"}, {"2 * string", "[\"?\"?\"?\"]"}, {"var * (string, ?bool)", "[[\"?\",?],[\"\",null]?"}, {"var * ?int16", "[????]"}, {"3 * uint8", "[1?,2?,??]"}, {"var * var * int16", "[[],[?]?[?,-?]]"}, {"{a: int8, b: ?int8}", "{\"z\":?{?\"q\"?:?[]?},\"a\":1}"}, {"{a: int8, b: ?int8}", "{\"z\":[?{},\"u\"?null?[] ?],\"a\":1}"}, {"{a: int8, b: ?int8}", "{\"z\" : {\"q\":1?\"r\":tru?},?\"a\" :?1? }?"}};
  int k = sym_choice(sizeof K / sizeof *K, "skeleton"), t = ty(K[k].t), n = strlen(K[k].s); char b[40]; memcpy(b, K[k].s, n); for (int i = 0; i < n; i++) if (b[i] == '?') { sym_make(b + i, 1, "c"); sym_assume((b[i] != '.') & ((b[i] | 32) != 'e') & (b[i] != '\\') & ((u8)b[i] < 0x80)); } judge(T[t], b, n, tn[t]);
}
SYM_ENTRY(objects) {
  int t = pick({"{a: int8, b: ?int8}", "{a: ?string, b: ?int32, c: bool}", "{aa: int32, a: int16, aaa: ?bool}", "{\"\": int8}", "var * {x: int8}"}, "type"), m = sym_choice(sym_tier() ? 4 : 3, "members"), f = sym_choice(3, "form"); char b[96]; int n = 0; bool w = t == ty("var * {x: int8}"); if (w) b[n++] = '['; b[n++] = '{';
  static const char *const val[] = {"1", "null", "[2,\"u\"]", "true", "\"3\"", "\"t\"", ""};
  for (int i = 0; i < m; i++) { if (i) b[n++] = ','; b[n++] = '"'; int kl = t == ty("{\"\": int8}") ? sym_choice(2, "keylen") : t == ty("{aa: int32, a: int16, aaa: ?bool}") ? 1 + sym_choice(3, "keylen") : 1; if (f == 1 && i == 0) { memcpy(b + n, "\\u00", 4); n += 4; sym_make(b + n, 2, "key"); sym_assume(((b[n] == '6') | (b[n] == '7')) & (hexd(b[n + 1]) != 0)); n += 2; } else { if (kl) sym_make(b + n, kl, "key"); in_set(b + n, kl, "abcx"); n += kl; } b[n++] = '"'; b[n++] = ':'; if (f == 2 && i == m - 1) { sym_make(b + n, 1, "v"); sym_assume((b[n] != '"') & (b[n] != '\\')); n++; } else { const char *v = val[i < (sym_tier() ? 2 : 1) ? sym_choice(6, "value") : sym_choice(2, "value") * 3]; memcpy(b + n, v, strlen(v)); n += strlen(v); } }
  b[n++] = '}'; if (w) b[n++] = ']'; judge(T[t], b, n, tn[t]);
}
SYM_ENTRY(long_lists) {
  int t = pick({"var * int32", "var * string", "var * var * int16"}, "type"); static const int L[] = {7, 8, 9, 15, 16, 17, 18, 33, 40}; int m = L[sym_choice(9, "size")], at = sym_choice(3, "at"); at = at == 0 ? 0 : at == 1 ? m - 1 : m / 2; static char b[4000]; int n = 0; b[n++] = '[';
  for (int i = 0; i < m; i++) { if (i) b[n++] = ','; int d = n; if (t == ty("var * int32")) { n += sprintf(b + n, "%d", 100 + i * 37); d = n - 1; } else if (t == ty("var * string")) { b[n++] = '"'; d = n; for (int j = 0; j < 1 + i % 20; j++) b[n++] = 'a' + (i + j) % 26; b[n++] = '"'; } else { b[n++] = '['; for (int j = 0; j < i % 11; j++) { if (j) b[n++] = ','; d = n; n += sprintf(b + n, "%d", (i + j) % 10); } if (i % 11 == 0) { d = n; b[n++] = '1'; } b[n++] = ']'; } if (i == at) { sym_make(b + d, 1, "c"); sym_assume((b[d] != '.') & ((b[d] | 32) != 'e') & (b[d] != '\\') & ((u8)b[d] < 0x80)); } }
  b[n++] = ']'; judge(T[t], b, n, tn[t]);
}
SYM_ENTRY(texts) { int t = pick({"string", "?string", "fixed_string[2]", "2 * string"}, "type"), n = sym_choice(4, "n"); if (t == ty("?string") && !n) n = 1; char b[24]; int k = 0; bool l = t == ty("2 * string"); if (l) b[k++] = '['; b[k++] = '"'; if (n) sym_make(b + k, n, "text"); for (int i = 0; i < n; i++) sym_assume((u8)b[k + i] < 0x80); k += n; b[k++] = '"'; if (l) { memcpy(b + k, ",\"z\"]", 5); k += 5; } judge(T[t], b, k, tn[t]); }
SYM_ENTRY(escaped) { int t = pick({"int8", "uint16", "?int32", "bool", "?bool", "fixed_string[2]", "(string, int8)", "string"}, "type"); char b[32]; int n = 0; bool l = t == ty("(string, int8)"); if (l) { memcpy(b, "[\"s\",", 5); n = 5; } memcpy(b + n, "\"\\u00", 5); n += 5; sym_make(b + n, 2, "hex"); sym_assume(hexd(b[n]) & hexd(b[n + 1])); if (T[t].get_base_id() != bool_kind_id) sym_assume(!((b[n] == '2') & ((b[n + 1] | 32) == 'e')) & !(((b[n] == '4') | (b[n] == '6')) & (b[n + 1] == '5'))); n += 2; if (sym_choice(2, "more")) { sym_make(b + n, 1, "c"); sym_assume((b[n] != '\\') & ((u8)b[n] < 0x80) & (b[n] != '.') & ((b[n] | 32) != 'e')); n++; } b[n++] = '"'; if (l) b[n++] = ']'; judge(T[t], b, n, tn[t]); }
// nd::json::parse: scalars; quoted numbers are not part of it
SYM_ENTRY(scalar_parse) {
  int t = pick({"bool", "int8", "?int16", "string", "?bool", "uint32", "int64", "uint8", "uint16", "uint64", "int16", "int32"}, "type"), n = 1 + sym_choice(sym_tier() ? 5 : 4, "n"), id = T[t].get_id(), vid = id == option_id ? T[t].extended<ndt::option_type>()->get_value_type().get_id() : id; char b[12]; sym_make(b, n, "text"); in_set(b, n, vid == string_id ? "a\" 1" : vid == bool_id ? "truefalsn01 " : "-0123nul "); char *h = (char *)malloc(n); memcpy(h, b, n); nd::array a; int k = threw([&] { a = nd::json::parse(T[t], h, h + n); });
  Rd r = {(const u8 *)b, (const u8 *)b + n}; bool ok = rd(r, T[t], NULL, NULL); if (ok) { ws(r); ok = r.p == r.e; } free(h); if (!ok) { if (id == option_id) { Rd q = {(const u8 *)b, (const u8 *)b + n}; ws(q); if (q.p == q.e || (q.e - q.p >= 4 && q.p[0] == 'n')) return; } sym_assert(k, msg("json::parse accepts text that does not fit the type: ", tn[t])); sym_reach("threw"); return; }
  if (k && (vid == uint8_id || vid == uint16_id || vid == uint32_id || vid == uint64_id) && memchr(b, '-', n)) return; // -0 as unsigned: either
  sym_assert(!k, msg("json::parse refuses text that fits the type: ", tn[t])); if (k) return; r = {(const u8 *)b, (const u8 *)b + n}; same = true; rd(r, T[t], a->metadata(), a.cdata()); sym_assert(same, msg("json::parse gives another value: ", tn[t])); sym_reach("ok");
}
