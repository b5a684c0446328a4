//@property C04
//@bound decoding: every byte content of a buffer of 1..4 bytes (1..2 units for 16-bit, 1 unit for 32-bit encodings), checked and unchecked
//@bound encoding: every 32-bit code point (scalar values for utf16/utf32), buffers of 1..8 bytes
//@bound conversion: every content of a fixed_string of 2 units (4 bytes for utf8) of each encoding into fixed_string of 2..3 units of each encoding and into string; string of 0..3 bytes into fixed_string of each encoding
//@entry decode reach=ok,bad,subst
//@entry encode reach=ok,refused,subst
//@entry fixed_to_fixed reach=ok,refused
//@entry fixed_to_string reach=ok,refused
//@entry string_to_fixed reach=ok,refused
//@entry as_utf8 reach=ok,refused
#include "common.h"
#include <dynd/string_encodings.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/string_type.hpp>
static const string_encoding_t encs[] = {string_encoding_ascii, string_encoding_ucs_2, string_encoding_utf_8, string_encoding_utf_16, string_encoding_utf_32};
static const char *const enc_name[] = {"ascii", "ucs2", "utf8", "utf16", "utf32"};
static const int unit[] = {1, 2, 1, 2, 4};
typedef unsigned char u8;
static bool scalar(uint32_t c) { return (c < 0xd800) | ((c >= 0xe000) & (c <= 0x10ffff)); }
// Reference decoder: number of bytes consumed, 0 when the bytes at p are not the encoding of a scalar value.
static int ref_decode(int e, const u8 *p, int n, uint32_t &cp) {
  switch (e) {
  case 0: cp = p[0]; return p[0] < 0x80 ? 1 : 0;
  case 1: cp = p[0] | p[1] << 8; return scalar(cp) ? 2 : 0;
  case 4: cp = p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; return scalar(cp) ? 4 : 0;
  case 3: {
    uint32_t a = p[0] | p[1] << 8; if (a < 0xd800 || a > 0xdfff) { cp = a; return 2; }
    if (a > 0xdbff || n < 4) return 0;
    uint32_t b = p[2] | p[3] << 8; if (b < 0xdc00 || b > 0xdfff) return 0;
    cp = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00); return 4; }
  default: {
    u8 a = p[0]; if (a < 0x80) { cp = a; return 1; }
    int len = a >= 0xc2 && a <= 0xdf ? 2 : a >= 0xe0 && a <= 0xef ? 3 : a >= 0xf0 && a <= 0xf4 ? 4 : 0;
    if (!len || n < len) return 0;
    for (int i = 1; i < len; i++) if ((p[i] & 0xc0) != 0x80) return 0;
    cp = len == 2 ? (a & 31) << 6 | (p[1] & 63) : len == 3 ? (a & 15) << 12 | (p[1] & 63) << 6 | (p[2] & 63) : (a & 7) << 18 | (p[1] & 63) << 12 | (p[2] & 63) << 6 | (p[3] & 63);
    if (!scalar(cp) || cp < (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u)) return 0;
    return len; }
  }
}
static int ref_encode(int e, uint32_t cp, u8 *o) { // 0: not representable
  switch (e) {
  case 0: if (cp > 0x7f) return 0; o[0] = cp; return 1;
  case 1: if (cp > 0xffff || !scalar(cp)) return 0; o[0] = cp; o[1] = cp >> 8; return 2;
  case 4: o[0] = cp; o[1] = cp >> 8; o[2] = cp >> 16; o[3] = cp >> 24; return 4;
  case 3: if (cp < 0x10000) { o[0] = cp; o[1] = cp >> 8; return 2; } { uint32_t a = 0xd800 + ((cp - 0x10000) >> 10), b = 0xdc00 + ((cp - 0x10000) & 0x3ff); o[0] = a; o[1] = a >> 8; o[2] = b; o[3] = b >> 8; } return 4;
  default: if (!scalar(cp)) return 0;
    if (cp < 0x80) { o[0] = cp; return 1; }
    if (cp < 0x800) { o[0] = 0xc0 | cp >> 6; o[1] = 0x80 | (cp & 63); return 2; }
    if (cp < 0x10000) { o[0] = 0xe0 | cp >> 12; o[1] = 0x80 | (cp >> 6 & 63); o[2] = 0x80 | (cp & 63); return 3; }
    o[0] = 0xf0 | cp >> 18; o[1] = 0x80 | (cp >> 12 & 63); o[2] = 0x80 | (cp >> 6 & 63); o[3] = 0x80 | (cp & 63); return 4;
  }
}
SYM_ENTRY(decode) {
  int e = sym_choice(5, "enc"); bool check = !sym_choice(2, "nocheck"); int n = unit[e] == 4 ? 4 : unit[e] * (1 + sym_choice(unit[e] == 2 ? 2 : 4, "units"));
  char *b = (char *)malloc(n); sym_make(b, n, "b"); const char *it = b; uint32_t got = 0, want = 0;
  next_unicode_codepoint_t f = get_next_unicode_codepoint_function(encs[e], check ? assign_error_inexact : assign_error_nocheck);
  int t = threw([&] { got = f(it, b + n); }); int len = ref_decode(e, (const u8 *)b, n, want);
  if (t) { sym_assert(check, msg("unchecked decoding threw ", enc_name[e])); sym_assert(len == 0, msg("well-formed text rejected ", enc_name[e])); sym_reach("bad"); free(b); return; }
  sym_assert(it > b && it <= b + n, msg("decoder did not advance within its input ", enc_name[e]));
  if (len == 0) { sym_assert(!check, msg("ill-formed text accepted ", enc_name[e])); sym_assert(got == '?', msg("ill-formed text decoded to something else than the substitute ", enc_name[e])); sym_reach("subst"); }
  else { sym_assert(got == want && it - b == len, msg("decoded another code point ", enc_name[e])); sym_reach("ok"); }
  free(b);
}
SYM_ENTRY(encode) {
  int e = sym_choice(5, "enc"); bool check = !sym_choice(2, "nocheck"); int n = unit[e] * (1 + sym_choice(unit[e] == 1 ? 7 : 3, "room"));
  uint32_t cp = sym_u32("cp"); sym_assume(e < 3 || scalar(cp)); if (e == 2) sym_assume(check || scalar(cp));
  char *b = (char *)malloc(n); memset(b, 0xee, n); char *it = b; u8 w[4] = {0, 0, 0, 0}; int len = ref_encode(e, cp, w);
  append_unicode_codepoint_t f = get_append_unicode_codepoint_function(encs[e], check ? assign_error_inexact : assign_error_nocheck);
  int t = threw([&] { f(cp, it, b + n); });
  if (t) { sym_assert(check, msg("unchecked encoding threw ", enc_name[e])); sym_assert(len == 0 || len > n, msg("representable code point refused ", enc_name[e])); sym_reach("refused"); free(b); return; }
  sym_assert(it > b && it <= b + n, msg("encoder moved outside its output ", enc_name[e]));
  if (len == 0) { sym_assert(!check, msg("unrepresentable code point accepted ", enc_name[e])); sym_assert(b[0] == '?', msg("substitute ", enc_name[e])); sym_reach("subst"); }
  else if (len > n) { sym_assert(!check, msg("code point that does not fit accepted ", enc_name[e])); for (int i = 0; i < n; i++) sym_assert(b[i] == 0, msg("truncated code point not zero filled ", enc_name[e])); }
  else { sym_assert(it - b == len, msg("encoded length ", enc_name[e])); bool same = true; for (int i = 0; i < len; i++) same &= (u8)b[i] == w[i]; sym_assert(same, msg("encoded to other bytes ", enc_name[e])); for (int i = len; i < n; i++) sym_assert((u8)b[i] == 0xee, "wrote past the encoded code point"); sym_reach("ok"); }
  free(b);
}
// Reference conversion of a nul-terminated (within n bytes) text. false: ill-formed or not representable.
static bool ref_convert(int e, const u8 *p, int n, bool nul, int e2, u8 *o, int &olen) {
  olen = 0; int i = 0;
  while (i < n) { uint32_t cp; int l = ref_decode(e, p + i, n - i, cp); if (!l) return false; if (nul && cp == 0) break; u8 w[4]; int m = ref_encode(e2, cp, w); if (!m) return false; for (int k = 0; k < m; k++) o[olen++] = w[k]; i += l; }
  return true;
}
static assign_error_mode em() { return sym_tier() ? (assign_error_mode)(sym_choice(3, "mode") + 1) : assign_error_inexact; }
static void assign_em(nd::array &d, const nd::array &s, assign_error_mode m) { if (sym_tier()) d.assign(s, m); else d.assign(s); }
SYM_ENTRY(fixed_to_fixed) {
  int e = sym_choice(5, "src"), f = sym_choice(5, "dst"); int su = sym_choice(e == 2 ? 3 : 2, "su") + 1, du = sym_choice(f == 2 ? 3 : 2, "du") + 1; int sn = su * unit[e], dn = du * unit[f];
  nd::array s = nd::empty(ndt::make_type<ndt::fixed_string_type>(su, encs[e])), d = nd::empty(ndt::make_type<ndt::fixed_string_type>(du, encs[f]));
  u8 in[16]; sym_make(in, sn, "in"); memcpy(s.data(), in, sn); memset(d.data(), 0xee, dn);
  u8 w[32]; int wl; assign_error_mode m = em(); int t = threw([&] { assign_em(d, s, m); }); bool ok = ref_convert(e, in, sn, true, f, w, wl);
  if (t) { sym_assert(!ok || wl > dn, msg("convertible text refused ", enc_name[e], " -> ", enc_name[f])); sym_reach("refused"); return; }
  sym_assert(ok, msg("text that is ill-formed or not representable accepted ", enc_name[e], " -> ", enc_name[f])); sym_assert(wl <= dn, "text longer than the destination accepted");
  bool same = true; for (int i = 0; i < dn; i++) same &= (u8)d.cdata()[i] == (i < wl ? w[i] : 0); sym_assert(same, msg("converted text differs ", enc_name[e], " -> ", enc_name[f])); sym_reach("ok");
}
SYM_ENTRY(fixed_to_string) {
  int e = sym_choice(5, "src"); int su = (e == 2 ? 4 : 2); int sn = su * unit[e];
  nd::array s = nd::empty(ndt::make_type<ndt::fixed_string_type>(su, encs[e])), d = nd::empty(ndt::make_type<dynd::string>());
  u8 in[16]; sym_make(in, sn, "in"); memcpy(s.data(), in, sn);
  u8 w[32]; int wl; assign_error_mode m = em(); int t = threw([&] { assign_em(d, s, m); }); bool ok = ref_convert(e, in, sn, true, 2, w, wl);
  if (t) { sym_assert(!ok, msg("convertible text refused ", enc_name[e], " -> string")); sym_reach("refused"); return; }
  sym_assert(ok, msg("ill-formed text accepted ", enc_name[e], " -> string")); const dynd::string &r = *(const dynd::string *)d.cdata();
  sym_assert((int)r.size() == wl, msg("converted text has another length ", enc_name[e], " -> string")); bool same = true; for (int i = 0; i < wl; i++) same &= (u8)r.begin()[i] == w[i]; sym_assert(same, msg("converted text differs ", enc_name[e], " -> string")); sym_reach("ok");
}
SYM_ENTRY(string_to_fixed) {
  int f = sym_choice(5, "dst"); int sn = sym_choice(4, "len"), du = (f == 2 ? 3 : 2), dn = du * unit[f];
  u8 in[16]; sym_make(in, sn, "in"); for (int i = 0; i < sn; i++) sym_assume(in[i] != 0);
  nd::array s = nd::empty(ndt::make_type<dynd::string>()), d = nd::empty(ndt::make_type<ndt::fixed_string_type>(du, encs[f])); ((dynd::string *)s.data())->assign((const char *)in, sn); memset(d.data(), 0xee, dn);
  u8 w[32]; int wl; assign_error_mode m = em(); int t = threw([&] { assign_em(d, s, m); }); bool ok = ref_convert(2, in, sn, false, f, w, wl);
  if (t) { sym_assert(!ok || wl > dn, msg("convertible text refused string -> ", enc_name[f])); sym_reach("refused"); return; }
  sym_assert(ok, msg("text that is ill-formed or not representable accepted string -> ", enc_name[f])); sym_assert(wl <= dn, "text longer than the destination accepted");
  bool same = true; for (int i = 0; i < dn; i++) same &= (u8)d.cdata()[i] == (i < wl ? w[i] : 0); sym_assert(same, msg("converted text differs string -> ", enc_name[f])); sym_reach("ok");
}
SYM_ENTRY(as_utf8) {
  static const int es[] = {1, 3, 4}; int e = es[sym_choice(3, "enc")]; int n = 2 * unit[e]; bool check = !sym_choice(2, "nocheck"); char *b = (char *)malloc(n); sym_make(b, n, "b");
  std::string r; int t = threw([&] { r = string_range_as_utf8_string(encs[e], b, b + n, check ? assign_error_inexact : assign_error_nocheck); });
  u8 w[32]; int wl; bool ok = ref_convert(e, (u8 *)b, n, false, 2, w, wl);
  if (t) { sym_assert(check && !ok, msg("well-formed text rejected ", enc_name[e])); sym_reach("refused"); free(b); return; }
  sym_assert(ok || !check, msg("ill-formed text accepted ", enc_name[e]));
  if (ok) { sym_assert((int)r.size() == wl, "length of the utf8 text"); bool same = true; for (int i = 0; i < wl; i++) same &= (u8)r[i] == w[i]; sym_assert(same, "utf8 text differs"); sym_reach("ok"); }
  free(b);
}
