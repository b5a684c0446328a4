//@property C02
//@bound integers: every text of 0..4 bytes (int8; 0..3 in quick for the others; thorough 0..5) for the 8-bit and 16-bit types; every optionally signed run of digits up to two digits longer than the type's maximum (32-bit: up to 12, 64-bit: up to 21 digits, the first ones fixed near the limit); one digit with every exponent of one digit and (quick: every ninth) of two digits
//@bound booleans: every text of 0..6 bytes; integer from string assignment with every text of 0..3 bytes and runs of digits
//@assume a text without digits before '.' or 'e' (".", ".0", "e5") may be rejected or read as zero
//@entry int_any reach=ok,threw
//@entry int_digits reach=ok,threw
//@entry int_exp reach=ok,threw
//@entry assign_any reach=ok,threw
//@entry assign_digits reach=ok,threw
//@entry to_number reach=ok,threw
//@entry bool_any reach=true,false,threw
//@entry assign_bool reach=true,false,threw
#include "common.h"
#include <dynd/parse_util.hpp>
#include <dynd/parse.hpp>
typedef unsigned char u8;
// Reference: 0 malformed, 1 a number (value in v, saturated), 2 unspecified
static int ref(const char *p, const char *e, bool sign_ok, bool &neg, u128 &v, bool &big) {
  neg = false; v = 0; big = false; if (p < e && *p == '-') { if (!sign_ok) return 0; neg = true; p++; }
  if (p == e) return 0; int nd = 0;
  while (p < e && (u8)(*p - '0') < 10) { v = v * 10 + (u8)(*p - '0'); nd++; p++; }
  if (p == e) return nd ? 1 : 0;
  if (*p == '.') { p++; while (p < e && *p == '0') p++; return p == e ? (nd ? 1 : 2) : 0; }
  if (*p == 'e' || *p == 'E') {
    p++; if (p < e && *p == '+') p++; if (p == e) return 0; int ex = 0; int k = 0; while (p < e && *p == '0') p++;
    while (p < e && (u8)(*p - '0') < 10) { if (k++ == 2) return 0; ex = ex * 10 + (u8)(*p - '0'); p++; }
    if (p < e) return 0; if (!nd) return 2;
    if (v != 0) for (int i = 0; i < ex; i++) { if (v > (u128)1 << 66) { big = true; break; } v *= 10; }
    return 1;
  }
  return 0;
}
template <class T> static bool fits(bool neg, u128 v, bool big) {
  u128 mx = (u128)std::numeric_limits<T>::max(); if (big) return v == 0; if (!neg) return v <= mx; return std::is_signed<T>::value ? v <= mx + 1 : v == 0;
}
template <class T> static void judge(int t, T got, const char *p, int n, bool sign_ok, const char *tn) {
  bool neg, big; u128 v; int k = ref(p, p + n, sign_ok, neg, v, big); if (k == 2) { if (!t) sym_assert(got == 0, msg("text without digits read as a number other than zero: ", tn)); return; }
  if (!std::is_signed<T>::value && neg && v == 0) return; // "-0" as an unsigned number: either
  if (t) { sym_assert(k == 0 || !fits<T>(neg, v, big), msg("valid number refused: ", tn)); sym_reach("threw"); return; }
  sym_assert(k == 1, msg("text that is not a number accepted: ", tn)); sym_assert(fits<T>(neg, v, big), msg("number outside the range accepted: ", tn));
  sym_assert(got == (T)(neg ? -(i128)v : (i128)v), msg("parsed another number: ", tn)); sym_reach("ok");
}
template <class T> static T run(const char *p, int n, int &t) { T r = 0; t = threw([&] { r = parse<T>(p, p + n); }); return r; }
template <class T> static void any(int n, const char *tn) { char *b = (char *)malloc(n ? n : 1); sym_make(b, n, "s"); int t; T r = run<T>(b, n, t); judge<T>(t, r, b, n, std::is_signed<T>::value, tn); free(b); }
#define FOR_T(c, F) switch (c) { case 0: F(int8_t, "int8"); break; case 1: F(uint8_t, "uint8"); break; case 2: F(int16_t, "int16"); break; case 3: F(uint16_t, "uint16"); break; case 4: F(int32_t, "int32"); break; case 5: F(uint32_t, "uint32"); break; case 6: F(int64_t, "int64"); break; default: F(uint64_t, "uint64"); }
static const int maxd[] = {3, 3, 5, 5, 10, 10, 19, 20};
static const char *const limit[] = {"128", "256", "32768", "65536", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616"};
// A run of digits: [-] digits; the first ones are the type's limit (or symbolic when short), the rest symbolic
static int digits(int c, char *b, int symd) {
  int n = 0; if (sym_choice(2, "neg")) b[n++] = '-'; int len = maxd[c] + sym_choice(3, "longer") - 1, fixed = len - symd; if (fixed < 0) fixed = 0;
  int style = fixed ? sym_choice(3, "style") : 0;
  for (int i = 0; i < len; i++) if (i < fixed) b[n++] = style == 0 ? (i < maxd[c] ? limit[c][i] : '0') : style == 1 ? "3000000000000000000000000"[i] : '0';
  else { u8 d = sym_u8("d"); sym_assume((d >= '0') & (d <= '9')); b[n++] = d; }
  return n;
}
SYM_ENTRY(int_any) { int t = sym_choice(4, "type"), n = sym_choice(sym_tier() ? 6 : t < 1 ? 5 : 4, "n"); switch (t) { case 0: any<int8_t>(n, "int8"); break; case 1: any<uint8_t>(n, "uint8"); break; case 2: any<int16_t>(n, "int16"); break; default: any<uint16_t>(n, "uint16"); } }
SYM_ENTRY(int_digits) {
  int c = sym_choice(8, "type"); char b[32]; int n = digits(c, b, sym_tier() ? 6 : 3);
#define F(T, tn) { int t; T r = run<T>(b, n, t); judge<T>(t, r, b, n, std::is_signed<T>::value, tn); }
  FOR_T(c, F)
}
SYM_ENTRY(int_exp) {
  int c = sym_choice(8, "type"); char b[32]; int n = 0, x = 0; u8 d;
  d = sym_u8("d"); sym_assume((d >= '0') & (d <= '9')); b[n++] = d; int st = sym_tier() ? sym_choice(3, "style") : c % 3; b[n++] = st ? 'e' : 'E'; if (st == 1) b[n++] = '+'; if (st == 2) b[n++] = '0';
  int k = sym_choice(3, "exp"); if (k == 1) b[n++] = '0' + sym_choice(10, "x1"); if (k == 2) { x = sym_tier() ? sym_choice(100, "x2") : sym_choice(12, "x2") * 9; b[n++] = '0' + x / 10; b[n++] = '0' + x % 10; }
  FOR_T(c, F)
}
static nd::array str(const char *p, int n) { nd::array s = nd::empty(ndt::make_type<dynd::string>()); ((dynd::string *)s.data())->assign(p, n); return s; }
template <class T> static void asg(const char *b, int n, const char *tn) {
  nd::array s = str(b, n), d = nd::empty(ndt::make_type<T>()); *(T *)d.data() = 99; int t = threw([&] { d.assign(s); });
  for (int i = 0; i < n; i++) sym_assume(!isspace((u8)b[i]));
  judge<T>(t, *(const T *)d.cdata(), b, n, std::is_signed<T>::value, tn);
}
SYM_ENTRY(assign_any) { int c = sym_choice(4, "type") * 2, n = sym_choice(sym_tier() ? 5 : 4, "n"); char b[8]; sym_make(b, n, "s");
#define G(T, tn) asg<T>(b, n, tn)
  FOR_T(c, G) }
SYM_ENTRY(assign_digits) { int c = sym_choice(4, "type") * 2; char b[32]; int n = digits(c, b, 3); FOR_T(c, G) }
SYM_ENTRY(to_number) {
  int c = sym_choice(8, "type"); char b[32]; int n = digits(c, b, 3); static const type_id_t id[] = {int8_id, uint8_id, int16_id, uint16_id, int32_id, uint32_id, int64_id, uint64_id};
#define H(T, tn) { T r = 99; int t = threw([&] { string_to_number((char *)&r, id[c], b, b + n, assign_error_inexact); }); judge<T>(t, r, b, n, true, tn); }
  FOR_T(c, H)
}
static bool word(const char *p, int n, const char *w) { if ((int)strlen(w) != n) return false; bool r = true; for (int i = 0; i < n; i++) r &= (p[i] == w[i]) | (p[i] == w[i] - 32); return r; }
static int ref_bool(const char *p, int n) { // 0 false, 1 true, 2 neither
  bool f = word(p, n, "n") | word(p, n, "f") | word(p, n, "no") | word(p, n, "off") | word(p, n, "false"), t = word(p, n, "y") | word(p, n, "t") | word(p, n, "on") | word(p, n, "yes") | word(p, n, "true");
  if (n == 1) { f |= p[0] == '0'; t |= p[0] == '1'; } return f ? 0 : t ? 1 : 2;
}
SYM_ENTRY(bool_any) {
  int n = sym_choice(7, "n"); char *b = (char *)malloc(n ? n : 1); sym_make(b, n, "s"); bool r = false; int t = threw([&] { r = parse<bool>(b, b + n); }); int k = ref_bool(b, n);
  sym_assert(t == (k == 2), "text accepted or refused wrongly as a boolean"); if (t) { sym_reach("threw"); return; } sym_assert(r == (k == 1), "parsed the other boolean"); sym_reach(r ? "true" : "false"); free(b);
}
SYM_ENTRY(assign_bool) {
  int n = sym_choice(6, "n"); char b[8]; sym_make(b, n, "s"); for (int i = 0; i < n; i++) sym_assume(!isspace((u8)b[i])); nd::array s = str(b, n), d = nd::empty(ndt::make_type<bool1>());
  int t = threw([&] { d.assign(s); }); int k = ref_bool(b, n);
  sym_assert(t == (k == 2), "text accepted or refused wrongly as a boolean"); if (t) { sym_reach("threw"); return; } sym_assert(*d.cdata() == (k == 1), "parsed the other boolean"); sym_reach(k ? "true" : "false");
}
