//@property C26
//@bound every pair of 128-bit values for sums, differences, comparisons and bit operations; products of every 128-bit value with eight factors, and with 6 free bits in each operand; quotients by seven divisors of eight values with 6 (thorough: 12) free bits at four positions; printing of 8-bit values and of four large values with 2 free bits
//@bound conversion from and to every built-in integer type for every value, from and to floating point for all significands with the top bit at four places, at ten exponents and both signs; assignment between the integer types in all four error modes
//@assume products and quotients of two fully unconstrained operands are outside (multiplier equivalence)
//@entry arith reach=ok
//@entry compare reach=ok
//@entry products reach=ok
//@entry quotients reach=ok
//@entry print reach=ok
//@entry from_int reach=ok
//@entry to_float reach=ok
//@entry from_float reach=ok
//@entry assign_to_wide reach=ok,threw
//@entry assign_from_wide reach=ok,threw
//@entry assign_wide reach=ok,threw
//@entry assign_real reach=ok,threw
//@entry array_ops reach=ok
#include "num.h"
#include <dynd/arithmetic.hpp>
#include <sstream>
typedef dynd::int128 S; typedef dynd::uint128 U;
static ndt::type ts, tu;
static i128 iv(const S &x) { i128 r; memcpy(&r, &x, 16); return r; }
static u128 uv(const U &x) { u128 r; memcpy(&r, &x, 16); return r; }
static S mk(i128 v) { return S((uint64_t)((u128)v >> 64), (uint64_t)v); }
static U mku(u128 v) { return U((uint64_t)(v >> 64), (uint64_t)v); }
static u128 sym128(const char *n) { u128 v; sym_make(&v, 16, n); return v; }
extern "C" void sym_setup() {
  num_setup(); ts = ndt::make_type<S>(); tu = ndt::make_type<U>();
  for (const ndt::type &w : {ts, tu}) { nd::array a = nd::empty(w), b = nd::empty(nty[I32]); memset(a.data(), 0, 16); *(int *)b.data() = 1; for (int m = 0; m < 4; m++) { threw([&] { a.assign(b, (assign_error_mode)m); }); threw([&] { b.assign(a, (assign_error_mode)m); }); } nd::add(a, a); }
}
SYM_ENTRY(arith) {
  u128 a = sym128("a"), b = sym128("b"); S x = mk(a), y = mk(b); U p = mku(a), q = mku(b); uint64_t w = sym_u64("w"); uint32_t v = (uint32_t)w;
  switch (sym_choice(14, "op")) {
  case 0: sym_assert((u128)iv(x + y) == a + b, "int128 sum"); sym_assert(uv(p + q) == a + b, "uint128 sum"); break;
  case 1: sym_assert((u128)iv(x - y) == a - b, "int128 difference"); break;
  case 2: sym_assert(uv(p - q) == a - b, "uint128 difference"); break;
  case 3: x += y; sym_assert((u128)iv(x) == a + b, "int128 +="); break;
  case 4: sym_assert((u128)iv(-x) == -a, "int128 negation"); break;
  case 5: sym_assert(uv(-p) == -a, "uint128 negation"); break;
  case 6: x.negate(); sym_assert((u128)iv(x) == -a, "int128 negate()"); break;
  case 7: sym_assert((u128)iv(~x) == ~a, "int128 complement"); sym_assert(uv(~p) == ~a, "uint128 complement"); sym_assert((u128)iv(+x) == a && uv(+p) == a, "unary plus"); break;
  case 8: sym_assert(!x == (a == 0), "int128 not"); break;
  case 9: sym_assert(!p == (a == 0), "uint128 not"); break;
  case 10: sym_assert((bool)x == (a != 0), "int128 to bool"); sym_assert((bool)p == (a != 0), "uint128 to bool"); break;
  case 11: sym_assert(x.is_negative() == ((i128)a < 0), "is_negative"); break;
  case 12: sym_assert(uv(p + w) == a + w, "uint128 plus uint64"); sym_assert(uv(p + v) == a + v, "uint128 plus uint32"); break;
  case 13: sym_assert(uv(p - w) == a - w, "uint128 minus uint64"); break; }
  sym_reach("ok");
}
SYM_ENTRY(compare) {
  u128 a = sym128("a"), b = sym128("b"); S x = mk(a), y = mk(b); U p = mku(a), q = mku(b); i128 c = (i128)a, d = (i128)b; int i = (int)sym_u32("i"); uint64_t w = sym_u64("w");
  switch (sym_choice(10, "op")) {
  case 0: sym_assert((x == y) == (a == b) && (x != y) == (a != b), "int128 equality"); sym_assert((p == q) == (a == b) && (p != q) == (a != b), "uint128 equality"); break;
  case 1: sym_assert((x < y) == (c < d), "int128 <"); break; case 2: sym_assert((x <= y) == (c <= d), "int128 <="); break; case 3: sym_assert((x > y) == (c > d), "int128 >"); break; case 4: sym_assert((x >= y) == (c >= d), "int128 >="); break;
  case 5: sym_assert((p < q) == (a < b) && (p > q) == (a > b), "uint128 < or >"); break; case 6: sym_assert((p <= q) == (a <= b) && (p >= q) == (a >= b), "uint128 <= or >="); break;
  case 7: sym_assert((x == i) == (c == i) && (x != i) == (c != i) && (i == x) == (c == i), "int128 equality with int"); sym_assert((p == i) == (i >= 0 && a == (u128)i), "uint128 equality with int"); sym_assert((p == (unsigned)i) == (a == (unsigned)i) && (p != (unsigned)i) == (a != (unsigned)i), "uint128 equality with unsigned"); break;
  case 8: sym_assert((x < i) == (c < i) && (x > i) == (c > i) && (i < x) == (i < c) && (i > x) == (i > c), "int128 order with int"); sym_assert((i < p) == (i < 0 || (u128)i < a), "int < uint128"); break;
  case 9: sym_assert((w < p) == (w < a), "uint64 < uint128"); sym_assert((p == w) == (a == w) && (p != w) == (a != w), "uint128 equality with uint64"); sym_assert(((unsigned long long)w < x) == ((i128)(u128)w < c), "uint64 < int128"); break; }
  sym_reach("ok");
}
static u128 spread(uint32_t free = 0) { static const u128 base[] = {0, 1, ((u128)1 << 64) - 1, (u128)1 << 64, (u128)-1, ((u128)1 << 127), (u128)0x123456789abcdef0ULL << 64 | 0xfedcba9876543210ULL, (u128)10000000000000000000ULL * 1000000000u}; return base[sym_choice(8, "base")] ^ ((u128)(sym_u32("bits") & (free ? free : sym_tier() ? 0xfff : 0x3f)) << (sym_choice(4, "shift") * 37)); }
SYM_ENTRY(products) {
  static const uint32_t R[] = {0, 1, 2, 3, 10, 65536, 5, 0x80000000u}; u128 a; uint32_t r; int form = sym_choice(3, "form"); if (form == 2) { static const uint32_t Q[] = {255, 10000, 1000000000, 0xffffffffu}; a = spread(); r = Q[sym_choice(4, "q")]; } else if (form) { int sh = sym_choice(5, "shift") * 29; u128 k = sym_u32("a") & 0x3f; a = k << sh; r = (sym_u32("r") & 0x3f) << (sym_choice(3, "rshift") * 13); if (sym_choice(2, "negative")) a = -a; } else { a = sym128("a"); r = R[sym_choice(8, "r")]; }
  if (sym_choice(2, "signed")) sym_assert((u128)iv(mk(a) * r) == a * r, "int128 product"); else sym_assert(uv(mku(a) * r) == a * r, "uint128 product"); sym_reach("ok");
}
SYM_ENTRY(quotients) { static const uint32_t R[] = {1, 2, 3, 10, 255, 1000000000, 0xffffffffu}; u128 a = spread(); uint32_t r = R[sym_choice(7, "r")], rem = 5; sym_assert(uv(mku(a) / r) == a / r, "uint128 quotient"); U q = mku(a); q.divrem(r, rem); sym_assert(uv(q) == a / r, "divrem quotient"); sym_assert(rem == (uint32_t)(a % r), "divrem remainder"); sym_reach("ok"); }
SYM_ENTRY(print) {
  static const u128 base[] = {(u128)1 << 64, (u128)-1, ((u128)1 << 127), (u128)10000000000000000000ULL * 1000000000u}; sym_pin_iostream(-1); u128 a = sym_choice(2, "large") ? base[sym_choice(4, "base")] ^ ((u128)(sym_u32("bits") & 3) << (sym_choice(2, "shift") * 61)) : sym_u32("low") & (sym_tier() ? 0xfff : 0xff); bool sg = sym_choice(2, "signed"); if (sg && sym_choice(2, "negate")) a = -a; bool neg = sg && (i128)a < 0;
  std::stringstream o; if (sg) o << mk(a); else o << mku(a); std::string s = o.str(); size_t i = 0; if (neg) { sym_assert(s.size() > 1 && s[0] == '-', "sign of a printed value"); i = 1; } sym_assert(s.size() > i && s.size() <= 40, "length of a printed value"); u128 v = 0; bool digits = true; for (size_t k = i; k < s.size(); k++) { unsigned c = (unsigned char)s[k] - '0'; digits &= c < 10; v = v * 10 + c; }
  sym_assert(digits, "printed digits"); if (s.size() > i + 1) sym_assert(s[i] != '0', "leading zero"); sym_assert(v == (neg ? -a : a), "printed value"); sym_reach("ok");
}
#define EACH(F) F(char) F(signed char) F(short) F(int) F(long) F(long long) F(unsigned char) F(unsigned short) F(unsigned) F(unsigned long) F(unsigned long long)
SYM_ENTRY(from_int) {
  int k = sym_choice(11, "type"), j = 0; u128 a = sym128("a"); i128 c = (i128)a; (void)c;
#define F(T) if (k == j++) { T t; sym_make(&t, sizeof t, "t"); sym_assert(iv(S(t)) == (i128)t, "int128 from " #T); sym_assert(uv(U(t)) == (u128)t, "uint128 from " #T); sym_assert((T)mk(a) == (T)a, "int128 to " #T); sym_assert((T)mku(a) == (T)a, "uint128 to " #T); }
  EACH(F)
#undef F
  sym_assert(uv(U(mk(a))) == a && (u128)iv(S(mku(a))) == a, "between int128 and uint128"); sym_assert(std::numeric_limits<S>::min() <= mk(a) && mk(a) <= std::numeric_limits<S>::max() && std::numeric_limits<U>::min() <= mku(a) && mku(a) <= std::numeric_limits<U>::max(), "limits"); sym_reach("ok");
}
static const int SH[] = {0, 1, 10, 11, 12, 40, 63, 64, 65, 74};
// m has its top bit at one of a few places and all lower bits free
static uint64_t top_bit(bool f) { static const int T[] = {51, 30, 11, 0}, G[] = {22, 11, 3, 0}; int t = (f ? G : T)[sym_choice(4, "top")]; return (sym_u64("m") & ((1ull << t) - 1)) | 1ull << t; }
static double make(uint64_t m, int sh) { int t = 63; while (!(m >> t & 1)) t--; uint64_t u = (uint64_t)(1023 + sh + t) << 52 | (m & ~(1ull << t)) << (52 - t); double d; memcpy(&d, &u, 8); return d; }
static float makef(uint64_t m, int sh) { int t = 63; while (!(m >> t & 1)) t--; uint32_t u = (uint32_t)(127 + sh + t) << 23 | (uint32_t)(m & ~(1ull << t)) << (23 - t); float d; memcpy(&d, &u, 4); return d; }
static uint64_t db(double d) { uint64_t u; memcpy(&u, &d, 8); return u; } static uint32_t fb(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
SYM_ENTRY(to_float) {
  bool f = sym_choice(2, "float"), neg = sym_choice(2, "negative"), sg = sym_choice(2, "signed"); if (!sg && neg) return; uint64_t m = top_bit(f); int sh = SH[sym_choice(10, "shift")]; bool least = sg && neg && sh == 0 && sym_choice(2, "least"); if (least) { m = 1; sh = 127; } u128 v = (u128)m << sh; if (neg) v = -v;
  if (f) { float got = sg ? (float)mk(v) : (float)mku(v); sym_assert(fb(got) == (fb(makef(m, sh)) | (neg ? 1u << 31 : 0)), sg ? "int128 to float32" : "uint128 to float32"); } else { double got = sg ? (double)mk(v) : (double)mku(v); sym_assert(db(got) == (db(make(m, sh)) | (neg ? 1ull << 63 : 0)), sg ? "int128 to float64" : "uint128 to float64"); }
  sym_reach("ok");
}
SYM_ENTRY(from_float) {
  static const int Q[] = {-53, -24, -1, 0, 1, 12, 40, 63, 64, 65, 74};
  bool f = sym_choice(2, "float"), neg = sym_choice(2, "negative"), sg = sym_choice(2, "signed"); if (!sg && neg) return; uint64_t m = top_bit(f); int sh = Q[sym_choice(11, "shift")]; u128 want = sh < 0 ? (u128)(m >> -sh) : (u128)m << sh; if (neg) want = -want;
  if (f) { float d = makef(m, sh); if (neg) d = -d; if (sg) sym_assert((u128)iv(S(d)) == want, "int128 from float32"); else sym_assert(uv(U(d)) == want, "uint128 from float32"); }
  else { double d = make(m, sh); if (neg) d = -d; if (sg) sym_assert((u128)iv(S(d)) == want, "int128 from float64"); else sym_assert(uv(U(d)) == want, "uint128 from float64"); }
  sym_reach("ok");
}
static const i128 LO[] = {0, INT8_MIN, INT16_MIN, INT32_MIN, INT64_MIN, 0, 0, 0, 0}; static const u128 HI[] = {1, INT8_MAX, INT16_MAX, INT32_MAX, INT64_MAX, UINT8_MAX, UINT16_MAX, UINT32_MAX, UINT64_MAX};
static i128 rd(int t, const char *p) { return t >= U8 ? (i128)(u128)ld<uint64_t>(t, p) : (i128)ld<int64_t>(t, p); }
SYM_ENTRY(assign_to_wide) {
  int t = 1 + sym_choice(8, "type"), m = sym_choice(4, "mode"); bool sg = sym_choice(2, "signed"); nd::array a = num_val(t, "a"), r = nd::empty(sg ? ts : tu); memset(r.data(), 0x55, 16); i128 v = rd(t, a.cdata()); bool bad = m && !sg && v < 0; int k = threw([&] { r.assign(a, (assign_error_mode)m); }); sym_assert(k == bad, msg("to a 128-bit integer: accepted or refused wrongly from ", tn[t])); if (k || bad) { sym_reach("threw"); return; } sym_assert(!memcmp(r.cdata(), &v, 16), msg("to a 128-bit integer: another value from ", tn[t])); sym_reach("ok");
}
SYM_ENTRY(assign_from_wide) {
  int t = sym_choice(9, "type"), m = sym_choice(4, "mode"); bool sg = sym_choice(2, "signed"); u128 v = sym128("v"); nd::array a = nd::empty(sg ? ts : tu), r = nd::empty(nty[t]); memcpy(a.data(), &v, 16); bool fits = sg && (i128)v < 0 ? (i128)v >= LO[t] : v <= HI[t]; if (!m && t == B) return; int k = threw([&] { r.assign(a, (assign_error_mode)m); }); sym_assert(k == (m && !fits), msg("from a 128-bit integer: accepted or refused wrongly to ", tn[t])); if (k || (m && !fits)) { sym_reach("threw"); return; } sym_assert(!memcmp(r.cdata(), &v, tsz[t]), msg("from a 128-bit integer: another value to ", tn[t])); sym_reach("ok");
}
SYM_ENTRY(assign_wide) {
  bool a1 = sym_choice(2, "from"), b1 = sym_choice(2, "to"); int m = sym_choice(4, "mode"); u128 v = sym128("v"); nd::array a = nd::empty(a1 ? ts : tu), r = nd::empty(b1 ? ts : tu); memcpy(a.data(), &v, 16); bool bad = m && a1 != b1 && (i128)v < 0; int k = threw([&] { r.assign(a, (assign_error_mode)m); }); sym_assert(k == bad, "between 128-bit integers: accepted or refused wrongly"); if (k || bad) { sym_reach("threw"); return; } sym_assert(!memcmp(r.cdata(), &v, 16), "between 128-bit integers: another value"); sym_reach("ok");
}
SYM_ENTRY(assign_real) { // small significands; fractions and limits
  bool sg = sym_choice(2, "signed"), f = sym_choice(2, "float"); int m = sym_choice(4, "mode"), form = sym_choice(4, "form"); nd::array w = nd::empty(sg ? ts : tu), d = nd::empty(nty[f ? F32 : F64]); memset(w.data(), 0x55, 16); double x; u128 want = 0; bool bad = false;
  if (form == 0) { bool neg = sym_choice(2, "negative"); uint64_t q = sym_choice(2, "zero") ? 0 : top_bit(f); x = q ? make(q, -1) : 0; if (neg) x = -x; want = q >> 1; if (neg) want = -want; if (!sg && neg && q) { if (m == 0 || (m == 1 && q == 1)) return; bad = true; } bad = bad | (m >= 2 && q % 2 != 0); }
  else if (form == 1) { static const double X[] = {0x1p126, -0x1p126, 0x1p127, -0x1p127, 0x1p128, -0x1p128, 0x1.8p126, 0x1.fffffep126, 0x1.fffffep127, 3e38}; int i = sym_choice(10, "x"); x = f ? (double)(float)X[i] : X[i]; if (m == 0) return; double lo = sg ? -0x1p127 : 0, hi = sg ? 0x1p127 : 0x1p128; bad = x < lo || x >= hi; if (!bad) { double y = x < 0 ? -x : x; uint64_t h = (uint64_t)(y / 0x1p64); want = (u128)h << 64; want += (u128)(uint64_t)(y - (double)h * 0x1p64); if (x < 0) want = -want; } }
  else { // to floating point
    uint64_t q = top_bit(f); int sh = form == 2 ? 0 : 70; u128 v = (u128)q << sh; bool neg = sg && sym_choice(2, "negative"); double want = make(q, sh); if (neg) { v = -v; want = -want; } memcpy(w.data(), &v, 16); int k = threw([&] { d.assign(w, (assign_error_mode)m); }); sym_assert(!k, "an exact 128-bit integer is refused by floating point"); if (!k) sym_assert((f ? (double)*(const float *)d.cdata() : *(const double *)d.cdata()) == want, "floating point of a 128-bit integer"); sym_reach("ok"); return; }
  if (f) *(float *)d.data() = (float)x; else *(double *)d.data() = x; int k = threw([&] { w.assign(d, (assign_error_mode)m); }); sym_assert(k == bad, "floating point to a 128-bit integer: accepted or refused wrongly"); if (k || bad) { sym_reach("threw"); return; } sym_assert(!memcmp(w.cdata(), &want, 16), "floating point to a 128-bit integer: another value"); sym_reach("ok");
}
SYM_ENTRY(array_ops) {
  bool sg = sym_choice(2, "signed"); int op = sym_choice(2, "op"); u128 a = sym128("a"), b = sym128("b"); nd::array x = nd::empty(sg ? ts : tu), y = nd::empty(sg ? ts : tu), r; memcpy(x.data(), &a, 16); memcpy(y.data(), &b, 16); int k = threw([&] { r = op ? nd::subtract(x, y) : nd::add(x, y); }); sym_assert(!k, "128-bit array operation raises"); if (k) return; bool same = r.get_type() == (sg ? ts : tu); sym_assert(same, "type of a 128-bit array operation"); u128 w = op ? a - b : a + b; if (same) sym_assert(!memcmp(r.cdata(), &w, 16), op ? "128-bit array difference" : "128-bit array sum"); sym_reach("ok");
}
