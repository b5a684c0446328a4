//@property C27
//@bound every half-precision bit pattern, every pair of them in comparisons; every float32 and float64 (each exponent around the half range explored separately, all significands free)
//@assume conversion to half precision of values which overflow may give infinity or raise, of values below the normal range which are not exact may raise or round
//@entry to_wider reach=ok
//@entry round_trip reach=ok
//@entry from_float reach=ok
//@entry from_double reach=ok
//@entry from_special reach=ok
//@entry order reach=ok
//@entry tests reach=ok
//@entry to_int reach=ok
//@entry from_int reach=ok
#include "num.h"
typedef dynd::float16 H;
static float f_of(uint32_t u) { float f; memcpy(&f, &u, 4); return f; } static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static double d_of(uint64_t u) { double f; memcpy(&f, &u, 8); return f; } static uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
extern "C" void sym_setup() { num_setup(); threw([] { float_to_halfbits(1e-9f); }); threw([] { double_to_halfbits(1e-9); }); threw([] { float_to_halfbits(65535.f); }); threw([] { double_to_halfbits(65535.); }); }
static uint16_t half(int &e) { uint16_t h = (uint16_t)sym_u32("h"); e = sym_choice(32, "exponent"); sym_assume(((h >> 10) & 31) == e); return h; }
// Bits of the same value in a wider format with p explicit significand bits and the given bias
static uint64_t widen(uint16_t h, int e, int p, int bias) {
  uint64_t m = h & 0x3ff; if (e == 31) return ((uint64_t)(2 * bias + 1) << p) | m << (p - 10); if (e) return ((uint64_t)(e - 15 + bias) << p) | m << (p - 10);
  if (!m) return 0; int k = 9; while (!(m >> k & 1)) k--; return ((uint64_t)(k - 24 + bias) << p) | (m ^ (1ull << k)) << (p - k);
}
SYM_ENTRY(to_wider) {
  int e; uint16_t h = half(e); uint64_t s = h >> 15; bool nan = e == 31 && (h & 0x3ff); float f = halfbits_to_float(h); double d = halfbits_to_double(h); sym_assert(bits(f) == (uint32_t)(s << 31 | widen(h, e, 23, 127)), nan ? "NaN of half precision as float32" : "float32 of half precision"); sym_assert(bits(d) == (s << 63 | widen(h, e, 52, 1023)), nan ? "NaN of half precision as float64" : "float64 of half precision"); H x = float16_from_bits(h); sym_assert(x.bits() == h && bits((float)x) == bits(f) && bits((double)x) == bits(d), "float16 operators"); sym_reach("ok");
}
SYM_ENTRY(round_trip) { int e; uint16_t h = half(e), a = 0, b = 0; int k = threw([&] { a = float_to_halfbits(halfbits_to_float(h)); b = double_to_halfbits(halfbits_to_double(h)); }); sym_assert(!k, "a half precision value is refused"); if (k) return; sym_assert(a == h, "half precision through float32"); sym_assert(b == h, "half precision through float64"); H x(halfbits_to_float(h)), y(halfbits_to_double(h)); sym_assert(x.bits() == h && y.bits() == h, "float16 constructors"); sym_reach("ok"); }
// Round to nearest, ties to even, of M * 2^(E - p), M with p + 1 bits; result may be 0x7c00
static uint16_t ref(uint64_t M, int E, int p, bool &exact) { int drop = p - 10 + (E < -14 ? -14 - E : 0); if (drop > p + 2) { exact = M == 0; return 0; } uint64_t q = M >> drop, r = M & ((1ull << drop) - 1), hf = 1ull << (drop - 1); exact = r == 0; q += (r > hf) | ((r == hf) & (q & 1)); return (uint16_t)(E < -14 ? q : q + ((uint64_t)(E + 14) << 10)); }
template <class F> static void from_real(int p, int bias, F conv) {
  static const int X[] = {-60, -27, -26, -25, -24, -23, -22, -20, -19, -17, -16, -15, -14, -13, -12, -7, -1, 0, 1, 2, 7, 10, 13, 14, 15, 16, 17, 50}; int E = X[sym_choice(28, "exponent")]; bool neg = sym_choice(2, "negative"); uint64_t m = sym_u64("m") & ((1ull << p) - 1), M = m | 1ull << p; bool exact = true; uint16_t want = E >= 16 ? 0x7c00 : ref(M, E, p, exact); uint16_t got = 0; int k = threw([&] { got = conv((uint64_t)neg << 63, m, E + bias); });
  bool over = want >= 0x7c00, sub = (E < -14) & !exact; if (k) { sym_assert(over | sub, "a value within the half precision range is refused"); sym_reach("ok"); return; } sym_assert(got == (uint16_t)(want | neg << 15), "rounding to half precision"); sym_reach("ok");
}
SYM_ENTRY(from_float) { from_real(23, 127, [](uint64_t s, uint64_t m, int e) { return float_to_halfbits(f_of((uint32_t)(s >> 32 | (uint64_t)e << 23 | m))); }); }
SYM_ENTRY(from_double) { from_real(52, 1023, [](uint64_t s, uint64_t m, int e) { return double_to_halfbits(d_of(s | (uint64_t)e << 52 | m)); }); }
SYM_ENTRY(from_special) {
  int t = sym_choice(2, "double"), sp = sym_choice(2, "special"); uint64_t s = sym_choice(2, "negative"), m = sym_u64("m") & (t ? (1ull << 52) - 1 : (1ull << 23) - 1); uint16_t got = 0; int k = threw([&] { got = t ? double_to_halfbits(d_of(s << 63 | (sp ? 0x7ffull << 52 : 0) | m)) : float_to_halfbits(f_of((uint32_t)(s << 31 | (sp ? 0xffull << 23 : 0) | m))); });
  if (!sp) { sym_assert(k ? m != 0 : got == (uint16_t)(s << 15), "zero or subnormal to half precision"); } else { sym_assert(!k, "infinity or NaN is refused"); bool nan = (got & 0x7c00) == 0x7c00 && (got & 0x3ff), inf = (got & 0x7fff) == 0x7c00; if (!k) sym_assert((m ? nan : inf) && got >> 15 == (int)s, "infinity or NaN to half precision"); } sym_reach("ok");
}
static bool lt(uint16_t a, uint16_t b) { int x = a & 0x8000 ? -(int)(a & 0x7fff) : a, y = b & 0x8000 ? -(int)(b & 0x7fff) : b; return x < y; }
SYM_ENTRY(order) {
  uint16_t a = (uint16_t)sym_u32("a"), b = (uint16_t)sym_u32("b"); bool na = (a & 0x7fff) > 0x7c00, nb = (b & 0x7fff) > 0x7c00, eq = (a == b) | (((a | b) & 0x7fff) == 0), n = na | nb; H x = float16_from_bits(a), y = float16_from_bits(b);
  switch (sym_choice(3, "op")) {
  case 0: if (!n) { sym_assert(x.less_nonan(y) == lt(a, b), "less_nonan"); sym_assert(x.less_equal_nonan(y) == (lt(a, b) | eq), "less_equal_nonan"); } break;
  case 1: { static const uint16_t K[] = {0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x3c00, 0xbc01, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0xfc01}; int i = sym_choice(14, "k"); int e = sym_choice(32, "exponent"); sym_assume(((a >> 10) & 31) == e); b = K[i]; nb = (b & 0x7fff) > 0x7c00; n = na | nb; eq = (a == b) | (((a | b) & 0x7fff) == 0); y = float16_from_bits(b); sym_assert((x < y) == (!n & lt(a, b)), "<"); sym_assert((x > y) == (!n & lt(b, a)), ">"); sym_assert((x <= y) == (!n & (lt(a, b) | eq)), "<="); sym_assert((x >= y) == (!n & (lt(b, a) | eq)), ">="); sym_assert((x == y) == (!n & eq), "=="); sym_assert((x != y) == !(!n & eq), "!="); break; }
  case 2: { int e = sym_choice(32, "exponent"); sym_assume(((a >> 10) & 31) == e); double d = (double)x; static const double Q[] = {0, 1, -1, 65504, 1e-7, 100000, -0.5}; double q = Q[sym_choice(7, "q")]; sym_assert((x < q) == (d < q) && (q < x) == (q < d) && (x <= q) == (d <= q) && (x == q) == (d == q) && (x != q) == (d != q) && (x >= q) == (d >= q) && (x > q) == (d > q), "comparison with float64"); break; } }
  sym_reach("ok");
}
SYM_ENTRY(tests) {
  int e; uint16_t h = half(e); H x = float16_from_bits(h); bool nan = (h & 0x7fff) > 0x7c00, z = (h & 0x7fff) == 0; sym_assert(x.iszero() == z, "iszero"); sym_assert(x.signbit_() == (h >> 15 == 1), "signbit"); sym_assert(x.isnan_() == nan, "isnan"); sym_assert(x.isinf_() == ((h & 0x7fff) == 0x7c00), "isinf"); sym_assert(x.isfinite_() == ((h & 0x7c00) != 0x7c00), "isfinite"); sym_assert(!x == z, "not"); sym_assert((bool)x == !z, "truth value"); sym_assert((-x).bits() == (h ^ 0x8000), "unary minus"); sym_assert((+x).bits() == h, "unary plus"); sym_assert(dynd::float16(true).bits() == 0x3c00 && dynd::float16(false).bits() == 0, "from bool"); sym_reach("ok");
}
SYM_ENTRY(to_int) {
  int e = 10 + sym_choice(21, "exponent"); uint16_t h = (uint16_t)sym_u32("h"); sym_assume(((h >> 10) & 31) == e); H x = float16_from_bits(h); int M = 1024 | (h & 0x3ff), s = 25 - e, v = s > 0 ? M >> s : M << -s; if (h >> 15) v = -v;
  sym_assert((int32_t)x == v, "to int32"); sym_assert((int64_t)x == v, "to int64"); if (v >= -128 && v < 128) sym_assert((int8_t)x == v, "to int8"); if (v >= -32768 && v < 32768) sym_assert((int16_t)x == v, "to int16"); if (v >= 0) { sym_assert((uint32_t)x == (uint32_t)v && (uint64_t)x == (uint64_t)v && (uint16_t)x == (uint16_t)v, "to unsigned"); if (v < 256) sym_assert((uint8_t)x == v, "to uint8"); dynd::uint128 u(x); sym_assert(u.m_hi == 0 && u.m_lo == (uint64_t)v, "to uint128"); } dynd::int128 w(x); sym_assert(w.m_lo == (uint64_t)(int64_t)v && w.m_hi == (v < 0 ? ~0ull : 0), "to int128"); sym_reach("ok");
}
SYM_ENTRY(from_int) { // integers of up to 11 bits are exact
  int v = (int)(sym_u32("v") % 4097) - 2048, b = sym_choice(13, "bits"); unsigned m = v < 0 ? -v : v; sym_assume(b == 0 ? m == 0 : (m >> (b - 1)) == 1); uint16_t w = b ? (uint16_t)((b + 14) << 10 | ((m << 11 >> (b - 1) >> 1) & 0x3ff)) : 0; if (v < 0) w |= 0x8000; sym_assert(H((int32_t)v).bits() == w && H((int16_t)v).bits() == w && H((int64_t)v).bits() == w, "from signed integers"); if (v >= 0) sym_assert(H((uint16_t)v).bits() == w && H((uint32_t)v).bits() == w && H((uint64_t)v).bits() == w, "from unsigned integers"); if (v >= -128 && v < 128) sym_assert(H((int8_t)v).bits() == w, "from int8"); sym_reach("ok");
}
