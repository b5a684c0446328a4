//@property C01
//@bound every bit pattern of the source value; source and destination over bool, int8..int64, uint8..uint64, float32, float64, complex64, complex128; all four error modes
//@bound scalar assignment through array assign
//@assume results of unchecked casts of out-of-range floating point values to integers are unspecified (undefined behaviour in C++) and not asserted
//@entry from_bool reach=ok
//@entry from_i8 reach=ok,threw
//@entry from_i16 reach=ok,threw
//@entry from_i32 reach=ok,threw
//@entry from_i64 reach=ok,threw
//@entry from_u8 reach=ok,threw
//@entry from_u16 reach=ok,threw
//@entry from_u32 reach=ok,threw
//@entry from_u64 reach=ok,threw
//@entry from_f32 reach=ok,threw
//@entry from_f64 reach=ok,threw
//@entry from_c64 reach=ok,threw
//@entry from_c128 reach=ok,threw
#include "common.h"

template <class T> struct info;
#define I(T, N, K) template <> struct info<T> { static const char *name() { return N; } static const char kind = K; };
I(bool1, "bool", 'b') I(int8_t, "int8", 'i') I(int16_t, "int16", 'i') I(int32_t, "int32", 'i') I(int64_t, "int64", 'i')
I(uint8_t, "uint8", 'u') I(uint16_t, "uint16", 'u') I(uint32_t, "uint32", 'u') I(uint64_t, "uint64", 'u')
I(float, "float32", 'f') I(double, "float64", 'f') I(dynd::complex<float>, "complex64", 'c') I(dynd::complex<double>, "complex128", 'c')
#undef I
template <char K> struct kind {};
// source value in a neutral form
struct N { bool isint; i128 i; double re, im; };
template <class S> N conv(S s, kind<'b'>) { return {true, (i128)(*(unsigned char *)&s != 0), 0, 0}; }
template <class S> N conv(S s, kind<'i'>) { return {true, (i128)s, 0, 0}; }
template <class S> N conv(S s, kind<'u'>) { return {true, (i128)(u128)s, 0, 0}; }
template <class S> N conv(S s, kind<'f'>) { return {false, 0, (double)s, 0}; }
template <class S> N conv(S s, kind<'c'>) { return {false, 0, (double)s.real(), (double)s.imag()}; }

enum V { OK, THROW, FREE };
static inline bool isnan_(double d) { return d != d; }
static inline bool isinf_(double d) { return (d - d != 0) & (d == d); }
static bool int_exact(i128 v, int p) { u128 u = v < 0 ? -(u128)v : (u128)v; return (u == 0) | (u < ((u & -u) << p)); }

// ---- destination bool
template <class D> V verdict(const N &n, int m, kind<'b'>) { if (m == 0) return FREE; bool ok = n.isint ? (n.i == 0) | (n.i == 1) : ((n.re == 0) | (n.re == 1)) & (n.im == 0); return ok ? OK : THROW; }
template <class D> bool right(const N &n, D got, int m, kind<'b'>) { unsigned char g = *(unsigned char *)&got; if (m == 0) return g <= 1; return g == (n.isint ? (unsigned char)(n.i == 1) : (unsigned char)(n.re == 1)); }
// ---- destination integer
template <class D> V verdict_int(const N &n, int m) {
  if (m == 0) return FREE;
  if (n.isint) return ((n.i >= (i128)std::numeric_limits<D>::min()) & (n.i <= (i128)std::numeric_limits<D>::max())) ? OK : THROW;
  // floating point: exact power-of-two limits
  double hi = ldexp(1.0, std::numeric_limits<D>::digits), lo = (double)std::numeric_limits<D>::min();
  if (!((n.re >= lo) & (n.re < hi) & (n.im == 0))) return ((n.re > lo - 1) & (n.re < lo) & (n.im == 0) & (m == 1)) ? FREE : THROW;
  if (m == 1 && (double)std::numeric_limits<D>::max() < hi && n.re > (double)std::numeric_limits<D>::max()) return FREE; // between max and max + 1
  if (m >= 2 && floor(n.re) != n.re) return THROW;
  return OK;
}
template <class D> bool right_int(const N &n, D got, int m) {
  if (n.isint) return got == (D)n.i;
  double hi = ldexp(1.0, std::numeric_limits<D>::digits), lo = (double)std::numeric_limits<D>::min();
  if (!(((n.re > lo - 1) | (n.re == lo)) & (n.re < hi))) return m == 0;
  if (m == 0 && n.re < 0 && lo == 0) return true;
  return got == (D)n.re;
}
template <class D> V verdict(const N &n, int m, kind<'i'>) { return verdict_int<D>(n, m); }
template <class D> V verdict(const N &n, int m, kind<'u'>) { return verdict_int<D>(n, m); }
template <class D> bool right(const N &n, D got, int m, kind<'i'>) { return right_int<D>(n, got, m); }
template <class D> bool right(const N &n, D got, int m, kind<'u'>) { return right_int<D>(n, got, m); }
// ---- destination real
template <class D> V verdict_real(const N &n, double part, int m) {
  if (m == 0) return FREE;
  if (n.isint) return (m == 3 && !int_exact(n.i, std::numeric_limits<D>::digits)) ? THROW : OK;
  D d = (D)part;
  if (isnan_(part)) return m == 3 ? FREE : OK;
  if (!isinf_(part) & isinf_((double)d)) return THROW;
  if (!isinf_(part) & (fabs(part) > (double)std::numeric_limits<D>::max())) return m == 3 ? THROW : FREE; // rounds down to the largest value
  if (m == 3 && (double)d != part) return THROW;
  return OK;
}
template <class D> bool right_real(const N &n, double part, D got) {
  if (n.isint) return same_bits(got, n.i < 0 ? (D)(int64_t)n.i : (D)(uint64_t)n.i);
  D d = (D)part; if (d != d) return got != got; return same_bits(got, d);
}
template <class D> V verdict(const N &n, int m, kind<'f'>) { if (m > 0 && !n.isint && n.im != 0) return THROW; return verdict_real<D>(n, n.re, m); }
template <class D> bool right(const N &n, D got, int m, kind<'f'>) { return right_real<D>(n, n.re, got); }
// ---- destination complex
template <class D> V verdict(const N &n, int m, kind<'c'>) {
  typedef typename D::value_type R; V a = verdict_real<R>(n, n.re, m), b = n.isint ? OK : verdict_real<R>(n, n.im, m);
  return a == THROW || b == THROW ? THROW : a == FREE || b == FREE ? FREE : OK;
}
template <class D> bool right(const N &n, D got, int m, kind<'c'>) {
  typedef typename D::value_type R; R im = n.isint ? R(0) : (R)n.im;
  return right_real<R>(n, n.re, got.real()) & ((got.imag() == im) | ((im != im) & (got.imag() != got.imag())));
}

template <class S, class D> static void one() {
  int m = sym_choice(4, "mode");
  nd::array src = nd::empty(ndt::make_type<S>()), dst = nd::empty(ndt::make_type<D>());
  sym_make(src.data(), sizeof(S), "src");
  if (info<S>::kind == 'b') sym_assume(*(unsigned char *)src.data() <= 1);
  S s = *(S *)src.data();
  int t = threw([&] { dst.assign(src, (assign_error_mode)m); });
  N n = conv(s, kind<info<S>::kind>());
  V v = verdict<D>(n, m, kind<info<D>::kind>());
  if (t) {
    sym_reach("threw");
    sym_assert(m != 0, msg(info<S>::name(), " to ", info<D>::name(), ": unchecked assignment raised an error"));
    bool nan = !n.isint && (isnan_(n.re) || isnan_(n.im));
    sym_assert(v != OK, msg(info<S>::name(), " to ", info<D>::name(), " ", mode_name[m], nan ? ": rejected NaN" : ": rejected a value the destination holds"));
  } else {
    sym_reach("ok");
    bool nan = !n.isint && (isnan_(n.re) || isnan_(n.im));
    sym_assert(v != THROW, msg(info<S>::name(), " to ", info<D>::name(), " ", mode_name[m], nan ? ": accepted NaN" : ": accepted a value the destination cannot hold"));
    D got = *(D *)dst.data();
    sym_assert(right<D>(n, got, m, kind<info<D>::kind>()), msg(info<S>::name(), " to ", info<D>::name(), " ", mode_name[m], ": stored a different value"));
  }
}
template <class S> static void from_all() {
  switch (sym_choice(13, "dst")) {
  case 0: return one<S, bool1>(); case 1: return one<S, int8_t>(); case 2: return one<S, int16_t>(); case 3: return one<S, int32_t>(); case 4: return one<S, int64_t>();
  case 5: return one<S, uint8_t>(); case 6: return one<S, uint16_t>(); case 7: return one<S, uint32_t>(); case 8: return one<S, uint64_t>();
  case 9: return one<S, float>(); case 10: return one<S, double>(); case 11: return one<S, dynd::complex<float>>(); case 12: return one<S, dynd::complex<double>>();
  }
}
SYM_ENTRY(from_bool) { from_all<bool1>(); }
SYM_ENTRY(from_i8) { from_all<int8_t>(); }
SYM_ENTRY(from_i16) { from_all<int16_t>(); }
SYM_ENTRY(from_i32) { from_all<int32_t>(); }
SYM_ENTRY(from_i64) { from_all<int64_t>(); }
SYM_ENTRY(from_u8) { from_all<uint8_t>(); }
SYM_ENTRY(from_u16) { from_all<uint16_t>(); }
SYM_ENTRY(from_u32) { from_all<uint32_t>(); }
SYM_ENTRY(from_u64) { from_all<uint64_t>(); }
SYM_ENTRY(from_f32) { from_all<float>(); }
SYM_ENTRY(from_f64) { from_all<double>(); }
SYM_ENTRY(from_c64) { from_all<dynd::complex<float>>(); }
SYM_ENTRY(from_c128) { from_all<dynd::complex<double>>(); }
