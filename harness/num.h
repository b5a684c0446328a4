// Built-in numeric types by number, with C++ conversion rules
#pragma once
#include "common.h"
enum { B, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, NT };
static const char *const tn[] = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
static const int tsz[] = {1, 1, 2, 4, 8, 1, 2, 4, 8, 4, 8};
template <class R> static R ld(int t, const char *p) {
  switch (t) { case B: return (R)*(bool *)p; case I8: return (R)*(int8_t *)p; case I16: return (R)*(int16_t *)p; case I32: return (R)*(int32_t *)p; case I64: return (R)*(int64_t *)p;
  case U8: return (R)*(uint8_t *)p; case U16: return (R)*(uint16_t *)p; case U32: return (R)*(uint32_t *)p; case U64: return (R)*(uint64_t *)p; case F32: return (R)*(float *)p; default: return (R)*(double *)p; }
}
// C++ integral promotion and usual arithmetic conversions
static int prom(int t) { return t == B || tsz[t] < 4 ? I32 : t; }
static int common(int a, int b) {
  a = prom(a); b = prom(b); if (a == F64 || b == F64) return F64; if (a == F32 || b == F32) return F32;
  bool w = tsz[a] == 8 || tsz[b] == 8; bool u = (a == U64 || b == U64) || (!w && (a == U32 || b == U32)); return w ? (u ? U64 : I64) : (u ? U32 : I32);
}
static ndt::type nty[NT];   // filled by num_setup (natively, from sym_setup)
static inline void num_setup() {
  nty[B] = ndt::make_type<bool1>(); nty[I8] = ndt::make_type<int8_t>(); nty[I16] = ndt::make_type<int16_t>(); nty[I32] = ndt::make_type<int32_t>(); nty[I64] = ndt::make_type<int64_t>(); nty[U8] = ndt::make_type<uint8_t>();
  nty[U16] = ndt::make_type<uint16_t>(); nty[U32] = ndt::make_type<uint32_t>(); nty[U64] = ndt::make_type<uint64_t>(); nty[F32] = ndt::make_type<float>(); nty[F64] = ndt::make_type<double>();
}
static inline nd::array num_val(int t, const char *name) { nd::array a = nd::empty(nty[t]); sym_make(a.data(), tsz[t], name); if (t == B) sym_assume(*(uint8_t *)a.data() < 2); return a; }
