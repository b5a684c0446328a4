#pragma once
#include "sym.h"
#include <string.h>
#include <math.h>
#include <dynd/array.hpp>
#include <dynd/callable.hpp>
#include <dynd/type.hpp>
#include <dynd/assignment.hpp>
#include <dynd/types/fixed_dim_type.hpp>
using namespace dynd;
typedef __int128 i128; typedef unsigned __int128 u128;
// Assertion messages assembled from concrete parts.
static char g_msg[256];
static inline const char *msg(const char *a, const char *b = "", const char *c = "", const char *d = "", const char *e = "", const char *f = "") {
  char *p = g_msg; for (const char *s : {a, b, c, d, e, f}) while (*s && p < g_msg + 250) *p++ = *s++; *p = 0; return g_msg;
}
// Runs f; 1 when it threw a std::exception or a dynd exception, 0 otherwise. Anything else thrown escapes and is reported.
template <class F> static inline int threw(F f) { try { f(); return 0; } catch (const std::exception &) { return 1; } catch (const dynd::dynd_exception &) { return 1; } }
static const char *const mode_name[] = {"nocheck", "overflow", "fractional", "inexact"};
template <class T> static inline bool same_bits(const T &a, const T &b) { return __builtin_memcmp(&a, &b, sizeof(T)) == 0; }
