//@property C14
//@bound arrays of one to three dimensions of sizes 0 to 3 (the second and third 1 or 2) in C order, transposed or reversed, every element value; every choice of axes, with and without keepdims; ragged inner rows of length 0 to 3; every value of two or three elements of each of the ten built-in numeric types
//@assume int32 and user-written reductions stand for all types in layout coverage; floating point sums are compared up to the sign of zero
//@entry layout reach=ok
//@entry two_operands reach=ok
//@entry types reach=ok
//@entry ragged reach=ok
//@entry bools reach=ok
//@entry scalars reach=ok
#include "common.h"
#include "num.h"
#include <dynd/arithmetic.hpp>
#include <dynd/statistics.hpp>
#include <dynd/logic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/types/var_dim_type.hpp>
static ndt::type ti, tb; static nd::callable *fs[5], *f2; static nd::array axes_of[4][8], no_axes, keep[2];
static const size_stride_t *ss(const nd::array &a) { return (const size_stride_t *)a->metadata(); }
static bool next(int *ix, const int *n, int nd) { for (int i = nd; i-- > 0;) { if (++ix[i] < n[i]) return true; ix[i] = 0; } return false; }
static bool is_shape(const nd::array &a, int nd, const int *n, const ndt::type &t) { ndt::type x = a.get_type(); for (int i = 0; i < nd; i++) { if (x.get_id() != fixed_dim_id || ss(a)[i].dim_size != n[i] || x.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != n[i]) return false; x = x.extended<ndt::base_dim_type>()->get_element_type(); } return x == t; }
static nd::array source(int nd, const int *n, int form, const int32_t *vals) {
  intptr_t sh[4]; for (int i = 0; i < nd; i++) sh[i] = form == 1 ? n[nd - 1 - i] : n[i]; nd::array a = nd::empty(ndt::make_type(nd, sh, ti)); intptr_t st[4], off = 0; for (int i = 0; i < nd; i++) { st[i] = ss(a)[form == 1 ? nd - 1 - i : i].stride; if (form == 2 && n[i]) { off += st[i] * (n[i] - 1); st[i] = -st[i]; } }
  int ix[4] = {0}, k = 0, tot = 1; for (int i = 0; i < nd; i++) tot *= n[i]; if (tot) do { char *p = a.data() + off; for (int i = 0; i < nd; i++) p += st[i] * ix[i]; *(int32_t *)p = vals[k++]; } while (next(ix, n, nd)); if (!form) return a; intptr_t m[4]; for (int i = 0; i < nd; i++) m[i] = n[i]; return nd::make_strided_array_from_data(ti, nd, m, st, a.get_flags(), a.data() + off, a, NULL);
}
static nd::array make_axes(int nd, int mask) { int k = __builtin_popcount(mask); nd::array a = nd::empty(k, ti); int32_t *p = (int32_t *)a.data(); for (int i = 0; i < nd; i++) if (mask >> i & 1) *p++ = i; return a; }
static nd::array reduce(nd::callable &f, nd::array *args, int na, int nd, int mask, bool all, int kd) {
  std::vector<std::pair<const char *, nd::array>> k; if (!all) k.push_back({"axes", axes_of[nd][mask]}); if (kd) k.push_back({"keepdims", keep[1]}); return f.call(na, args, k.size(), k.data());
}
extern "C" void sym_setup() {
  num_setup(); ti = ndt::make_type<int32_t>(); tb = ndt::make_type<bool>(); keep[0] = nd::array(false); keep[1] = nd::array(true); for (int n = 0; n < 4; n++) for (int m = 0; m < 1 << n; m++) axes_of[n][m] = make_axes(n, m);
  fs[0] = &nd::sum; fs[1] = &nd::min; fs[2] = &nd::max; static nd::callable h = nd::functional::reduction([] { return 7; }, [](const return_wrapper<int> &r, int x) { r = (int)((unsigned)r * 31u + (unsigned)x); }); fs[3] = &h; static nd::callable g = nd::functional::reduction([] { return 5; }, [](const return_wrapper<int> &r, int x, int y) { r = (int)((unsigned)r * 3u + (unsigned)x * 5u + (unsigned)y); }); f2 = &g;
  int n[3] = {2, 2, 2}; int32_t v[8] = {1, 2, 3, 4, 5, 6, 7, 8}; for (int d = 1; d < 4; d++) for (int m = 0; m < 1 << d; m++) for (int k = 0; k < 4; k++) { nd::array a = source(d, n, 0, v); threw([&] { reduce(*fs[k], &a, 1, d, m, false, 1); reduce(*fs[k], &a, 1, d, 0, true, 0); }); }
}
static const char *const fname[] = {"sum", "min", "max", "user-written"};
static int32_t comb(int f, int32_t a, int32_t x) { return f == 0 ? (int32_t)((uint32_t)a + (uint32_t)x) : f == 1 ? (x < a ? x : a) : f == 2 ? (x > a ? x : a) : (int32_t)((uint32_t)a * 31u + (uint32_t)x); }
static int32_t ident(int f) { return f == 0 ? 0 : f == 1 ? INT32_MAX : f == 2 ? INT32_MIN : 7; }
static void pick_shape(int *n, int nd) { for (int i = 0; i < nd; i++) n[i] = i == 0 ? sym_choice(4, "n0") : i == 1 ? 1 + sym_choice(2, "n1") : 2; if (nd > 1 && sym_choice(4, "zero") == 0) n[nd - 1] = 0; }
SYM_ENTRY(layout) {
  int nd = 1 + sym_choice(3, "ndim"), n[3]; pick_shape(n, nd); int form = sym_choice(3, "form"), f = form ? 3 : sym_choice(nd < 2 ? 4 : 2, "fun") * (nd < 2 ? 1 : 3), kd = sym_choice(2, "keepdims"), all = sym_choice(2, "all"), mask = all ? (1 << nd) - 1 : sym_choice(1 << nd, "axes"); int32_t v[64]; int tot = 1; for (int i = 0; i < nd; i++) tot *= n[i]; if (tot) sym_make(v, 4 * tot, "v"); nd::array a = source(nd, n, form, v), r; if (all && kd && form) return;
  char sn[8] = {0}, *q = sn; for (int i = 0; i < nd; i++) { *q++ = '0' + n[i]; *q++ = i < nd - 1 ? 'x' : 0; } char an[8] = {0}; q = an; for (int i = 0; i < nd; i++) if (mask >> i & 1) *q++ = '0' + i; if (!*an) strcpy(an, "none"); char m[100]; strcpy(m, msg(fname[f], " of ", sn, " over axes ", an, kd ? " keepdims" : ""));
  int t = threw([&] { r = reduce(*fs[f], &a, 1, nd, mask, all, kd); }); sym_assert(!t, msg(m, " raised")); if (t) return;
  int on = 0, o[3], full[3]; for (int i = 0; i < nd; i++) { full[i] = mask >> i & 1 ? 1 : n[i]; if (!(mask >> i & 1) || kd) o[on++] = full[i]; } bool sh = is_shape(r, on, o, ti); sym_assert(sh, msg(m, ": shape")); if (!sh) return; int outs = 1; for (int i = 0; i < nd; i++) outs *= full[i]; if (!outs) { sym_reach("ok"); return; }
  int32_t e[64]; for (int i = 0; i < outs; i++) e[i] = ident(f); int ix[3] = {0}, k = 0; if (tot) do { int p = 0; for (int i = 0; i < nd; i++) p = p * full[i] + (mask >> i & 1 ? 0 : ix[i]); e[p] = comb(f, e[p], v[k++]); } while (next(ix, n, nd));
  int jx[3] = {0}; bool ok = true; k = 0; do { const char *p = r.cdata(); for (int i = 0; i < on; i++) p += ss(r)[i].stride * jx[i]; ok &= *(const int32_t *)p == e[k++]; } while (next(jx, o, on)); sym_assert(ok, msg(m, ": wrong value")); sym_reach("ok");
}
SYM_ENTRY(two_operands) {
  int nd = 1 + sym_choice(2, "ndim"), n[3] = {1 + sym_choice(3, "n0"), 1 + sym_choice(2, "n1"), 0}, fa = sym_choice(3, "fa"), fb = sym_choice(3, "fb"), mask = 1 + sym_choice((1 << nd) - 1, "axes"); int32_t v[16], w[16]; int tot = n[0] * (nd > 1 ? n[1] : 1); sym_make(v, 4 * tot, "v"); sym_make(w, 4 * tot, "w"); nd::array a[2] = {source(nd, n, fa, v), source(nd, n, fb, w)}, r; int t = threw([&] { r = reduce(*f2, a, 2, nd, mask, false, 0); }); sym_assert(!t, "two-operand reduction raised"); if (t) return;
  int o[2], on = 0, full[2]; for (int i = 0; i < nd; i++) { full[i] = mask >> i & 1 ? 1 : n[i]; if (!(mask >> i & 1)) o[on++] = n[i]; } bool sh = is_shape(r, on, o, ti); sym_assert(sh, "two-operand reduction: shape"); if (!sh) return; int32_t e[8]; for (int i = 0; i < 8; i++) e[i] = 5; int ix[2] = {0}, k = 0; do { int p = 0; for (int i = 0; i < nd; i++) p = p * full[i] + (mask >> i & 1 ? 0 : ix[i]); e[p] = (int32_t)((uint32_t)e[p] * 3u + (uint32_t)v[k] * 5u + (uint32_t)w[k]); k++; } while (next(ix, n, nd));
  int jx[2] = {0}; bool ok = true; k = 0; do { const char *p = r.cdata(); for (int i = 0; i < on; i++) p += ss(r)[i].stride * jx[i]; ok &= *(const int32_t *)p == e[k++]; } while (next(jx, o, on)); sym_assert(ok, "two-operand reduction: wrong value"); sym_reach("ok");
}
template <class T> static bool same(T a, T b) { return (a == b) | ((a != a) & (b != b)); }
template <class T> static void typed(int t, int f, int n) {
  T v[3]; sym_make(v, n * sizeof(T), "v"); if (f) for (int i = 0; i < n; i++) sym_assume(v[i] == v[i]); nd::array a = n < 0 ? nd::array() : nd::empty(n, nty[t]), r; memcpy(a.data(), v, n * sizeof(T)); char m[100]; strcpy(m, msg(fname[f], " of ", tn[t])); int e = threw([&] { r = (*fs[f])(a); }); sym_assert(!e, msg(m, " raised")); if (e) return; bool ok = r.get_type() == nty[t]; sym_assert(ok, msg(m, ": result type")); if (!ok) return;
  T w = f == 0 ? (T)0 : v[0]; for (int i = f == 0 ? 0 : 1; i < n; i++) w = f == 0 ? (T)(w + v[i]) : f == 1 ? (v[i] < w ? v[i] : w) : (v[i] > w ? v[i] : w); T g; memcpy(&g, r.cdata(), sizeof g); sym_assert(same(g, w), msg(m, ": wrong value")); sym_reach("ok");
}
SYM_ENTRY(types) { int t = 1 + sym_choice(NT - 1, "type"), f = sym_choice(3, "fun"), n = 1 + sym_choice(3, "n"); switch (t) { case I8: return typed<int8_t>(t, f, n); case I16: return typed<int16_t>(t, f, n); case I32: return typed<int32_t>(t, f, n); case I64: return typed<int64_t>(t, f, n); case U8: return typed<uint8_t>(t, f, n); case U16: return typed<uint16_t>(t, f, n); case U32: return typed<uint32_t>(t, f, n); case U64: return typed<uint64_t>(t, f, n); case F32: return typed<float>(t, f, n); default: return typed<double>(t, f, n); } }
SYM_ENTRY(ragged) {
  int outer = sym_choice(3, "outer"), f = sym_choice(4, "fun"), mode = sym_choice(4, "axes"), rows = outer == 0 ? 1 : 1 + sym_choice(2, "rows"); int len[2]; for (int r = 0; r < rows; r++) len[r] = sym_choice(r ? 3 : 4, "len"); ndt::type e = ndt::make_type<ndt::var_dim_type>(ti), tp = outer == 0 ? e : outer == 1 ? ndt::make_fixed_dim(rows, e) : ndt::make_type<ndt::var_dim_type>(e); nd::array a = nd::empty(tp), r; char *p = a.data(); const char *md = a->metadata(); intptr_t st = 0; int32_t v[2][3];
  if (outer == 1) { st = ((const size_stride_t *)md)->stride; md += sizeof(size_stride_t); } else if (outer == 2) { auto *m = (const ndt::var_dim_type::metadata_type *)md; auto *d = (ndt::var_dim_type::data_type *)p; d->begin = m->blockref->alloc(rows); d->size = rows; memset(d->begin, 0, rows * m->stride); st = m->stride; p = d->begin; md += sizeof(*m); }
  auto *m = (const ndt::var_dim_type::metadata_type *)md; for (int i = 0; i < rows; i++) { auto *d = (ndt::var_dim_type::data_type *)(p + i * st); d->begin = m->blockref->alloc(len[i]); d->size = len[i]; if (len[i]) sym_make(v[i], 4 * len[i], "v"); memcpy(d->begin, v[i], 4 * len[i]); }
  int nd = outer ? 2 : 1; if (nd == 1 && mode > 1) return; int mask = mode == 0 ? (1 << nd) - 1 : mode == 1 ? (1 << (nd - 1)) : mode == 2 ? 1 : 0; char s[80]; strcpy(s, msg(fname[f], outer == 0 ? " of a variable-sized" : outer == 1 ? " of a fixed of variable-sized" : " of a variable of variable-sized", " dimension over axes ", mode == 0 ? "all" : mode == 1 ? "inner" : mode == 2 ? "outer" : "none"));
  int t = threw([&] { r = reduce(*fs[f], &a, 1, nd, mask, mode == 0, 0); }); if (t) { sym_assert(mode > 1 || (mode == 1 && outer == 2) || outer == 2, msg(s, " raised")); return; } // columns of ragged rows and variable-sized results may be refused
  if (mode > 1) { sym_assert(0, msg(s, ": accepted")); return; }
  if (mode == 0 || outer == 0) { bool ok = r.get_type() == ti; sym_assert(ok, msg(s, ": shape")); if (!ok) return; int32_t w = ident(f); for (int i = 0; i < rows; i++) for (int j = 0; j < len[i]; j++) w = comb(f, w, v[i][j]); sym_assert(*(const int32_t *)r.cdata() == w, msg(s, ": wrong value")); sym_reach("ok"); return; }
  if (outer == 2) { sym_assert(r.get_type().get_id() == var_dim_id, msg(s, ": shape")); if (r.get_type().get_id() != var_dim_id) return; } bool sh = outer == 2 || is_shape(r, 1, &rows, ti); sym_assert(sh, msg(s, ": shape")); if (!sh) return; bool ok = true; for (int i = 0; i < rows; i++) { int32_t w = ident(f); for (int j = 0; j < len[i]; j++) w = comb(f, w, v[i][j]); nd::array x = r(i); ok &= *(const int32_t *)x.cdata() == w; } sym_assert(ok, msg(s, ": wrong value")); sym_reach("ok");
}
SYM_ENTRY(bools) {
  int op = sym_choice(2, "op"); if (op == 0) { int nd = 1 + sym_choice(2, "ndim"), n[2] = {sym_choice(4, "n0"), 2}; uint8_t v[8]; int tot = n[0] * (nd > 1 ? 2 : 1); if (tot) sym_make(v, tot, "v"); for (int i = 0; i < tot; i++) sym_assume(v[i] < 2); intptr_t sh[2] = {n[0], n[1]}; nd::array a = nd::empty(ndt::make_type(nd, sh, tb)), r; memcpy(a.data(), v, tot); int t = threw([&] { r = nd::all(a); }); sym_assert(!t, "all raised"); if (t) return; bool w = true; for (int i = 0; i < tot; i++) w &= v[i] != 0; sym_assert(r.get_type() == tb, "all: result type"); sym_assert(*(const uint8_t *)r.cdata() == (uint8_t)w, "all: wrong value"); sym_reach("ok"); return; }
  int nd = 1 + sym_choice(3, "ndim"), n[3] = {1 + sym_choice(3, "n0"), 1 + sym_choice(2, "n1"), 2}, f = sym_choice(3, "fa"), g = sym_choice(3, "fb"); int32_t v[16], w[16]; int tot = n[0] * (nd > 1 ? n[1] : 1) * (nd > 2 ? 2 : 1); sym_make(v, 4 * tot, "v"); sym_make(w, 4 * tot, "w"); nd::array a = source(nd, n, f, v), b = source(nd, n, g, w), r; int t = threw([&] { r = nd::all_equal(a, b); }); sym_assert(!t, "all_equal raised"); if (t) return; bool e = true; for (int i = 0; i < tot; i++) e &= v[i] == w[i]; bool ok = r.get_type() == tb; sym_assert(ok, "all_equal: result type"); if (ok) sym_assert(*(const uint8_t *)r.cdata() == (uint8_t)e, "all_equal: wrong value"); sym_reach("ok");
}
template <class T> static void scalar(int t, int f) { nd::array a = num_val(t, "x"), r; T v; memcpy(&v, a.cdata(), sizeof v); if (f) sym_assume(v == v); int e = threw([&] { r = (*fs[f])(a); }); char m[80]; strcpy(m, msg(fname[f], " of one ", tn[t])); sym_assert(!e, msg(m, " raised")); if (e) return; bool ok = r.get_type() == nty[t]; sym_assert(ok, msg(m, ": result type")); if (!ok) return; T g; memcpy(&g, r.cdata(), sizeof g); sym_assert(same(g, v), msg(m, ": wrong value")); sym_reach("ok"); }
SYM_ENTRY(scalars) { int t = 1 + sym_choice(NT - 1, "type"), f = sym_choice(3, "fun"); switch (t) { case I8: return scalar<int8_t>(t, f); case I16: return scalar<int16_t>(t, f); case I32: return scalar<int32_t>(t, f); case I64: return scalar<int64_t>(t, f); case U8: return scalar<uint8_t>(t, f); case U16: return scalar<uint16_t>(t, f); case U32: return scalar<uint32_t>(t, f); case U64: return scalar<uint64_t>(t, f); case F32: return scalar<float>(t, f); default: return scalar<double>(t, f); } }
