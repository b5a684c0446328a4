//@property C39
//@bound sources of 0 to 4 elements (int32, uint8, int64, rows of two int16, records of int8 and float64, strings) with free contents, contiguous, reversed, every second or a shifted part of a larger array, or a variable-sized dimension of 3; index arrays of 0 to 3 values, each any 64-bit integer, in fixed dimensions of the same layouts
//@bound masks of 0 to 5 booleans, each free, of the same layouts; masks of another size; index arrays of nine other element types; destinations given for the indexed form
//@entry by_index reach=ok,threw
//@entry by_index_dst reach=ok,threw
//@entry by_mask reach=ok
//@entry mask_size reach=threw
//@entry refused reach=threw
//@entry strings reach=ok
#include "num.h"
#include <dynd/index.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef intptr_t ip;
enum { E32, E8, E64, ER, ES, NE };
static const int esz[NE] = {4, 1, 8, 4, 16};
static ndt::type et[NE], ti64, tb, ts; static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
static ndt::type fx(const ndt::type &e, int n) { return ndt::make_fixed_dim(n, e); }
// n elements of type e in one of four layouts; `full` keeps the memory
static nd::array view(const ndt::type &e, int n, int lay, nd::array &full) { if (lay == 0) return full = nd::empty(fx(e, n)); if (lay == 1) { full = nd::empty(fx(e, n)); return n ? full(irange().by(-1)) : full; } if (lay == 2) { full = nd::empty(fx(e, 2 * n)); return n ? full(irange().by(2)) : full; } full = nd::empty(fx(e, n + 2)); return full(irange(1, n + 1)); }
static char *el(const nd::array &a, ip i) { return (char *)a.cdata() + i * ((const size_stride_t *)a->metadata())->stride; }
extern "C" void sym_setup() {
  num_setup(); ti64 = nty[I64]; tb = nty[B]; ts = T("string"); et[E32] = nty[I32]; et[E8] = nty[U8]; et[E64] = nty[I64]; et[ER] = T("2 * int16"); et[ES] = T("{x: int8, y: float64}");
  for (int i = 0; i < NE; i++) { nd::array a = nd::empty(fx(et[i], 2)), x = nd::empty(fx(ti64, 1)), m = nd::empty(fx(tb, 2)); memset(a.data(), 0, 2 * esz[i]); memset(x.data(), 0, 8); memset(m.data(), 1, 2); nd::take(a, x); nd::take(a, m); }
}
// Free contents of element i; a record has padding which is not copied
static void fill(char *p, int e, unsigned char *b) { sym_make(b, 16, "element"); if (e == ES) { p[0] = b[0]; memcpy(p + 8, b + 8, 8); } else memcpy(p, b, esz[e]); }
static bool has(const char *p, int e, const unsigned char *b) { return e == ES ? p[0] == (char)b[0] && !memcmp(p + 8, b + 8, 8) : !memcmp(p, b, esz[e]); }
static int pick_n(const char *w, int k) { return sym_choice(k + 1, w); }
SYM_ENTRY(by_index) {
  int e = sym_choice(NE, "element type"), lay = sym_choice(4, "layout"), xl = e == E32 && (!lay || sym_tier()) ? sym_choice(4, "index layout") : 0, n = pick_n("size", e == E32 ? 4 : 3), k = pick_n("indices", sym_tier() || (e == E32 && !xl && !lay) ? 3 : 2); unsigned char b[4][16]; nd::array full, xf, a = view(et[e], n, lay, full), x = view(ti64, k, xl, xf), r; for (int i = 0; i < n; i++) fill(el(a, i), e, b[i]);
  int64_t ix[3]; bool bad = false; for (int i = 0; i < k; i++) { ix[i] = (int64_t)sym_u64("index"); memcpy(el(x, i), &ix[i], 8); bad |= (ix[i] >= n) | (ix[i] < -(int64_t)n); }
  int t = threw([&] { r = nd::take(a, x); }); sym_assert(t == bad, t ? "a position within the array is refused" : "a position outside the array is accepted"); if (t || bad) { sym_reach("threw"); return; }
  sym_assert(r.get_type() == fx(et[e], k), "type of the result"); for (int i = 0; i < k; i++) { int64_t j = ix[i] + (ix[i] < 0 ? n : 0); bool ok = false; for (int m = 0; m < n; m++) ok |= (j == m) & has(el(r, i), e, b[m]); sym_assert(ok, "an element taken by position is another one"); } for (int i = 0; i < n; i++) sym_assert(has(el(a, i), e, b[i]), "taking elements changes the source"); sym_reach("ok");
}
SYM_ENTRY(by_index_dst) {
  int e = sym_choice(2, "element type"), dl = sym_choice(4, "destination layout"), n = 1 + sym_choice(3, "size"), k = sym_choice(3, "indices"), dn = sym_choice(4, "destination size"), dt = sym_choice(3, "destination type"); unsigned char b[4][16]; nd::array full, xf, df, a = view(et[e], n, 0, full), x = view(ti64, k, 0, xf), d = view(dt == 0 ? et[e] : dt == 1 ? et[E64] : tb, dn, dl, df); for (int i = 0; i < n; i++) fill(el(a, i), e, b[i]); size_t total = (dl == 2 ? 2 * dn : dl == 3 ? dn + 2 : dn) * (dt == 0 ? esz[e] : dt == 1 ? 8 : 1); memset(df.data(), 0x5a, total);
  int64_t ix[3]; bool out = false; for (int i = 0; i < k; i++) { ix[i] = (int64_t)sym_u64("index"); memcpy(el(x, i), &ix[i], 8); out |= (ix[i] >= n) | (ix[i] < -(int64_t)n); } bool fits = dn == k && dt == 0;
  int t = threw([&] { nd::take({a, x}, {{"dst", d}}); }); sym_assert(t == (out | !fits), t ? "a destination which fits is refused" : "a destination which does not fit is accepted"); if (t || out || !fits) { if (!fits) { bool same = true; for (size_t i = 0; i < total; i++) same &= df.cdata()[i] == 0x5a; sym_assert(same, "a refused destination changed"); } sym_reach("threw"); return; }
  int touched = 0; for (int i = 0; i < k; i++) { int64_t j = ix[i] + (ix[i] < 0 ? n : 0); bool ok = false; for (int m = 0; m < n; m++) ok |= (j == m) & has(el(d, i), e, b[m]); sym_assert(ok, "an element of the destination is another one"); memset(el(d, i), 0x5a, esz[e]); } bool same = true; for (size_t i = 0; i < total; i++) same &= df.cdata()[i] == 0x5a; sym_assert(same, "memory outside the destination changed"); (void)touched; sym_reach("ok");
}
SYM_ENTRY(by_mask) {
  int e = sym_choice(NE, "element type"), lay = sym_choice(4, "layout"), ml = e == E32 ? sym_choice(4, "mask layout") : 0, n = pick_n("size", e == E32 && !ml ? (sym_tier() ? 5 : 4) : 3); unsigned char b[5][16]; bool m[5]; nd::array full, mf, a = view(et[e], n, lay, full), x = view(tb, n, ml, mf), r; int want = 0; for (int i = 0; i < n; i++) { fill(el(a, i), e, b[i]); m[i] = sym_u8("mask") & 1; *el(x, i) = m[i]; }
  int t = threw([&] { r = nd::take(a, x); }); sym_assert(!t, "taking by a mask raises"); if (t) return; sym_assert(r.get_type() == ndt::make_type<ndt::var_dim_type>(et[e]), "type of the result"); auto *v = (const ndt::var_dim_type::data_type *)r.cdata(); ip st = ((const ndt::var_dim_type::metadata_type *)r->metadata())->stride; for (int i = 0; i < n; i++) want += m[i];
  sym_assert((int)v->size == want, "number of elements taken by a mask"); if ((int)v->size > n) return; int size = (int)sym_concretize(v->size); for (int i = 0, k = 0; i < n; i++) if (sym_fork(m[i])) { if (k < size) sym_assert(has(v->begin + k * st, e, b[i]), "an element taken by a mask is another one"); k++; } for (int i = 0; i < n; i++) sym_assert(has(el(a, i), e, b[i]), "taking elements changes the source"); sym_reach("ok");
}
SYM_ENTRY(mask_size) { int n = pick_n("size", 4), k = pick_n("mask size", 5), e = sym_choice(2, "element type"); if (n == k) return; nd::array f, g, a = view(et[e], n, 0, f), x = view(tb, k, 0, g); if (n) memset(a.data(), 1, n * esz[e]); for (int i = 0; i < k; i++) *el(x, i) = sym_u8("mask") & 1; sym_assert(threw([&] { nd::take(a, x); }), "a mask of another size is accepted"); sym_reach("threw"); }
SYM_ENTRY(refused) { // wrong kinds of arguments
  static const char *const S[] = {"3 * int8", "3 * int16", "3 * int32", "3 * uint64", "3 * float64", "3 * string", "3 * ?bool", "int64", "bool", "3 * 2 * bool"}; int w = sym_choice(12, "case"); nd::array a = nd::empty(T("3 * int32")), x; memset(a.data(), 0, 12); if (w < 10) { x = nd::empty(T(S[w])); if (w != 5) memset(x.data(), 0, w == 7 ? 8 : w == 8 ? 1 : w == 9 ? 6 : w == 0 || w == 6 ? 3 : w == 1 ? 6 : w == 2 ? 12 : 24); } else if (w == 10) { x = nd::empty(T("3 * bool")); memset(x.data(), 0, 3); a = nd::empty(nty[I32]); } else { x = nd::empty(T("1 * int64")); memset(x.data(), 0, 8); a = nd::empty(nty[I32]); }
  sym_assert(threw([&] { nd::take(a, x); }), "an index which is neither positions nor a mask is accepted"); sym_reach("threw");
}
SYM_ENTRY(strings) { // strings are copied into memory of the result
  int by = sym_choice(2, "by"), n = 1 + sym_choice(sym_tier() || by ? 3 : 2, "size"), rev = sym_choice(2, "layout"), len[3]; unsigned char b[3][20]; static const int L[] = {0, 3, 18}; nd::array f, a = view(ts, n, rev, f), r; for (int i = 0; i < n; i++) { len[i] = L[sym_choice(3, "length")]; sym_make(b[i], 20, "text"); for (int j = 0; j < len[i]; j++) sym_assume(b[i][j] >= 1 && b[i][j] < 0x80); ((dynd::string *)el(a, i))->assign((const char *)b[i], len[i]); }
  nd::array g, x = view(by ? tb : ti64, n, 0, g); bool m[3]; int64_t ix[3]; for (int i = 0; i < n; i++) { if (by) { m[i] = sym_choice(2, "mask"); *el(x, i) = m[i]; } else { ix[i] = sym_choice(2 * n, "index") - n; memcpy(el(x, i), &ix[i], 8); } }
  int t = threw([&] { r = nd::take(a, x); }); sym_assert(!t, "taking strings raises"); if (t) return; for (int i = 0; i < n; i++) ((dynd::string *)el(a, i))->assign("?", 1); a = f = nd::array(); const char *p; ip st; int k = 0; if (by) { auto *v = (const ndt::var_dim_type::data_type *)r.cdata(); p = v->begin; st = ((const ndt::var_dim_type::metadata_type *)r->metadata())->stride; for (int i = 0; i < n; i++) k += m[i]; sym_assert((int)v->size == k, "number of strings taken"); if ((int)v->size != k) return; } else { p = r.cdata(); st = ((const size_stride_t *)r->metadata())->stride; }
  k = 0; for (int i = 0; i < n; i++) { int j = by ? i : ix[i] < 0 ? (int)ix[i] + n : (int)ix[i]; if (by && !m[i]) continue; auto *s = (const dynd::string *)(p + k++ * st); sym_assert((int)s->size() == len[j] && !memcmp(s->data(), b[j], len[j]), "a string taken is another one"); } sym_reach("ok");
}
