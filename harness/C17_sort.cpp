//@property C17
//@bound arrays of 0 to 5 elements of eleven built-in types with free contents and of strings of up to 2 free bytes, in four layouts (contiguous, reversed, every second, shifted); arrays of 17 to 24 elements in six patterns with one or two free elements; floats with NaN at up to four free places of up to 20
//@bound searches of sorted arrays of 0 to 6 free elements of int32, bool and strings in the same layouts for a free value, and of 10 and 17 (thorough: 100) evenly spaced ones; values of another type
//@entry sort_small reach=ok
//@entry sort_long reach=ok
//@entry sort_nan reach=ok
//@entry sort_strings reach=ok
//@entry sort_refused reach=threw
//@entry search reach=found,missing
//@entry search_long reach=found,missing
//@entry search_strings reach=found,missing
//@entry search_types reach=ok,threw
#include "num.h"
#include <dynd/sort.hpp>
#include <dynd/search.hpp>
typedef intptr_t ip;
static ndt::type ts; static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
static ndt::type fx(const ndt::type &e, int n) { return ndt::make_fixed_dim(n, e); }
static nd::array view(const ndt::type &e, int n, int lay, nd::array &full) { if (lay == 0) return full = nd::empty(fx(e, n)); if (lay == 1) { full = nd::empty(fx(e, n)); return n ? full(irange().by(-1)) : full; } if (lay == 2) { full = nd::empty(fx(e, 2 * n)); return n ? full(irange().by(2)) : full; } full = nd::empty(fx(e, n + 2)); return full(irange(1, n + 1)); }
static char *el(const nd::array &a, ip i) { return (char *)a.cdata() + i * ((const size_stride_t *)a->metadata())->stride; }
static bool lt(int t, const char *a, const char *b) { switch (t) { case F32: return *(float *)a < *(float *)b; case F64: return *(double *)a < *(double *)b; case U64: return *(uint64_t *)a < *(uint64_t *)b; default: return ld<int64_t>(t, a) < ld<int64_t>(t, b); } }
static bool isnan_(int t, const char *a) { return t == F32 ? *(float *)a != *(float *)a : t == F64 ? *(double *)a != *(double *)a : false; }
extern "C" void sym_setup() { num_setup(); ts = T("string"); for (int t = 0; t < NT; t++) { nd::array a = nd::empty(fx(nty[t], 2)); memset(a.data(), 0, 16 < 2 * tsz[t] ? 16 : 2 * tsz[t]); nd::sort(a); } nd::array a = nd::empty(fx(nty[I32], 2)), v = nd::empty(nty[I32]); memset(a.data(), 0, 8); *(int *)v.data() = 0; nd::binary_search(a, v); nd::array s = nd::empty(fx(ts, 1)), w = nd::empty(ts); nd::sort(s); nd::binary_search(s, w); nd::array b = nd::empty(fx(nty[B], 1)), c = nd::empty(nty[B]); *b.data() = *c.data() = 0; nd::binary_search(b, c); }
// a is sorted and holds the values of old
static void check(const nd::array &a, int t, int n, const char *old, bool order = true) {
  int z = tsz[t]; for (int i = 0; order && i + 1 < n; i++) sym_assert(!lt(t, el(a, i + 1), el(a, i)), "sorted elements are out of order");
  bool all = true; for (int i = 0; i < n; i++) { int c = 0, d = 0; for (int j = 0; j < n; j++) { c += !memcmp(el(a, j), old + i * z, z); d += !memcmp(old + j * z, old + i * z, z); } all &= c == d; } sym_assert(all, "sorting loses or repeats an element");
}
SYM_ENTRY(sort_small) {
  int t = sym_choice(NT, "type"), lay = sym_choice(4, "layout"), n = sym_choice(sym_tier() ? 6 : (t == I32 || t == U8) && !lay ? 6 : t >= F32 ? 4 : 4, "size"), z = tsz[t]; nd::array f, a = view(nty[t], n, lay, f); char old[6 * 8]; int total = (lay == 2 ? 2 * n : lay == 3 ? n + 2 : n) * z; memset(f.data(), 0x5a, total); for (int i = 0; i < n; i++) { sym_make(old + i * z, z, "element"); if (t == B) sym_assume((uint8_t)old[i] < 2); sym_assume(!isnan_(t, old + i * z)); memcpy(el(a, i), old + i * z, z); }
  int k = threw([&] { nd::sort(a); }); sym_assert(!k, "sorting raises"); if (k) return; check(a, t, n, old); for (int i = 0; i < n; i++) memset(el(a, i), 0x5a, z); bool same = true; for (int i = 0; i < total; i++) same &= f.cdata()[i] == 0x5a; sym_assert(same, "sorting writes outside the array"); sym_reach("ok");
}
SYM_ENTRY(sort_long) { // long enough for the recursive part of the sort
  int p = sym_choice(6, "pattern"), N = 17 + (sym_tier() ? sym_choice(8, "size") : 3 * sym_choice(3, "size")), at0 = sym_choice(sym_tier() ? N : 4, "place"); if (!sym_tier()) at0 = at0 * (N - 1) / 3; nd::array f, a = view(nty[U8], N, p & 1, f); char old[32]; for (int i = 0; i < N; i++) old[i] = (char)(100 + (p == 0 ? i : p == 1 ? -i : p == 2 ? 0 : p == 3 ? (i * 7) % N : p == 4 ? (i < N / 2 ? i : N - i) : (i & 1))); old[at0] = (char)sym_u8("element"); if (sym_tier()) old[(at0 + 5) % N] = (char)sym_u8("element"); for (int i = 0; i < N; i++) *el(a, i) = old[i];
  int k = threw([&] { nd::sort(a); }); sym_assert(!k, "sorting raises"); if (k) return; check(a, U8, N, old); sym_reach("ok");
}
SYM_ENTRY(sort_nan) { // values which do not compare: nothing is lost and no memory outside the array is touched
  int t = F64, N = sym_choice(2, "long") ? 18 : 3 + sym_choice(2, "size"), p = sym_choice(3, "pattern"), q[3]; nd::array a = nd::empty(fx(nty[t], N)); double v[20]; for (int i = 0; i < N; i++) v[i] = p == 0 ? i : p == 1 ? N - i : (i * 7) % N; int k = 1 + sym_choice(N > 5 && !sym_tier() ? 2 : 3, "how many"); for (int i = 0; i < k; i++) { q[i] = sym_choice(N, "place"); if (i && q[i] <= q[i - 1]) return; v[q[i]] = __builtin_nan(""); } memcpy(a.data(), v, 8 * N);
  int r = threw([&] { nd::sort(a); }); sym_assert(!r, "sorting raises"); if (r) return; check(a, t, N, (const char *)v, false); sym_reach("ok");
}
SYM_ENTRY(sort_strings) {
  int n = sym_choice(sym_tier() ? 4 : 4, "size"), lay = sym_choice(2, "layout"), len[4]; unsigned char b[4][20]; nd::array f, a = view(ts, n, lay, f); static const int L[] = {0, 1, 2, 17}; for (int i = 0; i < n; i++) { len[i] = L[sym_choice(sym_tier() ? 4 : 3, "length")]; if (!sym_tier() && i == 0 && len[0] == 2) len[0] = 17; memset(b[i], 'q', 20); for (int j = 0; j < len[i] && j < 2; j++) b[i][j] = sym_u8("text"); ((dynd::string *)el(a, i))->assign((const char *)b[i], len[i]); }
  int k = threw([&] { nd::sort(a); }); sym_assert(!k, "sorting raises"); if (k) return; auto at_ = [&](int i) { return (const dynd::string *)el(a, i); }; auto less_ = [](const char *x, int p, const char *y, int q) { for (int i = 0; i < p && i < q; i++) if (x[i] != y[i]) return (unsigned char)x[i] < (unsigned char)y[i]; return p < q; };
  for (int i = 0; i + 1 < n; i++) sym_assert(!less_(at_(i + 1)->data(), at_(i + 1)->size(), at_(i)->data(), at_(i)->size()), "sorted strings are out of order"); bool all = true; for (int i = 0; i < n; i++) { int c = 0, d = 0; for (int j = 0; j < n; j++) { c += (int)at_(j)->size() == len[i] && !memcmp(at_(j)->data(), b[i], len[i]); d += len[j] == len[i] && !memcmp(b[j], b[i], len[i]); } all &= c == d; } sym_assert(all, "sorting loses or repeats a string"); sym_reach("ok");
}
SYM_ENTRY(sort_refused) { static const char *const S[] = {"int32", "2 * 2 * int32", "var * int32", "2 * {x: int32}", "2 * complex[float64]", "2 * bytes", "(int32, int32)"}; int w = sym_choice(7, "type"); nd::array a = nd::empty(T(S[w])); if (w != 2 && w != 5) memset(a.data(), 0, w == 4 ? 32 : w == 1 ? 16 : w == 0 ? 4 : 8); sym_assert(threw([&] { nd::sort(a); }), "something else than a dimension of ordered values is sorted"); sym_reach("threw"); }
SYM_ENTRY(search) {
  int bl = sym_choice(2, "type"), t = bl ? B : I32, lay = sym_choice(4, "layout"), n = sym_choice(sym_tier() ? 7 : 6, "size"); nd::array f, a = view(nty[t], n, lay, f), v = num_val(t, "value"), r; for (int i = 0; i < n; i++) { sym_make(el(a, i), tsz[t], "element"); if (bl) sym_assume(*(uint8_t *)el(a, i) < 2); if (i) sym_assume(!lt(t, el(a, i), el(a, i - 1))); }
  int k = threw([&] { r = nd::binary_search(a, v); }); sym_assert(!k, "searching raises"); if (k) return; ip g = *(const ip *)r.cdata(); bool any = false; for (int i = 0; i < n; i++) any |= !memcmp(el(a, i), v.cdata(), tsz[t]); sym_assert((g >= 0) == any, any ? "an element which is there is not found" : "an element which is not there is found"); if (g < 0) { sym_assert(g == -1, "position of a missing element"); sym_reach("missing"); return; } sym_assert(g < n, "the found position is outside the array"); if (g >= n) return; g = (ip)sym_concretize((uint64_t)g); sym_assert(!memcmp(el(a, g), v.cdata(), tsz[t]), "the found element is another one"); sym_reach("found");
}
SYM_ENTRY(search_long) { // many halvings: elements base + 3i, the base and the value free
  static const int N[] = {10, 17, 40, 100}; int n = N[sym_choice(sym_tier() ? 4 : 2, "size")], lay = sym_choice(4, "layout"), t = I32; nd::array f, a = view(nty[t], n, lay, f), v = num_val(t, "value"), r; int64_t base = (int16_t)sym_u32("base"), w = ld<int64_t>(t, v.cdata()); for (int i = 0; i < n; i++) { int64_t x = base + 3 * i; memcpy(el(a, i), &x, tsz[t]); }
  int k = threw([&] { r = nd::binary_search(a, v); }); sym_assert(!k, "searching raises"); if (k) return; ip g = (ip)sym_concretize(*(const uint64_t *)r.cdata()); if (g < 0) { bool any = false; for (int i = 0; i < n; i++) any |= w == base + 3 * i; sym_assert(g == -1 && !any, "an element which is there is not found"); sym_reach("missing"); return; } sym_assert(g < n && w == base + 3 * g, "the found element is another one"); sym_reach("found");
}
SYM_ENTRY(search_strings) {
  int n = sym_choice(4, "size"), l[4], m = sym_choice(3, "length"); unsigned char b[4][4], w[4]; nd::array a = nd::empty(fx(ts, n)), v = nd::empty(ts), r; for (int i = 0; i < n; i++) { l[i] = sym_choice(3, "length"); for (int j = 0; j < l[i]; j++) b[i][j] = sym_u8("text"); ((dynd::string *)el(a, i))->assign((const char *)b[i], l[i]); if (i) { bool g = l[i - 1] > l[i]; for (int j = l[i] < l[i - 1] ? l[i] : l[i - 1]; j-- > 0;) g = (b[i - 1][j] > b[i][j]) | ((b[i - 1][j] == b[i][j]) & g); sym_assume(!g); } } for (int j = 0; j < m; j++) w[j] = sym_u8("value"); ((dynd::string *)v.data())->assign((const char *)w, m);
  int k = threw([&] { r = nd::binary_search(a, v); }); sym_assert(!k, "searching raises"); if (k) return; ip g = *(const ip *)r.cdata(); bool any = false; for (int i = 0; i < n; i++) any |= l[i] == m && !memcmp(b[i], w, m); sym_assert((g >= 0) == any && g < n && g >= -1, "a string is found exactly when it is there"); if (g < 0 || g >= n) { sym_reach("missing"); return; } sym_assert(l[g] == m && !memcmp(b[g], w, m), "the found string is another one"); sym_reach("found");
}
SYM_ENTRY(search_types) { // a value of another type is refused or converted, never read as something else
  int at_ = sym_choice(3, "elements"), t = sym_choice(NT + 1, "value"), n = 3; nd::array a = nd::empty(fx(at_ == 0 ? nty[I32] : at_ == 1 ? nty[B] : ts, n)), v, r; int e[3] = {-5, 0, 7}; if (at_ == 0) memcpy(a.data(), e, 12); if (at_ == 1) { a.data()[0] = 0; a.data()[1] = a.data()[2] = 1; } if (at_ == 2) for (int i = 0; i < 3; i++) ((dynd::string *)el(a, i))->assign("abc" + i, 1); if (t < NT) v = num_val(t, "value"); else { v = nd::empty(ts); ((dynd::string *)v.data())->assign("b", 1); }
  int k = threw([&] { r = nd::binary_search(a, v); }); if (k) { sym_assert(!(at_ == 0 ? t == I32 : at_ == 1 ? t == B : t == NT), "searching raises"); sym_reach("threw"); return; } ip g = *(const ip *)r.cdata(); bool ok; if (t == NT || at_ == 2) ok = t == NT && at_ == 2 && g == 1; else { double d = ld<double>(t, v.cdata()); if (at_ == 0) ok = g == (d == -5 ? 0 : d == 0 ? 1 : d == 7 ? 2 : -1); else ok = d == 0 ? g == 0 : d == 1 ? g == 1 || g == 2 : g == -1; if (t == I64 || t == U64) ok = at_ == 0 ? (g == -1 || (g >= 0 && g < 3 && ld<int64_t>(t, v.cdata()) == e[g])) && (t == U64 || g != -1 || (ld<int64_t>(t, v.cdata()) != -5 && ld<int64_t>(t, v.cdata()) != 0 && ld<int64_t>(t, v.cdata()) != 7)) : true; } sym_assert(ok, "a value of another type is searched as something else"); sym_reach("ok");
}
