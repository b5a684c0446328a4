//@property C16
//@bound haystacks of every length up to 5 (thorough 7) and needles of every length from 1 to 3 (thorough 4) with every byte content; haystacks of 11 (thorough 11 to 16) bytes over repeating patterns with 3 (thorough 4) free bytes at several places; replacement texts of 0 to 4 bytes; prefix, suffix and concatenation up to 18 bytes; the callables also on arrays of two strings
//@assume an empty needle is only required to terminate safely and to leave replaced text unchanged
//@entry search reach=found,none
//@entry search_long reach=found,none
//@entry replace reach=changed,same
//@entry replace_long reach=changed,same
//@entry ends reach=t,f
//@entry concat reach=ok
//@entry split reach=ok
//@entry callables reach=ok
#include "common.h"
#include <dynd/string.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef dynd::string S;
static ndt::type tstr, tint, tbool;
extern "C" void sym_setup() { tstr = ndt::make_type<S>(); tint = ndt::make_type<intptr_t>(); tbool = ndt::make_type<bool1>(); }
struct R { unsigned char d[80]; int n; };
static bool at_(const R &h, int i, const R &p) { bool e = true; for (int j = 0; j < p.n; j++) e &= h.d[i + j] == p.d[j]; return e; }
static S mk(const R &r) { return S((const char *)r.d, r.n); }
static void same(const S &s, const R &r, const char *m) { bool sz = s.size() == (size_t)r.n; sym_assert(sz, msg(m, ": wrong size")); if (sz) { unsigned char d = 0; for (int i = 0; i < r.n; i++) d |= (unsigned char)s.begin()[i] ^ r.d[i]; sym_assert(d == 0, msg(m, ": wrong text")); } }
static void searches(const R &h, const R &p) {
  S a = mk(h), b = mk(p); int first = -1, last = -1, count = 0; bool any = false;
  for (int i = h.n - p.n; i >= 0; i--) { bool e = at_(h, i, p); first = e ? i : first; any |= e; } for (int i = 0; i + p.n <= h.n; i++) last = at_(h, i, p) ? i : last;
  for (int i = 0, next = 0; i + p.n <= h.n; i++) { bool e = at_(h, i, p) & (i >= next); count += e; next = e ? i + p.n : next; }
  sym_assert(dynd::string_find(a, b) == first, "find: wrong position"); sym_assert(dynd::string_rfind(a, b) == last, "rfind: wrong position"); sym_assert(dynd::string_count(a, b) == count, "count: wrong number"); sym_assert(dynd::string_contains(a, b) == any, "contains: wrong answer");
  if (any) sym_reach("found"); else sym_reach("none");
}
SYM_ENTRY(search) {
  R h, p; h.n = sym_choice(sym_tier() ? 8 : 6, "n"); p.n = 1 + sym_choice(sym_tier() ? 4 : 3, "m"); if (h.n) sym_make(h.d, h.n, "h"); sym_make(p.d, p.n, "p"); searches(h, p);
}
static void longtext(R &h, R &p) { // a haystack of 11..16 bytes over a repeating pattern with four free bytes
  static const char *const base[] = {"abcabcabcabcabca", "aaaaaaaaaaaaaaaa", "abababababababab", "xyzxyxyzxyxyzxyx"}; int T = sym_tier(), k = sym_choice(T ? 4 : 3, "base"), m = sym_choice(T ? 4 : 3, "m"); h.n = T ? 11 + sym_choice(6, "n") : 11; p.n = T ? (m == 3 ? 5 : 1 + m) : m == 0 ? 1 : m == 1 ? 3 : 5; memcpy(h.d, base[k], 16); memcpy(p.d, base[k], 5); int w = sym_choice(T ? 3 : 2, "where"), o = w == 0 ? 0 : w == 1 ? h.n - 4 : 4; sym_make(h.d + o, T ? 4 : 3, "h"); if (p.n == 1) sym_make(p.d, 1, "p"); else sym_make(p.d + p.n - 1, 1, "p"); }
SYM_ENTRY(search_long) { R h, p; longtext(h, p); searches(h, p); }
static void replaced(const R &h, const R &p, const R &q) {
  S a = mk(h), b = mk(p), c = mk(q), d("previous contents"); if (sym_choice(2, "dst")) d = S(); R w; w.n = 0; bool any = false;
  for (int i = 0; i < h.n;) if (p.n && i + p.n <= h.n && sym_fork(at_(h, i, p))) { memcpy(w.d + w.n, q.d, q.n); w.n += q.n; i += p.n; any = true; } else w.d[w.n++] = h.d[i++];
  dynd::string_replace(d, a, b, c); same(d, w, "replace"); same(a, h, "replace: source"); if (any) sym_reach("changed"); else sym_reach("same");
}
SYM_ENTRY(replace) { R h, p, q; h.n = sym_choice(5, "n"); p.n = sym_choice(4, "m"); q.n = sym_choice(4, "q"); if (h.n) sym_make(h.d, h.n, "h"); if (p.n) sym_make(p.d, p.n, "p"); if (q.n) sym_make(q.d, q.n, "q"); replaced(h, p, q); }
SYM_ENTRY(replace_long) { R h, p, q; longtext(h, p); q.n = sym_choice(4, "q"); if (q.n) sym_make(q.d, q.n, "q"); replaced(h, p, q); }
SYM_ENTRY(ends) {
  static const int len[] = {0, 1, 2, 4, 14, 15, 16, 18}; R h, p; h.n = len[sym_choice(8, "n")]; p.n = len[sym_choice(8, "m")]; for (int i = 0; i < 18; i++) h.d[i] = p.d[i] = 'a' + i % 3; if (h.n) { sym_make(h.d, h.n < 2 ? h.n : 2, "h0"); sym_make(h.d + h.n - 1, 1, "h1"); } if (p.n) { sym_make(p.d, p.n < 2 ? p.n : 2, "p0"); sym_make(p.d + p.n - 1, 1, "p1"); }
  S a = mk(h), b = mk(p); bool s = p.n <= h.n && at_(h, 0, p), e = p.n <= h.n && at_(h, h.n - p.n, p); sym_assert(dynd::string_startswith(a, b) == s, "startswith: wrong answer"); sym_assert(dynd::string_endswith(a, b) == e, "endswith: wrong answer"); if (s) sym_reach("t"); else sym_reach("f");
}
SYM_ENTRY(concat) {
  static const int len[] = {0, 1, 7, 8, 14, 15, 18}; R x[3]; S s[3]; for (int i = 0; i < 3; i++) { x[i].n = len[sym_choice(i == 2 ? 3 : 7, "n")]; if (x[i].n) sym_make(x[i].d, x[i].n, "x"); s[i] = mk(x[i]); }
  const S *ps[3] = {&s[0], &s[1], &s[2]}; R w; w.n = 0; for (int k = 0; k <= 3; k++) { S d("previous text longer than inline"), e("prev"); dynd::string_concat(k, d, ps); dynd::string_concat(k, e, ps); same(d, w, "concat"); same(e, w, "concat"); if (k < 3) { memcpy(w.d + w.n, x[k].d, x[k].n); w.n += x[k].n; } }
  nd::array a = nd::empty(tstr), b = nd::empty(tstr); *(S *)a.data() = s[0]; *(S *)b.data() = s[1]; nd::array r = nd::string_concatenation(a, b); sym_assert(r.get_type() == tstr, "concat: result type"); w.n = 0; for (int k = 0; k < 2; k++) { memcpy(w.d + w.n, x[k].d, x[k].n); w.n += x[k].n; } same(*(S *)r.data(), w, "string_concatenation"); sym_reach("ok");
}
SYM_ENTRY(split) {
  R h, p; h.n = sym_choice(6, "n"); p.n = 1 + sym_choice(2, "m"); if (h.n) sym_make(h.d, h.n, "h"); sym_make(p.d, p.n, "p"); R w[8]; int k = 0; w[0].n = 0;
  for (int i = 0; i < h.n;) if (i + p.n <= h.n && sym_fork(at_(h, i, p))) { w[++k].n = 0; i += p.n; } else w[k].d[w[k].n++] = h.d[i++];
  nd::array a = nd::empty(tstr), b = nd::empty(tstr); *(S *)a.data() = mk(h); *(S *)b.data() = mk(p); nd::array r = nd::string_split(a, b); bool ok = r.get_ndim() == 1 && r.get_dtype() == tstr; sym_assert(ok, "split: result type"); const ndt::var_dim_type::data_type *v = (const ndt::var_dim_type::data_type *)r.cdata();
  ok = v->size == (size_t)(k + 1); sym_assert(ok, "split: wrong number of pieces"); if (ok) for (int i = 0; i <= k; i++) same(((const S *)v->begin)[i], w[i], "split"); sym_reach("ok");
}
SYM_ENTRY(callables) { // elementwise over arrays: two texts against one needle
  R h[2], p, q; int f = sym_choice(8, "f"); h[0].n = 3; h[1].n = 2; p.n = 1 + (f == 3); q.n = 2; sym_make(h[0].d, 3, "h0"); sym_make(h[1].d, 2, "h1"); sym_make(p.d, p.n, "p"); sym_make(q.d, 2, "q"); nd::array a = nd::empty(ndt::make_fixed_dim(2, tstr)), b = nd::empty(tstr), c = nd::empty(tstr), r; for (int i = 0; i < 2; i++) ((S *)a.data())[i] = mk(h[i]); *(S *)b.data() = mk(p); *(S *)c.data() = mk(q);
  static const char *const fn[] = {"string_find", "string_rfind", "string_count", "string_replace", "string_startswith", "string_endswith", "string_contains", "string_concatenation"};
  switch (f) { case 0: r = nd::string_find(a, b); break; case 1: r = nd::string_rfind(a, b); break; case 2: r = nd::string_count(a, b); break; case 3: r = nd::string_replace(a, b, c); break; case 4: r = nd::string_startswith(a, b); break; case 5: r = nd::string_endswith(a, b); break; case 6: r = nd::string_contains(a, b); break; default: r = nd::string_concatenation(a, b); }
  bool ok = r.get_ndim() == 1 && r.get_dim_size() == 2 && r.get_dtype() == (f == 3 || f == 7 ? tstr : f < 3 ? tint : tbool); sym_assert(ok, msg(fn[f], ": result type")); if (!ok) return;
  for (int i = 0; i < 2; i++) { const char *g = r.cdata() + i * r.get_dtype().get_data_size(); int n = h[i].n, first = -1, last = -1, count = 0; for (int j = 0; j < n; j++) { bool e = j + p.n <= n && at_(h[i], j, p); count += e; last = e ? j : last; first = e & (first < 0) ? j : first; }
    switch (f) { case 0: sym_assert(*(intptr_t *)g == first, "string_find: wrong element"); break; case 1: sym_assert(*(intptr_t *)g == last, "string_rfind: wrong element"); break; case 2: sym_assert(*(intptr_t *)g == count, "string_count: wrong element"); break;
    case 3: { S d; dynd::string_replace(d, mk(h[i]), mk(p), mk(q)); sym_assert(d == *(S *)g, "string_replace: wrong element"); break; } case 4: sym_assert(*(uint8_t *)g == (uint8_t)(h[i].d[0] == p.d[0]), "string_startswith: wrong element"); break; case 5: sym_assert(*(uint8_t *)g == (uint8_t)(h[i].d[n - 1] == p.d[0]), "string_endswith: wrong element"); break; case 6: sym_assert(*(uint8_t *)g == (uint8_t)(count > 0), "string_contains: wrong element"); break;
    default: { R w = h[i]; w.d[w.n++] = p.d[0]; same(*(S *)g, w, "string_concatenation of arrays"); } } }
  sym_reach("ok");
}
