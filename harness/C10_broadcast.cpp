//@property C10
//@bound every pair of destination and source shapes of up to two dimensions (thorough: three for one side) whose dimensions are fixed of size 0 to 3 or variable-sized of size 1 or 2 (thorough: 0 to 3) (an unset variable-sized destination too), every element value; sums of two operands of every such pair of shapes; every 64-bit dimension size and stride in the shape functions
//@bound one shape shared by up to four arrays of fixed sizes 0 to 3 or with rows of varying size
//@assume a size mismatch below a dimension of size zero may be reported or not
//@assume assignment of ragged arrays is covered with two rows
//@entry assign reach=ok,threw
//@entry assign_ragged reach=ok,threw
//@entry elwise reach=ok,threw
//@entry elwise3 reach=ok,threw
//@entry shapes reach=ok,threw
//@entry shared reach=ok,threw
#include "common.h"
#include <dynd/arithmetic.hpp>
#include <dynd/shape_tools.hpp>
#include <dynd/types/var_dim_type.hpp>
static ndt::type ti;
enum { U = 9 }; // an unset variable-sized dimension
struct Dim { int n; bool var; };
struct Shape { int nd; Dim d[4]; };
static ndt::type type_of(const Shape &s) { ndt::type t = ti; for (int i = s.nd; i-- > 0;) t = s.d[i].var ? ndt::make_type<ndt::var_dim_type>(t) : ndt::make_fixed_dim(s.d[i].n, t); return t; }
struct Cell { int32_t v; bool set; };
// Fills the array in order from f, allocating variable-sized dimensions; unset ones stay unset.
template <class F> static void fill(const Shape &s, int k, const char *md, char *p, F &f) {
  if (k == s.nd) { *(int32_t *)p = f(); return; }
  if (!s.d[k].var) { const size_stride_t *m = (const size_stride_t *)md; for (int i = 0; i < s.d[k].n; i++) fill(s, k + 1, md + sizeof(size_stride_t), p + i * m->stride, f); return; }
  const ndt::var_dim_type::metadata_type *m = (const ndt::var_dim_type::metadata_type *)md; ndt::var_dim_type::data_type *v = (ndt::var_dim_type::data_type *)p; if (s.d[k].n == U) return;
  v->begin = m->blockref->alloc(s.d[k].n); v->size = s.d[k].n; for (int i = 0; i < s.d[k].n; i++) fill(s, k + 1, md + sizeof(*m), v->begin + i * m->stride, f);
}
// Reads element ix[] of the array with type t; sets ok to false when the shape does not contain it.
static bool dims(const ndt::type &t, const char *md, const char *p, const int *want, int nd, int k) { // whole shape check
  if (k == nd) return t.get_ndim() == 0;
  intptr_t n, stride; const char *q = p, *cm;
  if (t.get_id() == fixed_dim_id) { n = ((const size_stride_t *)md)->dim_size; stride = ((const size_stride_t *)md)->stride; cm = md + sizeof(size_stride_t); }
  else if (t.get_id() == var_dim_id) { const ndt::var_dim_type::metadata_type *m = (const ndt::var_dim_type::metadata_type *)md; const ndt::var_dim_type::data_type *v = (const ndt::var_dim_type::data_type *)p; n = v->size; stride = m->stride; q = v->begin + m->offset; cm = md + sizeof(*m); }
  else return false;
  if (n != want[k]) return false; ndt::type e = t.extended<ndt::base_dim_type>()->get_element_type(); for (intptr_t i = 0; i < n; i++) if (!dims(e, cm, q + i * stride, want, nd, k + 1)) return false; return true;
}
static int32_t elem(ndt::type t, const char *md, const char *p, const int *ix) {
  for (; t.get_ndim(); ix++) if (t.get_id() == fixed_dim_id) { const size_stride_t *m = (const size_stride_t *)md; p += *ix * m->stride; md += sizeof(*m); t = t.extended<ndt::base_dim_type>()->get_element_type(); } else { const ndt::var_dim_type::metadata_type *m = (const ndt::var_dim_type::metadata_type *)md; p = ((const ndt::var_dim_type::data_type *)p)->begin + m->offset + *ix * m->stride; md += sizeof(*m); t = t.extended<ndt::base_dim_type>()->get_element_type(); }
  return *(const int32_t *)p;
}
extern "C" void sym_setup() { ti = ndt::make_type<int32_t>(); for (int i = 0; i < 2; i++) { Shape s = {2, {{2, i == 0}, {2, i == 1}}}, f = {2, {{2, false}, {2, false}}}; nd::array a = nd::empty(type_of(s)), b = nd::empty(type_of(f)), c = nd::empty(type_of(s)); int k = 0; auto g = [&] { return k++; }; fill(s, 0, a->metadata(), a.data(), g); fill(f, 0, b->metadata(), b.data(), g); b.assign(a); c.assign(b); nd::add(a, b); nd::add(a, c); } }
static Shape pick(const char *nm, int maxnd, bool unset) { // thorough adds variable-sized dimensions of size 0 and 3
  static const Dim q[] = {{1, false}, {2, false}, {3, false}, {1, true}, {2, true}, {0, false}, {0, true}, {3, true}}; int nk = sym_tier() ? 8 : 6;
  Shape s; s.nd = sym_choice(maxnd + 1, nm); for (int i = 0; i < s.nd; i++) { int k = sym_choice(unset ? nk + 1 : nk, "dim"); s.d[i] = k < nk ? q[k] : Dim{U, true}; } return s; }
static int count(const Shape &s) { int n = 1; for (int i = 0; i < s.nd; i++) n *= s.d[i].n == U ? 0 : s.d[i].n; return n; }
static nd::array build(const Shape &s, int32_t *vals, const char *nm) { nd::array a = nd::empty(type_of(s)); int n = count(s); if (n) sym_make(vals, 4 * n, nm); int k = 0; auto f = [&] { return vals[k++]; }; fill(s, 0, a->metadata(), a.data(), f); return a; }
static int flat(const Shape &s, const int *ix, int nd) { int r = 0; for (int i = 0; i < s.nd; i++) { int n = s.d[i].n, x = n == 1 ? 0 : ix[nd - s.nd + i]; r = r * n + x; } return r; }
static bool next(int *ix, const int *n, int nd) { for (int i = nd; i-- > 0;) { if (++ix[i] < n[i]) return true; ix[i] = 0; } return false; }
static const char *sname(const Shape &s) { static char b[2][60]; static int w; char *p = b[w ^= 1]; char *q = p; for (int i = 0; i < s.nd; i++) { if (s.d[i].var) *q++ = 'v'; *q++ = s.d[i].n == U ? 'u' : '0' + s.d[i].n; *q++ = ' '; } *q++ = '.'; *q = 0; return p; }
SYM_ENTRY(assign) {
  Shape d = pick("dst", 2, true), s = pick("src", 2, false); if (sym_tier() && s.nd == 2 && sym_choice(2, "deeper")) { s.d[2] = s.d[1]; s.d[1] = s.d[0]; s.nd = 3; s.d[0] = Dim{1 + sym_choice(2, "n"), sym_choice(2, "var") == 1}; if (d.nd == 2) { d.d[2] = d.d[1]; d.d[1] = d.d[0]; d.d[0] = Dim{2, sym_choice(2, "var") == 1}; d.nd = 3; } }
  for (int i = 1; i < d.nd; i++) if (d.d[i - 1].n == U && d.d[i].var) { if (d.d[i].n != U) return; } // rows of an unset dimension are unset
  int32_t dv[64], sv[64]; nd::array a = build(d, dv, "d"), b = build(s, sv, "s"); char m[160]; strcpy(m, msg("assigning ", sname(s), " to ", sname(d)));
  bool bad = s.nd > d.nd, loose = false; int n[4]; bool zero = false;
  for (int i = 0; i < d.nd; i++) { int k = i - (d.nd - s.nd), sn = k >= 0 && s.nd <= d.nd ? s.d[k].n : 1; n[i] = d.d[i].n == U ? sn : d.d[i].n; if (sn != 1 && sn != n[i]) { if (zero) loose = true; else bad = true; } if (n[i] == 0) zero = true; if (sn == 0) zero = true; }
  int t = threw([&] { a.assign(b); });
  if (t) { sym_assert(bad || loose, msg(m, " raised")); sym_reach("threw"); return; }
  sym_assert(!bad, msg(m, ": mismatch not raised")); if (bad || loose) return;
  bool sh = dims(a.get_type(), a->metadata(), a.cdata(), n, d.nd, 0); sym_assert(sh, msg(m, ": shape")); if (!sh) return;
  int tot = 1; for (int i = 0; i < d.nd; i++) tot *= n[i]; if (tot) { int ix[4] = {0}; bool ok = true; do ok &= elem(a.get_type(), a->metadata(), a.cdata(), ix) == sv[flat(s, ix, d.nd)]; while (next(ix, n, d.nd)); sym_assert(ok, msg(m, ": wrong element")); }
  int k = 0; bool same = true; { int ix[4] = {0}, sn[4]; for (int i = 0; i < s.nd; i++) sn[i] = s.d[i].n; if (count(s)) do same &= elem(b.get_type(), b->metadata(), b.cdata(), ix) == sv[k++]; while (next(ix, sn, s.nd)); } sym_assert(same, msg(m, ": source changed")); sym_reach("ok");
}
SYM_ENTRY(assign_ragged) { // two rows of different lengths, source and destination of either kind
  static const int len[] = {0, 1, 2, 3}; int sn[2] = {len[sym_choice(4, "s0")], len[sym_choice(4, "s1")]}, form = sym_choice(4, "dst"), outer = sym_choice(2, "outer"); Shape s = {2, {{2, outer == 1}, {U, true}}}; nd::array b = nd::empty(type_of(s)), a; int32_t sv[2][3];
  char *p = b.data(); const char *md = b->metadata(); intptr_t st; if (outer) { auto *m = (const ndt::var_dim_type::metadata_type *)md; auto *v = (ndt::var_dim_type::data_type *)p; v->begin = m->blockref->alloc(2); v->size = 2; st = m->stride; p = v->begin; md += sizeof(*m); memset(p, 0, 2 * st); } else { st = ((const size_stride_t *)md)->stride; md += sizeof(size_stride_t); }
  auto *m = (const ndt::var_dim_type::metadata_type *)md; for (int r = 0; r < 2; r++) { auto *v = (ndt::var_dim_type::data_type *)(p + r * st); v->begin = m->blockref->alloc(sn[r]); v->size = sn[r]; sym_make(sv[r], 12, "s"); memcpy(v->begin, sv[r], 4 * sn[r]); }
  Shape d = form == 0 ? Shape{2, {{2, false}, {U, true}}} : form == 1 ? Shape{2, {{U, true}, {U, true}}} : form == 2 ? Shape{2, {{2, false}, {3, false}}} : Shape{2, {{2, false}, {2, true}}}; int32_t dv[64]; a = build(d, dv, "d"); int fixed = form == 2 ? 3 : form == 3 ? 2 : -1; bool bad = false; for (int r = 0; r < 2; r++) bad |= fixed >= 0 && sn[r] != 1 && sn[r] != fixed;
  int t = threw([&] { a.assign(b); }); if (t) { sym_assert(bad, "assigning ragged rows raised"); sym_reach("threw"); return; } sym_assert(!bad, "assigning ragged rows: mismatch not raised"); if (bad) return;
  for (int r = 0; r < 2; r++) { nd::array row = a(r); int w = fixed >= 0 ? fixed : sn[r]; bool sh = dims(row.get_type(), row->metadata(), row.cdata(), &w, 1, 0); sym_assert(sh, "assigning ragged rows: row length"); if (sh) { bool ok = true; for (int i = 0; i < w; i++) ok &= elem(row.get_type(), row->metadata(), row.cdata(), &i) == sv[r][sn[r] == 1 ? 0 : i]; sym_assert(ok, "assigning ragged rows: wrong element"); } } sym_reach("ok");
}
static void sum(const Shape &s, const Shape &t) {
  int32_t sv[64], tv[64]; nd::array a = build(s, sv, "a"), b = build(t, tv, "b"), r; char m[160]; strcpy(m, msg("add of ", sname(s), " and ", sname(t))); int nd = s.nd > t.nd ? s.nd : t.nd, n[4]; bool bad = false, loose = false, zero = false;
  for (int i = 0; i < nd; i++) { int x = i >= nd - s.nd ? s.d[i - nd + s.nd].n : 1, y = i >= nd - t.nd ? t.d[i - nd + t.nd].n : 1; n[i] = x == 1 ? y : x; if (x != y && x != 1 && y != 1) { if (zero) loose = true; else bad = true; } if (!x || !y) zero = true; }
  int e = threw([&] { r = nd::add(a, b); }); if (e) { sym_assert(bad || loose, msg(m, " raised")); sym_reach("threw"); return; } sym_assert(!bad, msg(m, ": mismatch not raised")); if (bad || loose) return;
  bool sh = r.get_dtype() == ti && dims(r.get_type(), r->metadata(), r.cdata(), n, nd, 0); sym_assert(sh, msg(m, ": shape")); if (!sh) return;
  int tot = 1; for (int i = 0; i < nd; i++) tot *= n[i]; if (tot) { int ix[4] = {0}; bool ok = true; do ok &= elem(r.get_type(), r->metadata(), r.cdata(), ix) == (int32_t)((uint32_t)sv[flat(s, ix, nd)] + (uint32_t)tv[flat(t, ix, nd)]); while (next(ix, n, nd)); sym_assert(ok, msg(m, ": wrong element")); } sym_reach("ok");
}
SYM_ENTRY(elwise) { Shape s = pick("a", 2, false), t = pick("b", 2, false); sum(s, t); }
SYM_ENTRY(elwise3) { Shape s = pick("a", 3, false), t = pick("b", 1, false); sum(s, t); }
SYM_ENTRY(shapes) {
  int dn = sym_choice(4, "dn"), sn = sym_choice(4, "sn"); intptr_t d[3], s[3], st[3], o[3] = {7, 7, 7}; sym_make(d, 24, "d"); sym_make(s, 24, "s"); sym_make(st, 24, "st"); for (int i = 0; i < 3; i++) { sym_assume(d[i] >= 0); sym_assume(s[i] >= 0); }
  bool ok = sn <= dn; for (int i = 0; i < sn && sn <= dn; i++) ok &= (s[i] == 1) | (s[i] == d[dn - sn + i]);
  sym_assert(shape_can_broadcast(dn, d, sn, s) == ok, "shape_can_broadcast: wrong answer"); int t = threw([&] { broadcast_to_shape(dn, d, sn, s, st, o); }); sym_assert(t == !ok, "broadcast_to_shape: raised wrongly"); if (!t) { bool r = true; for (int i = 0; i < dn; i++) { int k = i - (dn - sn); r &= k < 0 ? o[i] == 0 : (s[k] == 1 ? o[i] == 0 : o[i] == st[k]); } sym_assert(r, "broadcast_to_shape: wrong strides"); }
  if (sn <= dn) { intptr_t w[3]; bool ok2 = true; int kind = sym_choice(2, "var"); if (kind && sn) s[sn - 1] = -1; for (int i = 0; i < dn; i++) { int k = i - (dn - sn); intptr_t x = k < 0 ? 1 : s[k]; intptr_t y = d[i]; ok2 &= (x == 1) | (x == -1) | (y == 1) | (x == y); w[i] = x == 1 ? y : x == -1 ? (y == 1 ? -1 : y) : x; }
    intptr_t e[3] = {d[0], d[1], d[2]}; int t2 = threw([&] { incremental_broadcast(dn, e, sn, s); }); sym_assert(t2 == !ok2, "incremental_broadcast: raised wrongly"); if (!t2) { bool r = true; for (int i = 0; i < dn; i++) r &= e[i] == w[i]; sym_assert(r, "incremental_broadcast: wrong shape"); } }
  if (t) sym_reach("threw"); else sym_reach("ok");
}
SYM_ENTRY(shared) { // the shape several arrays share, whatever their order
  int n = sym_choice(4, "n") + 1, size = -1; bool var = false, ok = true; nd::array in[4]; bool rows = false;
  for (int i = 0; i < n; i++) {
    int k = sym_choice(5, "k"); ndt::type t = k == 4 ? ndt::make_fixed_dim(2, ndt::make_type<ndt::var_dim_type>(ti)) : ndt::make_fixed_dim(k, ti); in[i] = nd::empty(t); rows |= k == 4;
    if (k == 4) var = true; else if (k != 1) { ok &= size == -1 || size == k; size = k; }
  }
  intptr_t nd = -9; dimvector sh; shortvector<int> perm; if (threw([&] { broadcast_input_shapes(n, in, nd, sh, perm); })) { sym_reach("threw"); sym_assert(!ok, "shapes which fit are refused"); return; }
  sym_reach("ok"); sym_assert(ok, "shapes which do not fit are accepted"); sym_assert(nd == (rows ? 2 : 1) && (!rows || sh[0] == 2), "number of shared dimensions"); intptr_t want = var ? (size == -1 ? -1 : -size) : size == -1 ? 1 : size; sym_assert(sh[nd - 1] == want, "the shared size of a dimension"); for (intptr_t i = 0; i < nd; i++) sym_assert(perm[i] == nd - 1 - i, "the order of shared dimensions");
}
