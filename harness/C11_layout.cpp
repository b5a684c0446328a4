//@property C11
//@bound arrays of one to three dimensions (four for permute) of sizes 1 to 3, laid out in C order, transposed, reversed or with a step of two, every element value; every axis order and every 32-bit axis number for permute, rotate and new_axis; every reshape to one to three dimensions with the same number of elements and some with another, and reshapes of 0, 1 or 4 elements to up to three sizes, one of them any 64-bit number and the others from -2**63, -4, -1, 0, 1, 2, 4 and above 2**62; the bytes behind arrays of six element types; variable-sized dimensions of up to three numbers, records, tuples or rows, or a field of them, viewed as a fixed one of every size; every stride triple for the axis sorting functions
//@entry permute reach=ok,threw
//@entry permute4 reach=ok
//@entry rotate reach=ok
//@entry rotate_any reach=ok,threw
//@entry newaxis reach=ok
//@entry newaxis_any reach=ok,threw
//@entry reshape reach=ok,threw
//@entry reshape_sizes reach=ok,threw
//@entry copies reach=ok
//@entry views reach=ok,threw
//@entry views_any reach=ok,threw
//@entry storage reach=ok
//@entry var_view reach=ok,threw
//@entry concat reach=ok
//@entry axis_sort reach=ok
#include "common.h"
#include <dynd/shape_tools.hpp>
#include <dynd/view.hpp>
#include <dynd/types/var_dim_type.hpp>
static ndt::type ti, tf, tu8, ti64, ti16, tfb;
static int rank_of(const nd::array &a) { int n = 0; ndt::type t = a.get_type(); while (t.get_id() == fixed_dim_id) { n++; t = t.extended<ndt::base_dim_type>()->get_element_type(); } return t.get_ndim() ? -1 : n; }
static const size_stride_t *ss(const nd::array &a) { return (const size_stride_t *)a->metadata(); }
static const char *el(const nd::array &a, int nd, const int *ix) { const char *p = a.cdata(); for (int i = 0; i < nd; i++) p += ss(a)[i].stride * ix[i]; return p; }
static int32_t e32(const nd::array &a, int nd, const int *ix) { int32_t v; memcpy(&v, el(a, nd, ix), 4); return v; }
static bool is_shape(const nd::array &a, int nd, const int *n, const ndt::type &t) { if (rank_of(a) != nd || a.get_dtype() != t) return false; ndt::type x = a.get_type(); for (int i = 0; i < nd; i++) { if (ss(a)[i].dim_size != n[i] || x.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != n[i]) return false; x = x.extended<ndt::base_dim_type>()->get_element_type(); } return true; }
static bool next(int *ix, const int *n, int nd) { for (int i = nd; i-- > 0;) { if (++ix[i] < n[i]) return true; ix[i] = 0; } return false; }
// A view of symbolic values: n its shape, form its layout; vals are its elements in row-major order.
static nd::array source(int nd, const int *n, int form, int32_t *vals) {
  int tot = 1; for (int i = 0; i < nd; i++) tot *= n[i]; sym_make(vals, 4 * tot, "v"); intptr_t sh[4]; for (int i = 0; i < nd; i++) sh[i] = form == 1 ? n[nd - 1 - i] : form == 3 ? n[i] * 2 : n[i];
  nd::array a = nd::empty(ndt::make_type(nd, sh, ti)); intptr_t st[4], off = 0; for (int i = 0; i < nd; i++) { st[i] = ss(a)[form == 1 ? nd - 1 - i : i].stride; if (form == 2) { off += st[i] * (n[i] - 1); st[i] = -st[i]; } else if (form == 3) st[i] *= 2; }
  memset(a.data(), 0x5a, a.get_type().get_default_data_size()); int ix[4] = {0}, k = 0; if (tot) do { char *p = a.data() + off; for (int i = 0; i < nd; i++) p += st[i] * ix[i]; *(int32_t *)p = vals[k++]; } while (next(ix, n, nd));
  if (!form) return a; intptr_t m[4]; for (int i = 0; i < nd; i++) m[i] = n[i]; return nd::make_strided_array_from_data(ti, nd, m, st, a.get_flags(), a.data() + off, a, NULL);
}
static int flat(const int *n, int nd, const int *ix) { int r = 0; for (int i = 0; i < nd; i++) r = r * n[i] + ix[i]; return r; }
extern "C" void sym_setup() { ti = ndt::make_type<int32_t>(); tf = ndt::make_type<float>(); tu8 = ndt::make_type<uint8_t>(); ti64 = ndt::make_type<int64_t>(); ti16 = ndt::make_type<int16_t>(); tfb = ndt::type(std::string("fixed_bytes[4, align=4]")); for (int s = 1; s < 5; s++) for (int t = 1; t < 5; t++) { intptr_t h[3] = {s, t, 2}; nd::array a = nd::empty(ndt::make_type(3, h, ti)), b = nd::empty(ndt::make_type(2, h, ti)); a.eval_copy(); } nd::array x = nd::empty(2, ti); x.eval_copy(); }
static void pick_shape(int *n, int nd) { for (int i = 0; i < nd; i++) n[i] = i == 0 ? 1 + sym_choice(3, "n0") : i == 1 ? 1 + sym_choice(2, "n1") : 3 - sym_choice(2, "n2"); }
static const char *const form_name[] = {"contiguous", "transposed", "reversed", "stepped"};
SYM_ENTRY(permute) {
  int nd = 1 + sym_choice(3, "ndim"), n[3], form = sym_choice(4, "form"), k = 1 + sym_choice(nd + 1, "naxes"); pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; intptr_t ax[4]; bool valid = k <= nd; for (int i = 0; i < k; i++) { int32_t x; sym_make(&x, 4, "axis"); ax[i] = x; }
  for (int i = 0; i < k; i++) { valid &= (ax[i] >= 0) & (ax[i] < k); for (int j = 0; j < i; j++) valid &= ax[i] != ax[j]; }
  int t = threw([&] { r = a.permute(k, ax); }); sym_assert(t == !valid, "permute: raised wrongly"); if (t) { sym_reach("threw"); return; }
  int m[3], pm[3]; for (int i = 0; i < nd; i++) { pm[i] = i < k ? (int)sym_concretize(ax[i]) : i; m[i] = n[pm[i]]; } sym_assert(is_shape(r, nd, m, ti), msg("permute: wrong shape, ", form_name[form])); if (!is_shape(r, nd, m, ti)) return;
  int ix[3] = {0}; bool ok = true; do { int o[3]; for (int i = 0; i < nd; i++) o[pm[i]] = ix[i]; ok &= e32(r, nd, ix) == v[flat(n, nd, o)]; } while (next(ix, m, nd)); sym_assert(ok, msg("permute: wrong element, ", form_name[form])); sym_reach("ok");
}
SYM_ENTRY(permute4) { // all orders of four axes, optionally above a variable-sized dimension
  int var = sym_choice(2, "var"); intptr_t ax[4]; int used = 0; for (int i = 0; i < 4; i++) { ax[i] = sym_choice(4, "axis"); if (used >> ax[i] & 1) return; used |= 1 << ax[i]; } int n[4] = {2, 1, 3, 2}, st[4]; intptr_t sh[4] = {2, 1, 3, 2};
  ndt::type e = var ? ndt::make_type<ndt::var_dim_type>(ti) : ti; nd::array a = nd::empty(ndt::make_type(4, sh, e)), r; const char *base = a.cdata(); for (int i = 0; i < 4; i++) st[i] = (int)ss(a)[i].stride; int t = threw([&] { r = a.permute(4, ax); }); sym_assert(!t, "permute of four axes raised"); if (t) return;
  ndt::type x = r.get_type(); bool ok = true; for (int i = 0; i < 4; i++) { ok &= x.get_id() == fixed_dim_id && x.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == n[ax[i]]; if (!ok) break; ok &= ss(r)[i].dim_size == n[ax[i]] && (n[ax[i]] == 1 || ss(r)[i].stride == st[ax[i]]); x = x.extended<ndt::base_dim_type>()->get_element_type(); } sym_assert(ok && x == e && r.cdata() == base, "permute of four axes: wrong layout"); sym_reach("ok");
}
SYM_ENTRY(rotate) {
  int nd = 1 + sym_choice(3, "ndim"), n[3], form = sym_choice(2, "form"), op = sym_choice(2, "transpose"), from = 0, to = 0; pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; if (!op) { to = sym_choice(nd, "to"); from = sym_choice(nd, "from"); }
  int t = threw([&] { r = op ? a.transpose() : a.rotate(to, from); }); sym_assert(!t, "rotate or transpose raised"); if (t) return; int pm[3], m[3]; for (int i = 0; i < nd; i++) pm[i] = op ? nd - 1 - i : i; if (!op) { int x = pm[from]; if (from < to) for (int i = from; i < to; i++) pm[i] = pm[i + 1]; else for (int i = from; i > to; i--) pm[i] = pm[i - 1]; pm[to] = x; }
  for (int i = 0; i < nd; i++) m[i] = n[pm[i]]; bool sh = is_shape(r, nd, m, ti); sym_assert(sh, op ? "transpose: wrong shape" : "rotate: wrong shape"); if (!sh) return; int ix[3] = {0}; bool ok = true; do { int o[3]; for (int i = 0; i < nd; i++) o[pm[i]] = ix[i]; ok &= e32(r, nd, ix) == v[flat(n, nd, o)]; } while (next(ix, m, nd)); sym_assert(ok, op ? "transpose: wrong element" : "rotate: wrong element"); sym_reach("ok");
}
SYM_ENTRY(newaxis) {
  int nd = 1 + sym_choice(3, "ndim"), n[3], form = sym_choice(4, "form"), at_ = sym_choice(nd + 1, "at"), cnt = 1 + sym_choice(2, "count"), m[5]; pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; int t = threw([&] { r = a.new_axis(at_, cnt); }); sym_assert(!t, "new_axis raised"); if (t) return; for (int i = 0; i < nd + cnt; i++) m[i] = i < at_ ? n[i] : i < at_ + cnt ? 1 : n[i - cnt];
  bool sh = is_shape(r, nd + cnt, m, ti); sym_assert(sh, "new_axis: wrong shape"); if (!sh) return; int ix[5] = {0}; bool ok = true; do { int o[3]; for (int i = 0; i < nd; i++) o[i] = ix[i < at_ ? i : i + cnt]; ok &= e32(r, nd + cnt, ix) == v[flat(n, nd, o)]; } while (next(ix, m, nd + cnt)); sym_assert(ok, "new_axis: wrong element"); sym_reach("ok");
}
SYM_ENTRY(reshape) {
  int nd = 1 + sym_choice(3, "ndim"), n[3], form = sym_choice(4, "form"), k = 0, m[3]; pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; intptr_t sh[3]; int tot = 1, want = 1; for (int i = 0; i < nd; i++) tot *= n[i];
  int tab[64][4], nt = 0; for (int r = 1; r <= 3; r++) for (int x = 0; x <= 9; x++) for (int y = r > 1 ? 0 : 1; y <= (r > 1 ? 9 : 1); y++) for (int z = r > 2 ? 1 : 1; z <= (r > 2 ? 9 : 1); z++) if (nt < 60 && (x * y * z == tot || (form == 0 && ((x == 0 && y == 1 && r < 3) || (x == tot - 1 && y == 2 && z == 1) || (x == tot + 1 && y == 1 && r == 1))))) { tab[nt][0] = r; tab[nt][1] = x; tab[nt][2] = y; tab[nt++][3] = z; }
  int pick = sym_choice(nt, "shape"); k = tab[pick][0]; for (int i = 0; i < k; i++) { m[i] = tab[pick][1 + i]; sh[i] = m[i]; want *= m[i]; }
  int t = threw([&] { nd::array s = nd::empty(k, ndt::make_type<intptr_t>()); memcpy(s.data(), sh, 8 * k); r = nd::reshape(a, s); }); if (t) { sym_assert(want != tot, msg("reshape raised, ", form_name[form])); sym_reach("threw"); return; } sym_assert(want == tot, "reshape: different size not raised"); if (want != tot) return;
  bool o = is_shape(r, k, m, ti); sym_assert(o, "reshape: wrong shape"); if (!o) return; int ix[3] = {0}; bool ok = true; do ok &= e32(r, k, ix) == v[flat(m, k, ix)]; while (next(ix, m, k)); sym_assert(ok, msg("reshape: wrong element, ", form_name[form])); sym_reach("ok");
}
SYM_ENTRY(reshape_sizes) { // every 64-bit size, also negative ones and ones whose product wraps around, and no sizes at all
  static const int64_t other[] = {-1, -4, 0, 1, 2, 4, 1LL << 62, (1LL << 62) + 1, INT64_MIN};
  int n = sym_choice(3, "elements"); n += n == 2 ? 2 : 0; int k = sym_choice(4, "sizes"), p = k ? sym_choice(k, "which") : 0; int64_t sh[3] = {1, 1, 1}, x = (int64_t)sym_u64("size"); for (int i = 0; i < k; i++) sh[i] = i == p ? x : other[sym_choice(9, "other")]; int32_t v[4]; nd::array a = nd::empty(n, ti), r; sym_make(v, sizeof v, "v"); memcpy(a.data(), v, 4 * n);
  bool good = true; if (k) { int64_t rest = 1; for (int i = 0; i < k; i++) if (i != p) { good = good && sh[i] >= 0; if (sh[i] > 4) good = good && n == 0; rest = good && sh[i] <= 4 ? rest * sh[i] : rest; }
    if (good && n == 0) { for (int i = 0; i < k; i++) if (i != p && sh[i] > 4) return; if (rest != 0) good = x == 0; else { if (x > 4) return; good = x >= 0; } } else if (good) good = rest > 0 && x >= 0 && x <= 4 && x * rest == n; } else good = n == 1;
  if (good && k) { x = sym_concretize(x); sh[p] = x; }
  int t = threw([&] { nd::array s = nd::empty(k, ndt::make_type<intptr_t>()); memcpy(s.data(), sh, 8 * k); r = nd::reshape(a, s); }); if (t) { sym_assert(!good, "reshape raised for sizes that fit"); sym_reach("threw"); return; } sym_assert(good, "reshape: negative, overflowing or different sizes not raised"); if (!good) return;
  int m[3] = {(int)sh[0], (int)sh[1], (int)sh[2]}; bool o = is_shape(r, k, m, ti); sym_assert(o, "reshape: wrong shape"); if (!o) return; if (n) { int ix[3] = {0}; bool ok = true; if (k == 0) ok = *(const int32_t *)r.cdata() == v[0]; else do ok &= e32(r, k, ix) == v[flat(m, k, ix)]; while (next(ix, m, k)); sym_assert(ok, "reshape: wrong element"); } sym_reach("ok");
}
// Offsets of the elements of r are distinct and lie inside its own data.
static bool owns(const nd::array &r, int nd, const int *n, int esz) { intptr_t lo = 0, hi = 0; int tot = 1; for (int i = 0; i < nd; i++) { intptr_t x = ss(r)[i].stride * (n[i] - 1); (x < 0 ? lo : hi) += x; tot *= n[i]; } if (lo != 0 || hi != (intptr_t)(tot - 1) * esz) return false; intptr_t seen = 0; int ix[4] = {0}; do { intptr_t o = (el(r, nd, ix) - r.cdata()) / esz; if (o < 0 || o >= tot || seen >> o & 1) return false; seen |= (intptr_t)1 << o; } while (next(ix, n, nd)); return true; }
SYM_ENTRY(copies) {
  int nd = 1 + sym_choice(3, "ndim"), n[3], form = sym_choice(4, "form"), op = sym_choice(4, "op"); pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; if (nd > 1 && sym_choice(2, "rot")) { a = a.rotate(0, nd - 1); int32_t w[64]; int m[3]; for (int i = 0; i < nd; i++) m[i] = n[(i + nd - 1) % nd]; int ix[3] = {0}; do { int o[3]; for (int i = 0; i < nd; i++) o[(i + nd - 1) % nd] = ix[i]; w[flat(m, nd, ix)] = v[flat(n, nd, o)]; } while (next(ix, m, nd)); memcpy(v, w, sizeof w); memcpy(n, m, sizeof m); }
  static const char *const nm[] = {"eval_copy", "empty_like", "empty_like of another type", "empty and assign"}; int t = threw([&] { if (op == 0) r = a.eval_copy(); else if (op == 1) r = nd::empty_like(a); else if (op == 2) r = nd::empty_like(a, ti64); else r = nd::empty(a.get_type()); }); sym_assert(!t, msg(nm[op], " raised")); if (t) return;
  bool sh = is_shape(r, nd, n, op == 2 ? ti64 : ti); sym_assert(sh, msg(nm[op], ": wrong shape")); if (!sh) return; sym_assert(owns(r, nd, n, op == 2 ? 8 : 4), msg(nm[op], ": overlapping or foreign elements, ", form_name[form])); sym_assert(r.cdata() != a.cdata(), msg(nm[op], ": shares data"));
  if (op) { t = threw([&] { r.assign(a); }); sym_assert(!t, msg(nm[op], ": assigning raised")); if (t) return; } int ix[3] = {0}; bool ok = true; do ok &= op == 2 ? *(const int64_t *)el(r, nd, ix) == v[flat(n, nd, ix)] : e32(r, nd, ix) == v[flat(n, nd, ix)]; while (next(ix, n, nd)); sym_assert(ok, msg(nm[op], ": wrong element, ", form_name[form])); sym_reach("ok");
}
SYM_ENTRY(views) {
  int op = sym_choice(3, "op"), nd = 1 + sym_choice(2, "ndim"), n[3], form = sym_choice(4, "form"); pick_shape(n, nd); int32_t v[64]; nd::array a = source(nd, n, form, v), r; const ndt::type *ty[] = {&tf, &tfb, &ti, &tu8, &ti64, &ti16}; int k = sym_choice(6, "type"); const ndt::type &tp = *ty[k]; int sz = tp.get_data_size(); static const char *const nm[] = {"view", "replace_dtype", "view_scalars"};
  bool same = sz == 4; int tot = 1; for (int i = 0; i < nd; i++) tot *= n[i]; intptr_t sh[3] = {n[0], n[1], 0};
  int t = threw([&] { if (op == 0) r = a.view(ndt::make_type(nd, sh, tp)); else if (op == 1) r = a.replace_dtype(tp, 0); else r = a.view_scalars(tp); });
  bool contig1 = nd == 1 && (ss(a)[0].stride == 4); bool can = same || (op == 2 && contig1 && tot * 4 % sz == 0 && ((uintptr_t)a.cdata() & (tp.get_data_alignment() - 1)) == 0);
  if (t) { sym_assert(!can, msg(nm[op], " raised")); sym_reach("threw"); return; } sym_assert(can, msg(nm[op], ": incompatible layout not raised")); if (!can) return; int m[3] = {n[0], n[1], 0}; if (op == 2 && contig1) m[0] = tot * 4 / sz; bool o = is_shape(r, nd, m, tp); sym_assert(o, msg(nm[op], ": wrong shape")); if (!o) return;
  sym_assert(r.cdata() == a.cdata(), msg(nm[op], ": copied")); if (sz == 4) { int ix[3] = {0}; bool ok = true; do ok &= e32(r, nd, ix) == v[flat(n, nd, ix)]; while (next(ix, m, nd)); sym_assert(ok, msg(nm[op], ": wrong element")); } else { bool ok = ss(r)[0].stride == sz || m[0] == 1; ok &= !memcmp(r.cdata(), v, tot * 4); sym_assert(ok, msg(nm[op], ": wrong bytes")); } sym_reach("ok");
}
SYM_ENTRY(rotate_any) { // every pair of 32-bit axis numbers
  int nd = 1 + sym_choice(3, "ndim"), n[3] = {2, 3, 1}; int32_t v[64]; nd::array a = source(nd, n, 0, v), r; int32_t f, t; sym_make(&f, 4, "from"); sym_make(&t, 4, "to"); if (f == t) return; bool valid = (f >= 0) & (f < nd) & (t >= 0) & (t < nd);
  int k = threw([&] { r = a.rotate(t, f); }); sym_assert(k == !valid, "rotate: raised wrongly"); if (k) { sym_reach("threw"); return; } sym_reach("ok");
}
SYM_ENTRY(newaxis_any) { // every 32-bit position and small or negative count
  int nd = sym_choice(3, "ndim"), n[3] = {2, 3, 1}; int32_t v[64]; nd::array a = source(nd, n, 0, v), r; int32_t p, c; sym_make(&p, 4, "at"); sym_make(&c, 4, "count"); sym_assume(c < 3); bool valid = (p >= 0) & (p <= nd) & (c >= 0); if (valid) { p = (int32_t)sym_concretize(p); c = (int32_t)sym_concretize(c); }
  int k = threw([&] { r = a.new_axis(p, c); }); sym_assert(k == !valid, "new_axis: raised wrongly"); if (k) { sym_reach("threw"); return; } int m[5]; for (int i = 0; i < nd + c; i++) m[i] = i < p ? n[i] : i < p + c ? 1 : n[i - c]; bool o = is_shape(r, nd + c, m, ti); sym_assert(o, "new_axis: wrong shape"); sym_reach("ok");
}
SYM_ENTRY(views_any) { // replace_dtype keeping any number of dimensions, views as a type without a size
  int nd = 1 + sym_choice(2, "ndim"), op = sym_choice(2, "op"), n[3] = {2, 3, 1}; int32_t v[64]; nd::array a = source(nd, n, 0, v), r; if (op) { int k = threw([&] { r = a.view_scalars(ndt::make_type<void>()); }); sym_assert(k, "view as void not raised"); return; }
  int32_t d; sym_make(&d, 4, "ndim"); bool valid = (d >= 0) & (d <= nd); if (valid) d = (int32_t)sym_concretize(d); ndt::type t = tf; if (valid) for (int i = nd; i-- > nd - d;) t = ndt::make_fixed_dim(n[i], t); int k = threw([&] { r = a.replace_dtype(t, d); }); sym_assert(k == !valid, "replace_dtype: raised wrongly"); if (k) { sym_reach("threw"); return; }
  bool o = is_shape(r, nd, n, tf); sym_assert(o && r.cdata() == a.cdata(), "replace_dtype: wrong shape"); if (!o) return; int ix[3] = {0}; bool ok = true; do ok &= e32(r, nd, ix) == v[flat(n, nd, ix)]; while (next(ix, n, nd)); sym_assert(ok, "replace_dtype: wrong element"); sym_reach("ok");
}
SYM_ENTRY(storage) { // the bytes behind an array, in place
  static const char *const T[] = {"int32", "float64", "?int32", "string", "fixed_string[4]", "{x: int32, y: string}"}, *const W[] = {"fixed_bytes[4, align=4]", "fixed_bytes[8, align=8]", "fixed_bytes[4, align=4]", "bytes", "", ""}; int k = sym_choice(6, "type"), var = sym_choice(2, "var"); nd::array a = nd::empty(ndt::type(std::string(var ? "var * " : "2 * ") + T[k])), r; char buf[16]; sym_make(buf, 16, "bytes");
  char *p; if (var) { auto d = (ndt::var_dim_type::data_type *)a.data(); auto md = (const ndt::var_dim_type::metadata_type *)a->metadata(); d->begin = p = md->blockref->alloc(2); d->size = 2; } else p = a.data(); int sz = k == 0 || k == 2 ? 4 : k == 1 ? 8 : 0; if (sz) memcpy(p, buf, 2 * sz); else if (k == 3) { ((dynd::string *)p)[0].assign(buf, 3); ((dynd::string *)p)[1].assign(buf, 16); }
  int t = threw([&] { r = a.storage(); }); sym_assert(!t, "storage raised"); if (t) return; sym_assert(r.cdata() == a.cdata(), "storage: copied"); bool same = !*W[k]; if (same) { if (k == 5) sym_assert(r.get_type() == a.get_type(), "storage of a struct: another type"); sym_reach("ok"); return; }
  sym_assert(r.get_type() == ndt::type(std::string(var ? "var * " : "2 * ") + W[k]), "storage: wrong type"); bool ok = r.get_dim_size() == 2; if (ok) for (int i = 0; i < 2; i++) { nd::array e = r(i); if (k == 3) { auto b = (const dynd::bytes *)e.cdata(); ok &= (int)b->size() == (i ? 16 : 3); if (ok) for (int j = 0; j < (i ? 16 : 3); j++) ok &= b->data()[j] == buf[j]; } else for (int j = 0; j < sz; j++) ok &= e.cdata()[j] == buf[i * sz + j]; } sym_assert(ok, "storage: wrong bytes"); sym_reach("ok");
}
SYM_ENTRY(var_view) { // a variable-sized dimension, of numbers or a field of its records, seen as a fixed one
  int n = sym_choice(4, "size"), m = sym_choice(5, "as"), form = sym_choice(4, "form"); static const char *const T[] = {"var * int32", "var * {x: int32, y: int32}", "var * (int64, int32)", "var * 2 * int32"}; nd::array a = nd::empty(ndt::type(std::string(T[form]))), b = a, r; int32_t v[16]; sym_make(v, sizeof v, "v"); int es = form == 0 ? 1 : form == 2 ? 4 : 2; { auto d = (ndt::var_dim_type::data_type *)a.data(); auto md = (const ndt::var_dim_type::metadata_type *)a->metadata(); d->begin = n ? md->blockref->alloc(n) : nullptr; d->size = n; if (n) memcpy(d->begin, v, 4 * es * n); }
  int fld = 0; if (form == 1 || form == 2) { fld = sym_choice(2, "field"); int t = threw([&] { b = a(irange(), fld); }); if (t) return; } ndt::type el = form == 3 ? ndt::make_fixed_dim(2, tf) : form == 2 && !fld ? ndt::make_type<double>() : tf; int sym = m == 4, t = threw([&] { r = b.view(sym ? ndt::type(form == 3 ? "Fixed * 2 * float32" : form == 2 && !fld ? "Fixed * float64" : "Fixed * float32") : ndt::make_fixed_dim(m, el)); });
  bool can = sym || n == m; if (sym) m = n; if (t) { sym_assert(!can, "a variable-sized dimension as a fixed one of its size: raised"); sym_reach("threw"); return; } sym_assert(can, "a variable-sized dimension as a fixed one of another size: not raised"); if (!can) return; sym_assert(r.get_type() == ndt::make_fixed_dim(m, el), "var as fixed: wrong type");
  bool ok = r.get_dim_size() == n; b = nd::array(); a = nd::array(); if (ok) for (int i = 0; i < n; i++) { nd::array e = r(i); int w = form == 3 || (form == 2 && !fld) ? 2 : 1; int32_t x[2]; memcpy(x, e.cdata(), 4 * w); int o = form == 2 ? 2 * fld : fld; for (int j = 0; j < w; j++) ok &= x[j] == v[i * es + o + j]; } sym_assert(ok, "var as fixed: wrong element"); sym_reach("ok");
}
SYM_ENTRY(concat) {
  int x = 1 + sym_choice(3, "x"), y = 1 + sym_choice(3, "y"), f = sym_choice(4, "f"), g = sym_choice(4, "g"); int32_t v[8], w[8]; nd::array a = source(1, &x, f, v), b = source(1, &y, g, w), r; int t = threw([&] { r = nd::concatenate(a, b); }); sym_assert(!t, "concatenate raised"); if (t) return; int n = x + y; bool o = is_shape(r, 1, &n, ti); sym_assert(o, "concatenate: wrong shape"); if (!o) return; bool ok = true; for (int i = 0; i < n; i++) ok &= e32(r, 1, &i) == (i < x ? v[i] : w[i - x]); sym_assert(ok, "concatenate: wrong element"); sym_reach("ok");
}
static intptr_t mag(intptr_t x) { return x < 0 ? -x : x; }
SYM_ENTRY(axis_sort) {
  int nd = 1 + sym_choice(4, "ndim"), op = sym_choice(3, "op"); intptr_t st[4], s2[4]; sym_make(st, 32, "stride"); for (int i = 0; i < 4; i++) sym_assume(st[i] != INTPTR_MIN); int pm[4] = {9, 9, 9, 9};
  if (op == 0) strides_to_axis_perm(nd, st, pm); else if (op == 1) { if (nd == 4) return; const intptr_t *o[2] = {st, s2}; sym_make(s2, 32, "stride2"); for (int i = 0; i < 4; i++) sym_assume(s2[i] != INTPTR_MIN); multistrides_to_axis_perm(nd, 2, o, pm); } else { if (nd == 4) return; int32_t sh[4]; sym_make(sh, 16, "shape"); intptr_t s[4], out[4]; for (int i = 0; i < nd; i++) { sym_assume(sh[i] >= 0 && sh[i] < 65536); s[i] = sh[i]; } int p[3], used = 0; for (int i = 0; i < nd; i++) { p[i] = sym_choice(nd, "perm"); if (used >> p[i] & 1) return; used |= 1 << p[i]; } axis_perm_to_strides(nd, p, s, 4, out); intptr_t e = 4; bool ok = true; for (int i = 0; i < nd; i++) { ok &= out[p[i]] == (s[p[i]] > 1 ? e : 0); e *= s[p[i]]; } sym_assert(ok, "axis_perm_to_strides: wrong strides"); sym_reach("ok"); return; }
  int seen = 0; for (int i = 0; i < nd; i++) { int p = (int)sym_concretize(pm[i]); bool in = p >= 0 && p < nd && !(seen >> p & 1); sym_assert(in, "axis order is no permutation"); if (!in) return; seen |= 1 << p; } bool ok = true;
  for (int i = 0; i + 1 < nd && op == 0; i++) ok &= (mag(st[pm[i]]) < mag(st[pm[i + 1]])) | ((mag(st[pm[i]]) == mag(st[pm[i + 1]])) & ((pm[i] > pm[i + 1]) | (nd == 4)));
  if (op == 1) for (int i = 0; i + 1 < nd; i++) if (nd == 2 || true) { int a = pm[i], b = pm[i + 1]; bool gt = (st[a] != 0) & (st[b] != 0) & (s2[a] != 0) & (s2[b] != 0) & (mag(st[a]) > mag(st[b])) & (mag(s2[a]) > mag(s2[b])); ok &= !gt; }
  sym_assert(ok, "axes not sorted by stride"); sym_reach("ok");
}
