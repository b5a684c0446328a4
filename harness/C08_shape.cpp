//@property C08
//@bound one to four dimensions; every 64-bit stride except the most negative one; shapes of 0..7 (contiguity), 1..15 (strides from an axis order)
//@bound arrays of one to three dimensions, fixed sizes 0..3 and variable-sized dimensions of 0..2 elements; every 64-bit stride and 3-bit index
//@bound types of up to three dimensions out of 8 kinds over 9 element types
//@assume the memory order kept by empty_like is claimed for strides that are neither negative nor zero; multi-operand axis order only for being a permutation and for operands that agree
//@entry axis_order reach=ok
//@entry axis_strides reach=ok
//@entry multi reach=ok
//@entry perms reach=ok
//@entry contiguous reach=yes,no
//@entry keep_order reach=ok
//@entry classify reach=c,f,neither,none
//@entry strided reach=ok,threw
//@entry queries reach=ok,threw
//@entry vars reach=ok
//@entry fields reach=ok
//@entry types reach=ok,threw
#include "common.h"
#include <dynd/shape_tools.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef intptr_t ip; typedef std::vector<ndt::type> TV; typedef std::vector<std::string> SV;
static const int NE = 9; static ndt::type el[NE], VD;
extern "C" void sym_setup() {
  el[0] = ndt::make_type<int32_t>(); el[1] = ndt::make_type<double>(); el[2] = ndt::make_type<bool1>(); el[3] = ndt::make_type<ndt::string_type>(); el[4] = ndt::make_type<ndt::fixed_string_type>(3, string_encoding_utf_8);
  el[5] = ndt::make_type<ndt::option_type>(el[0]); el[6] = ndt::make_type<ndt::struct_type>(SV{"x", "y"}, TV{el[0], ndt::make_fixed_dim(2, el[1])}); el[7] = ndt::make_type<ndt::tuple_type>(TV{el[2], el[0]}); el[8] = ndt::make_type<int64_t>();
  VD = ndt::make_type<ndt::var_dim_type>(el[0]); nd::empty(ndt::make_fixed_dim(2, el[0]));
}
static ip ab(ip x) { return x < 0 ? -x : x; }
static ip stride(const char *n) { ip s = (ip)sym_u64(n); sym_assume(s != std::numeric_limits<ip>::min()); return s; }

SYM_ENTRY(axis_order) {
  int n = sym_choice(5, "n"), p[4] = {9, 9, 9, 9}; ip s[4]; for (int i = 0; i < 4; i++) s[i] = stride("s");
  strides_to_axis_perm(n, s, p); unsigned seen = 0; for (int i = 0; i < n; i++) seen |= 1u << (p[i] & 31);
  sym_assert(seen == (1u << n) - 1, "an axis order is not a permutation"); for (int i = 0; i < n; i++) p[i] = (int)sym_concretize(p[i]);
  for (int i = 1; i < n; i++) { sym_assert(ab(s[p[i - 1]]) <= ab(s[p[i]]), "an axis order is not by increasing stride"); if (n < 4) sym_assert((ab(s[p[i - 1]]) != ab(s[p[i]])) | (p[i - 1] > p[i]), "equal strides are not in C order"); }
  for (int i = n; i < 4; i++) sym_assert(p[i] == 9, "an axis order writes past its end"); sym_reach("ok");
}
static void permutation(int n, int *p) { bool used[4] = {}; for (int k = 0; k < n; k++) { int c = sym_choice(n - k, "p"), i = 0; for (;; i++) if (!used[i] && c-- == 0) break; used[i] = true; p[k] = i; } }
SYM_ENTRY(axis_strides) {
  int n = sym_choice(4, "n") + 1, p[4]; permutation(n, p); ip shape[4], out[4] = {7, 7, 7, 7}, es = sym_u8("es") & 63, run = es; for (int i = 0; i < n; i++) { shape[i] = sym_u8("d") & 15; sym_assume(shape[i] >= 1); }
  axis_perm_to_strides(n, p, shape, es, out); for (int k = 0; k < n; k++) { sym_assert(out[p[k]] == (shape[p[k]] > 1 ? run : 0), "strides do not follow the axis order"); run *= shape[p[k]]; }
  for (int i = n; i < 4; i++) sym_assert(out[i] == 7, "strides written past their end"); sym_reach("ok");
}
SYM_ENTRY(multi) {
  int n = sym_choice(4, "n") + 1, m = sym_choice(n == 4 ? 1 : 2, "m") + 1, p[4] = {9, 9, 9, 9}; ip s[2][4]; const ip *ss[2] = {s[0], s[1]}; for (int o = 0; o < m; o++) for (int i = 0; i < n; i++) s[o][i] = stride("s");
  multistrides_to_axis_perm(n, m, ss, p); unsigned seen = 0; for (int i = 0; i < n; i++) seen |= 1u << (p[i] & 31); sym_assert(seen == (1u << n) - 1, "a shared axis order is not a permutation"); for (int i = 0; i < n; i++) p[i] = (int)sym_concretize(p[i]);
  // where the operands have their zero strides at the same axes and agree on the order of the others
  bool agree = true; for (int o = 1; o < m; o++) for (int i = 0; i < n; i++) { agree &= (s[o][i] == 0) == (s[0][i] == 0); for (int j = 0; j < i; j++) agree &= (s[0][i] == 0) | (s[0][j] == 0) | ((ab(s[0][i]) < ab(s[0][j])) == (ab(s[o][i]) < ab(s[o][j])) & (ab(s[0][i]) > ab(s[0][j])) == (ab(s[o][i]) > ab(s[o][j]))); }
  for (int i = 1; i < n; i++) for (int j = 0; j < i; j++) sym_assert(!agree | (s[0][p[i]] == 0) | (s[0][p[j]] == 0) | (ab(s[0][p[j]]) <= ab(s[0][p[i]])), "a shared axis order is not by increasing stride");
  bool none = true; for (int o = 0; o < m; o++) for (int i = 0; i < n; i++) none &= s[o][i] == 0; for (int i = 0; i < n; i++) sym_assert(!none | (p[i] == n - 1 - i), "without strides the order is not C order"); sym_reach("ok");
}
SYM_ENTRY(perms) {
  int n = sym_choice(4, "n") + 1, p[4]; sym_make(p, sizeof p, "p"); bool ok = is_valid_perm(n, p), want = true; for (int i = 0; i < n; i++) { want &= (p[i] >= 0) & (p[i] < n); for (int j = 0; j < i; j++) want &= p[i] != p[j]; }
  sym_assert(ok == want, "a permutation is recognised wrongly"); sym_reach("ok");
}
SYM_ENTRY(contiguous) {
  int n = sym_choice(3, "n") + 1; bool f = sym_choice(2, "f"); ip es = (sym_u8("es") & 15) + 1, sh[3], st[3], ix[3]; for (int i = 0; i < n; i++) { sh[i] = sym_u8("d") & 7; st[i] = (ip)sym_u64("s"); ix[i] = sym_u8("i") & 7; }
  bool r = f ? strides_are_f_contiguous(n, es, sh, st) : strides_are_c_contiguous(n, es, sh, st), in = true, nonempty = true; ip off = 0, lin = 0;
  for (int i = 0; i < n; i++) { in &= ix[i] < sh[i]; nonempty &= sh[i] > 0; off += ix[i] * st[i]; } for (int k = 0; k < n; k++) { int i = f ? n - 1 - k : k; lin = lin * sh[i] + ix[i]; }
  bool dense = true; for (int i = 0; i < n; i++) { ip u = es; for (int j = f ? 0 : i + 1; f ? j < i : j < n; j++) u *= sh[j]; dense &= (sh[i] <= 1) | (st[i] == u); } // a step along each axis
  if (sym_fork(r)) { sym_reach("yes"); sym_assert(!in | (off == lin * es), "elements called contiguous are not"); } else { sym_reach("no"); sym_assert(!(nonempty & dense), "contiguous elements are not recognised"); }
}
static ndt::type fixed_tp(int n, const ip *sh, ndt::type t) { for (int i = n; i--;) t = ndt::make_fixed_dim(sh[i], t); return t; }
static size_stride_t *ss(const nd::array &a) { return (size_stride_t *)a.get()->metadata(); }
SYM_ENTRY(keep_order) {
  int n = sym_choice(3, "n") + 1; ip sh[4]; bool more = n < 3 && sym_choice(2, "more"); for (int i = 0; i < n; i++) sh[i] = n == 3 ? (sym_choice(2, "d") ? 2 + i : 1) : sym_choice(4, "d"); if (more) { n += 2; sh[n - 2] = 1; sh[n - 1] = 1; if (n > 3) sh[0] = 3; }
  nd::array a = nd::empty(fixed_tp(n, sh, el[0])); for (int i = 0; i < n; i++) { ss(a)[i].stride = (ip)sym_u64("s"); sym_assume((ss(a)[i].stride >= 0) & (ss(a)[i].stride != std::numeric_limits<ip>::max())); }
  int w = sym_choice(3, "w"); nd::array b = w == 0 ? nd::empty_like(a) : nd::empty_like(a, el[w == 1 ? 1 : 2]); ip es = w == 0 ? 4 : w == 1 ? 8 : 1;
  sym_assert(b.get_ndim() == n && b.get_dtype() == (w == 0 ? el[0] : el[w == 1 ? 1 : 2]), "an array like another has another type"); ip t[4]; for (int i = 0; i < n; i++) { sym_assert(b.get_dim_size(i) == sh[i], "an array like another has another shape"); t[i] = (ip)sym_concretize(ss(b)[i].stride); }
  ip size = es; bool empty = false; for (int i = 0; i < n; i++) { size *= sh[i]; empty |= sh[i] == 0; } if (empty) { sym_reach("ok"); return; }
  // dense: the axes longer than one, by increasing stride, nest exactly
  int ord[4], k = 0; for (int i = 0; i < n; i++) if (sh[i] > 1) { int j = k++; while (j > 0 && t[ord[j - 1]] > t[i]) { ord[j] = ord[j - 1]; j--; } ord[j] = i; }
  ip run = es; for (int j = 0; j < k; j++) { sym_assert(t[ord[j]] == run, "an array like another is not dense"); run *= sh[ord[j]]; } sym_assert(run == size, "an array like another is not dense");
  for (int j = 1; j < k; j++) sym_assert((ss(a)[ord[j - 1]].stride <= ss(a)[ord[j]].stride) | (ss(a)[ord[j]].stride == 0) | (ss(a)[ord[j - 1]].stride == 0), "an array like another has another memory order"); sym_reach("ok");
}
SYM_ENTRY(classify) {
  int n = sym_choice(3, "n") + 1; ip sh[3] = {2, 3, 4}, z[3]; int k = 0; nd::array a = nd::empty(fixed_tp(n, sh, el[0]));
  for (int i = 0; i < n; i++) { ss(a)[i].stride = stride("s"); if (sym_fork(ss(a)[i].stride != 0)) z[k++] = ab(ss(a)[i].stride); }
  axis_order_classification_t r = a.get_type().extended()->classify_axis_order(a.get()->metadata()); bool c = true, f = true; for (int i = 1; i < k; i++) { c &= z[i - 1] > z[i]; f &= z[i - 1] <= z[i]; }
  if (k < 2) { sym_reach("none"); sym_assert(r == axis_order_none, "one axis has no order"); return; }
  if (sym_fork(c)) { sym_reach("c"); sym_assert(r == axis_order_c, "C order is not recognised"); } else if (sym_fork(f)) { sym_reach("f"); sym_assert(r == axis_order_f, "F order is not recognised"); } else { sym_reach("neither"); sym_assert(r == axis_order_neither, "mixed axes are given an order"); }
}
SYM_ENTRY(strided) {
  sym_lazy_pointers(1);
  int n = sym_choice(3, "n") + 1, e = sym_choice(3, "e"); e = e ? 2 + 2 * e : 0; ip sh[3] = {3, 2, 4}, st[3], ix[3]; nd::array a = nd::empty(fixed_tp(n, sh, el[e])); for (int i = 0; i < n; i++) { ss(a)[i].stride = st[i] = (ip)sym_u64("s"); ix[i] = (int8_t)sym_u8("i"); }
  std::vector<ip> g = a.get_strides(), h = a.get_shape(); bool ok = (ip)g.size() == n && (ip)h.size() == n; for (int i = 0; i < n && ok; i++) ok = (g[i] == st[i]) & (h[i] == sh[i]); sym_assert(ok, "strides or shape differ from the array");
  bool in = true; for (int i = 0; i < n; i++) { in &= (ix[i] < sh[i]) & (ix[i] >= -sh[i]); } nd::array r; if (threw([&] { r = n == 1 ? a(ix[0]) : n == 2 ? a(ix[0], ix[1]) : a(ix[0], ix[1], ix[2]); })) { sym_reach("threw"); sym_assert(!in, "a valid index is refused"); return; }
  ip off = 0; for (int i = 0; i < n; i++) off += st[i] * (ix[i] < 0 ? ix[i] + sh[i] : ix[i]); sym_assert(in & (r.cdata() - a.cdata() == off), "an element is not where the strides put it"); sym_assert(r.get_type() == el[e], "an element of another type");
  // the rest of the array after one index keeps the remaining shape and strides
  nd::array q = a(1); ok = q.get_ndim() == n - 1 && q.get_dtype() == el[e]; g = q.get_strides(); for (int i = 1; i < n && ok; i++) ok = (g[i - 1] == st[i]) & (q.get_dim_size(i - 1) == sh[i]); sym_assert(ok, "strides or shape after an index");
  const size_stride_t *o; ndt::type t; const char *md; sym_assert(a.get_type().get_as_strided(a.get()->metadata(), n, &o, &t, &md) && t == el[e] && md == a.get()->metadata() + 16 * n && o == ss(a), "the strided view of an array"); sym_assert(!a.get_type().get_as_strided(a.get()->metadata(), n + 1, &o, &t, &md), "more strided dimensions than there are"); sym_reach("ok");
}
SYM_ENTRY(queries) {
  int n = sym_choice(4, "n"), e = sym_choice(NE, "e"); ip sh[3]; for (int i = 0; i < n; i++) sh[i] = sym_choice(n == 3 ? 3 : 4, "d"); nd::array a = nd::empty(fixed_tp(n, sh, el[e])); ip st[3], run = el[e].get_default_data_size(); for (int i = n; i--;) { st[i] = run; run *= sh[i]; }
  sym_assert(a.get_ndim() == n && a.get_dtype() == el[e] && a.is_scalar() == (n == 0), "dimensions or element type of a new array"); std::vector<ip> h = a.get_shape(), g = a.get_strides(); bool ok = true; for (int i = 0; i < n; i++) ok &= h[i] == sh[i] && a.get_dim_size(i) == sh[i] && (sh[i] <= 1 || g[i] == st[i]); sym_assert(ok, "shape or strides of a new array");
  if (n) sym_assert(a.get_dim_size() == sh[0], "length of a new array"); if (n && el[e].is_builtin()) sym_assert(a.get_type().is_c_contiguous(a.get()->metadata()), "a new array is not contiguous");
  for (int k = 0; k <= n; k++) sym_assert(a.get_dtype(k) == fixed_tp(k, sh + n - k, el[e]) && a.get_type().get_dtype(k) == a.get_dtype(k), "element type keeping dimensions");
  ip i = (ip)sym_u64("i"); ip v = -9; int t = threw([&] { v = a.get_dim_size(i); }); bool in = (i >= 0) & (i < n); if (t) { sym_assert(!in, "size of an existing dimension refused"); } else { ip w = -9; for (int k = 0; k < n; k++) w = i == k ? sh[k] : w; sym_assert(in & (v == w), "size of a dimension"); }
  int k = n + 1 + sym_choice(2, "k"); sym_assert(threw([&] { a.get_dtype(k); }) && threw([&] { a.get_type().get_type_at_dimension(NULL, k); }), "more dimensions than there are"); if (n == 0 && e != 6) { sym_assert(threw([&] { a.get_dim_size(); }), "a scalar has a length"); sym_reach("threw"); }
  sym_reach("ok");
}
SYM_ENTRY(vars) {
  // fixed and variable-sized dimensions mixed: data-dependent sizes are told where they are unique
  ip n = sym_choice(3, "n"), m = sym_choice(3, "m"); int k = sym_choice(3, "k"); ndt::type t = k == 0 ? VD : k == 1 ? ndt::make_type<ndt::var_dim_type>(ndt::make_fixed_dim(3, el[0])) : ndt::make_fixed_dim(n, VD); nd::array a = nd::empty(t);
  auto fill = [&](const nd::array &x, ip z) { nd::array y = nd::empty(k == 1 ? ndt::make_fixed_dim(z, ndt::make_fixed_dim(3, el[0])) : ndt::make_fixed_dim(z, el[0])); memset(y.data(), 0, y.get_type().get_default_data_size()); x.assign(y); };
  if (k < 2) {
    fill(a, n); sym_assert(a.get_dim_size() == n && a.get_shape()[0] == n && a.get_dim_size(0) == n && a.get_ndim() == k + 1, "size of a variable-sized dimension"); sym_assert(a.get_strides()[0] == (k ? 12 : 4), "stride of a variable-sized dimension");
    if (k == 1) sym_assert(a.get_dim_size(1) == 3 && a.get_shape()[1] == 3 && a.get_strides()[1] == 4, "size inside a variable-sized dimension"); for (ip i = 0; i < n; i++) sym_assert(a(i).get_ndim() == k && a(i).get_dtype() == el[0] && (k == 0 || a(i).get_dim_size() == 3), "an element of a variable-sized dimension");
  } else {
    for (ip i = 0; i < n; i++) fill(a(i), m + i); std::vector<ip> h = a.get_shape(); sym_assert(h[0] == n && a.get_dim_size() == n && a.get_ndim() == 2, "size of a fixed dimension"); sym_assert(h[1] == (n == 1 ? m : -1) && a.get_dim_size(1) == h[1], "a size that varies is told as one number");
    for (ip i = 0; i < n; i++) sym_assert(a(i).get_dim_size() == m + i && a(i).get_shape()[0] == m + i, "size of one variable-sized row");
  }
  sym_reach("ok");
}
SYM_ENTRY(fields) {
  // a field of every row: variable-sized dimensions whose elements begin part-way into a row
  ip n = sym_choice(3, "n"), m[2] = {sym_choice(3, "m"), sym_choice(2, "m") + 1}; int o = sym_choice(2, "o"), k = sym_choice(2, "k"); TV f; for (int i = 0; i < 2; i++) f.push_back(ndt::make_fixed_dim(m[i], el[0])); ndt::type row = ndt::make_type<ndt::struct_type>(SV{"x", "y"}, TV{VD, VD});
  nd::array s = nd::empty(ndt::make_fixed_dim(n, ndt::make_type<ndt::struct_type>(SV{"x", "y"}, f))), a = nd::empty(o ? ndt::make_fixed_dim(n, row) : ndt::make_type<ndt::var_dim_type>(row)); for (ip i = 0; i < n * (m[0] + m[1]); i++) ((int32_t *)s.data())[i] = (int32_t)sym_u32("v"); a.assign(s);
  nd::array v = a(irange(), k); std::vector<ip> h = v.get_shape(), g = v.get_strides(); sym_assert(v.get_ndim() == 2 && v.get_dtype() == el[0], "dimensions of a field"); sym_assert(h[0] == n && v.get_dim_size() == n, "number of rows of a field"); sym_assert(n == 1 ? h[1] == m[k] && v.get_dim_size(1) == m[k] : h[1] == -1, "size inside a field"); sym_assert((n < 2 && o) || g[0] == (ip)row.get_default_data_size(), "stride of a field"); sym_assert(g[1] == 4, "stride inside a field");
  for (ip i = 0; i < n; i++) { nd::array r = v(i); sym_assert(r.get_dim_size() == m[k] && r.get_shape()[0] == m[k] && v(i).get_ndim() == 1, "size of one row of a field"); for (ip j = 0; j < m[k]; j++) { int32_t x, y; memcpy(&x, r(j).cdata(), 4); memcpy(&y, s.cdata() + 4 * (i * (m[0] + m[1]) + k * m[0] + j), 4); sym_assert(x == y, "an element of a field"); } }
  sym_reach("ok");
}
static ndt::type dim(int k, const ndt::type &t) { switch (k) { case 0: return ndt::make_fixed_dim(3, t); case 1: return ndt::make_type<ndt::var_dim_type>(t); case 2: return ndt::make_fixed_dim(1, t); case 3: return ndt::make_fixed_dim(0, t); case 4: return ndt::make_type<ndt::fixed_dim_kind_type>(t); case 5: return ndt::make_type<ndt::typevar_dim_type>("N", t); case 6: return ndt::make_fixed_dim(7, t); default: return ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::typevar_dim_type>("M", ndt::make_type<void>()), "N", t); } }
static ndt::type dims(int n, const int *k, ndt::type t) { for (int i = n; i--;) t = dim(k[i], t); return t; }
SYM_ENTRY(types) {
  int n = sym_choice(4, "n"), k[3], e = sym_choice(NE, "e"); for (int i = 0; i < n; i++) k[i] = sym_choice(n == 3 ? 3 : 7, "k"); ndt::type t = dims(n, k, el[e]); sym_assert(t.get_ndim() == n && t.is_scalar() == (n == 0), "dimensions of a type"); int s = 0, y = 0; for (int i = 0; i < n; i++) { y |= k[i] == 4 || k[i] == 5; } for (; s < n && k[s] != 1 && k[s] != 5 && k[s] != 4; s++) {}
  sym_assert(t.is_symbolic() == (y != 0), "symbolic types"); if (!y) sym_assert(t.get_strided_ndim() == s, "leading strided dimensions");
  for (int i = 0; i <= n; i++) {
    ndt::type sub = dims(n - i, k + i, el[e]); sym_assert(t.get_type_at_dimension(NULL, i) == sub && t.get_dtype(n - i) == sub, "type of the remaining dimensions"); if (!y) { char m[256], *p = m; ndt::type u = t.get_type_at_dimension(&p, i); sym_assert(u == sub && (size_t)(p - m) == t.get_arrmeta_size() - sub.get_arrmeta_size(), "metadata of the remaining dimensions"); }
    sym_assert(t.with_replaced_dtype(el[8], n - i) == dims(i, k, el[8]) && t.with_replaced_dtype(VD, n - i) == dims(i, k, VD), "replacing the element type");
    for (int w = 1; w < 3; w++) { ndt::type x = sub; for (int j = 0; j < w; j++) x = ndt::make_fixed_dim(1, x); sym_assert(t.with_new_axis(i, w) == dims(i, k, x), "inserting dimensions of size one"); }
  }
  for (int w = 0; w < 3; w++) { ndt::type e0 = dims(n, k, el[e]), e1 = dims(n, k, el[8]), a = w == 0 ? ndt::make_type<ndt::ellipsis_dim_type>("D", e0) : w == 1 ? ndt::make_type<ndt::ellipsis_dim_type>(e0) : dim(7, e0), b = w == 0 ? ndt::make_type<ndt::ellipsis_dim_type>("D", e1) : w == 1 ? ndt::make_type<ndt::ellipsis_dim_type>(e1) : dim(7, e1); sym_assert(a.with_replaced_dtype(el[8]) == b, "replacing the element type below a dimension that stands for several"); }
  sym_assert(t.get_canonical_type() == t, "canonical type of a plain type"); sym_assert(threw([&] { t.get_dtype(n + 1); }), "more dimensions than a type has"); sym_reach("threw"); if (!y) { bool f = true; for (int i = 0; i < n; i++) f &= k[i] != 1; size_t z = el[e].get_default_data_size(); for (int i = 0; i < n; i++) z *= k[i] == 0 ? 3 : k[i] == 2 ? 1 : k[i] == 3 ? 0 : 7; if (f) sym_assert(t.get_default_data_size() == z, "size of the data of a type"); ip al = n && !f ? 8 : el[e].get_data_alignment(); if (f) sym_assert((ip)t.get_data_alignment() == al, "alignment of a type"); }
  sym_reach("ok");
}
