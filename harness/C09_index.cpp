//@property C09
//@bound one, two and three dimensional fixed arrays with dimension sizes 0..4 (1-d), 0..3 (2-d), 2 (3-d); every 64-bit value of index, start, finish and step
//@bound variable-sized dimensions of 1..3 elements, every 64-bit index; slices of slices (1-d, second slice over -4..4); 2-d index/slice combinations over 8-bit positions and steps 1, 2, -1
//@entry index1 reach=ok,threw
//@entry slice_small_step reach=ok,empty,threw,negstep
//@entry slice_any_step reach=ok,empty,threw,negstep
//@entry dim2 reach=ok,threw
//@entry dim3 reach=ok,threw
//@entry too_many reach=threw
//@entry var1 reach=ok,threw
//@entry var_slice reach=ok,threw
//@entry twice reach=ok
//@entry tuple_field reach=ok,threw
#include "common.h"
typedef intptr_t ip;
// Reference: resolves one irange against a dimension of n elements. 0 error, 1 single index, 2 range
static int resolve(ip n, ip start, ip finish, ip step, ip &s, ip &cnt) {
  if (step == 0) { if (start >= n || start < -n) return 0; s = start < 0 ? start + n : start; cnt = 1; return 1; }
  ip e;
  if (step > 0) {
    if (start >= n) return 0;
    s = start >= 0 ? start : start >= -n ? start + n : 0;
    if (finish < -n) return 0;
    e = finish < 0 ? finish + n : finish > n ? n : finish;
    cnt = 0; for (i128 i = s; i < e; i += step) cnt++;
  } else {
    if (start >= n || (start < -n && start != std::numeric_limits<ip>::min())) return 0;
    s = start >= 0 ? start : start >= -n ? start + n : n - 1;
    if (finish >= n && finish != std::numeric_limits<ip>::max()) return 0;
    e = finish == std::numeric_limits<ip>::max() ? -1 : finish >= 0 ? finish : finish >= -n ? finish + n : -1;
    cnt = 0; for (i128 i = s; i > e; i += step) cnt++;
  }
  return 2;
}
static nd::array ints1(ip n) { nd::array a = nd::empty(ndt::make_fixed_dim(n, ndt::make_type<int32_t>())); for (ip i = 0; i < n; i++) ((int32_t *)a.data())[i] = (int32_t)(100 + i); return a; }

SYM_ENTRY(index1) {
  ip n = sym_choice(5, "n"), i = (ip)sym_u64("i"); nd::array a = ints1(n), r;
  int t = threw([&] { r = a(i); });
  bool in = (i < n) & (i >= -n);
  if (t) { sym_reach("threw"); sym_assert(!in, "valid index rejected"); return; }
  sym_reach("ok"); sym_assert(in, "index outside the dimension accepted");
  sym_assert(r.get_type() == ndt::make_type<int32_t>(), "type of an indexed element");
  sym_assert((ip)(r.cdata() - a.cdata()) == 4 * (i < 0 ? i + n : i), "index refers to another element");
}
static void check_slice(const nd::array &a, ip base_off, ip stride, ip n, ip start, ip finish, ip step) {
  nd::array r; ip s = 0, cnt = 0;
  int t = threw([&] { r = a(irange(start, finish, step)); });
  int k = resolve(n, start, finish, step, s, cnt);
  if (t) { sym_reach("threw"); sym_assert(k == 0, "valid slice rejected"); return; }
  sym_assert(k != 0, "slice outside the dimension accepted");
  if (k == 1) { sym_assert((ip)(r.cdata() - a.cdata()) == s * stride, "index refers to another element"); return; }
  sym_assert(r.get_ndim() == 1 && r.get_dim_size() == cnt, "slice has a different number of elements");
  if (cnt == 0) { sym_reach("empty"); return; }
  if (step < 0) sym_reach("negstep"); sym_reach("ok");
  for (ip j = 0; j < cnt; j++) sym_assert(*(const int32_t *)r(j).cdata() == (int32_t)(100 + base_off + (i128)s + (i128)j * step), "slice element differs from the selected element");
}
SYM_ENTRY(slice_small_step) {
  ip n = sym_choice(5, "n"); nd::array a = ints1(n);
  ip step = sym_choice(3, "mag") + 1; if (sym_choice(2, "neg")) step = -step;
  ip start = (ip)sym_u64("start"), finish = (ip)sym_u64("finish");
  check_slice(a, 0, 4, n, start, finish, step);
}
SYM_ENTRY(slice_any_step) {
  ip n = sym_choice(3, "n") + 2; nd::array a = ints1(n);
  static const ip pos[] = {0, 3, -2, std::numeric_limits<ip>::min(), std::numeric_limits<ip>::max()};
  ip start = pos[sym_choice(4, "start")], finish = pos[sym_choice(5, "finish")], step = (ip)sym_u64("step");
  sym_assume(step != 0);
  check_slice(a, 0, 4, n, start, finish, step);
}
static irange sym_range(const char *a, const char *b, const char *c) {
  switch (sym_choice(5, "kind")) {
  case 0: return irange((ip)(int8_t)sym_u8(a));
  case 1: return irange();
  case 2: return irange((ip)(int8_t)sym_u8(a), std::numeric_limits<ip>::max(), 1);
  case 3: return irange(std::numeric_limits<ip>::min(), (ip)(int8_t)sym_u8(b), 2);
  default: return irange((ip)(int8_t)sym_u8(a), std::numeric_limits<ip>::max(), -1);
  }
}
template <int ND> static void nd_index(const ip *shape) {
  ndt::type tp = ndt::make_type<int32_t>(); for (int d = ND; d-- > 0;) tp = ndt::make_fixed_dim(shape[d], tp);
  nd::array a = nd::empty(tp); ip tot = 1; for (int d = 0; d < ND; d++) tot *= shape[d];
  for (ip i = 0; i < tot; i++) ((int32_t *)a.data())[i] = (int32_t)i;
  irange r[ND]; const char *nm[] = {"i0", "i1", "i2"}, *nf[] = {"f0", "f1", "f2"}, *ns[] = {"s0", "s1", "s2"};
  int used = 1 + sym_choice(ND, "used");
  for (int d = 0; d < used; d++) r[d] = sym_range(nm[d], nf[d], ns[d]);
  nd::array v; int t = threw([&] { v = a.at_array(used, r); });
  ip s[ND], cnt[ND], st[ND]; int k[ND]; bool ok = true; int first_bad = -1;
  for (int d = 0; d < ND; d++) { k[d] = resolve(shape[d], r[d].start(), r[d].finish(), r[d].step(), s[d], cnt[d]); st[d] = r[d].step(); if (!k[d] && ok) { ok = false; first_bad = d; } }
  if (t) { sym_reach("threw"); sym_assert(!ok, "valid index rejected"); return; }
  // an invalid later index must be reported whatever the earlier ones select
  sym_assert(ok, "index outside a dimension accepted"); (void)first_bad;
  ip ond = 0, oshape[ND]; for (int d = 0; d < ND; d++) if (k[d] == 2) oshape[ond++] = cnt[d];
  sym_assert(v.get_ndim() == ond, "number of dimensions after indexing");
  ip vs[ND], total = 1; if (ond) { v.get_shape(vs); for (ip d = 0; d < ond; d++) { sym_assert(vs[d] == oshape[d], "shape after indexing"); total *= oshape[d]; } }
  for (ip e = 0; e < total; e++) {
    ip rem = e, c[ND]; for (ip d = ond; d-- > 0;) { c[d] = rem % oshape[d]; rem /= oshape[d]; }
    ip src = 0, o = 0; for (int d = 0; d < ND; d++) { ip p = k[d] == 2 ? s[d] + c[o++] * st[d] : s[d]; src = src * shape[d] + p; }
    nd::array x = v; for (ip d = 0; d < ond; d++) x = x(c[d]);
    sym_assert(*(const int32_t *)x.cdata() == (int32_t)src, "element after indexing differs from the selected one");
  }
  sym_reach("ok");
}
SYM_ENTRY(dim2) { ip shape[2] = {2, (ip)sym_choice(sym_tier() ? 3 : 1, "n1") + 3}; nd_index<2>(shape); }
SYM_ENTRY(dim3) {
  ip shape[3] = {2, 3, 2};
  nd::array a = nd::empty(ndt::type("2 * 3 * 2 * int32")); for (ip i = 0; i < 12; i++) ((int32_t *)a.data())[i] = (int32_t)i;
  ip i0 = (ip)sym_u64("i0"), i1 = (ip)sym_u64("i1"), i2 = (ip)sym_u64("i2");
  int mask = sym_choice(8, "mask"); irange r[3] = {mask & 1 ? irange(i0) : irange(), mask & 2 ? irange(i1) : irange(), mask & 4 ? irange(i2) : irange()};
  nd::array v; int t = threw([&] { v = a(r[0], r[1], r[2]); });
  bool ok = (!(mask & 1) | ((i0 < 2) & (i0 >= -2))) & (!(mask & 2) | ((i1 < 3) & (i1 >= -3))) & (!(mask & 4) | ((i2 < 2) & (i2 >= -2)));
  if (t) { sym_reach("threw"); sym_assert(!ok, "valid index rejected"); return; }
  sym_assert(ok, "index outside a dimension accepted"); sym_reach("ok");
  ip off = (mask & 1 ? (i0 < 0 ? i0 + 2 : i0) * 6 : 0) + (mask & 2 ? (i1 < 0 ? i1 + 3 : i1) * 2 : 0) + (mask & 4 ? (i2 < 0 ? i2 + 2 : i2) : 0);
  sym_assert((ip)(v.cdata() - a.cdata()) == off * 4, "indexed view starts at another element");
  ip st[3] = {24, 8, 4}, got[3]; int o = 0; sym_assert(v.get_ndim() == 3 - __builtin_popcount(mask), "number of dimensions after indexing");
  if (v.get_ndim()) { v.get_strides(got); ip vs[3]; v.get_shape(vs); for (int d = 0; d < 3; d++) if (!(mask >> d & 1)) { sym_assert(got[o] == st[d] && vs[o] == shape[d], "layout of the remaining dimensions"); o++; } }
}
SYM_ENTRY(too_many) {
  nd::array a = ints1(3); irange r[2] = {irange((ip)sym_u64("i0")), irange((ip)sym_u64("i1"))};
  int t = threw([&] { nd::array v = a.at_array(2, r); }); sym_assert(t, "more indices than dimensions accepted"); sym_reach("threw");
}
static nd::array ints_var(ip n) {
  nd::array a = nd::empty(ndt::type("var * int32"));
  nd::array s = ints1(n); a.assign(s); return a;
}
SYM_ENTRY(var1) {
  ip n = sym_choice(3, "n") + 1, i = (ip)sym_u64("i"); nd::array a = ints_var(n), r;
  int t = threw([&] { r = a(i); }); bool in = (i < n) & (i >= -n);
  if (t) { sym_reach("threw"); sym_assert(!in, "valid index rejected"); return; }
  sym_reach("ok"); sym_assert(in, "index outside the dimension accepted");
  sym_assert(*(const int32_t *)r.cdata() == (int32_t)(100 + (i < 0 ? i + n : i)), "index refers to another element");
}
SYM_ENTRY(var_slice) {
  ip n = sym_choice(3, "n") + 1; nd::array a = ints_var(n);
  nd::array r = a(irange()); sym_assert(r.get_type() == ndt::type("var * int32") || r.get_type() == ndt::make_fixed_dim(n, ndt::make_type<int32_t>()), "type of the whole slice of a var dimension");
  sym_assert(r.get_dim_size() == n, "whole slice of a var dimension"); for (ip i = 0; i < n; i++) sym_assert(*(const int32_t *)r(i).cdata() == 100 + i, "whole slice selects other elements");
  ip start = (ip)sym_u64("start"), finish = (ip)sym_u64("finish"), step = (ip)(int8_t)sym_u8("step"); sym_assume(step != 0); ip s = 0, cnt = 0; nd::array v;
  int t = threw([&] { v = a(irange(start, finish, step)); });
  if (t) { sym_reach("threw"); return; }
  int k = resolve(n, start, finish, step, s, cnt); sym_assert(k == 2, "slice outside the dimension accepted"); sym_assert(v.get_dim_size() == cnt, "slice has a different number of elements"); sym_reach("ok");
  for (ip j = 0; j < cnt; j++) sym_assert(*(const int32_t *)v(j).cdata() == (int32_t)(100 + (i128)s + (i128)j * step), "slice element differs from the selected element");
}
SYM_ENTRY(twice) {
  ip n = 4; nd::array a = ints1(n); ip s0 = 0, c0 = 0, s1 = 0, c1 = 0;
  ip a0 = sym_choice(4, "a0"), st0 = sym_choice(2, "st0") ? 1 : -1, q0 = sym_choice(2, "q0") + 1;
  ip b0 = (ip)(int8_t)sym_u8("b0"), b1 = (ip)(int8_t)sym_u8("b1"), b2 = sym_choice(2, "b2") ? 1 : -2; sym_assume(b0 >= -4 && b0 <= 4 && b1 >= -4 && b1 <= 4);
  ip fin = st0 > 0 ? std::numeric_limits<ip>::max() : std::numeric_limits<ip>::max();
  nd::array v = a(irange(a0, fin, st0 * q0)); sym_assert(resolve(n, a0, fin, st0 * q0, s0, c0) == 2 && v.get_dim_size() == c0, "slice size");
  nd::array w; int t = threw([&] { w = v(irange(b0, b1, b2)); }); int k = resolve(c0, b0, b1, b2, s1, c1);
  sym_assert(t == (k == 0), "slice of a slice accepted or rejected wrongly"); if (t) return;
  sym_assert(w.get_dim_size() == c1, "slice of a slice has a different number of elements"); sym_reach("ok");
  for (ip j = 0; j < c1; j++) sym_assert(*(const int32_t *)w(j).cdata() == (int32_t)(100 + s0 + (s1 + j * b2) * st0 * q0), "slice of a slice selects another element");
}
SYM_ENTRY(tuple_field) {
  nd::array a = nd::empty(ndt::type("(int32, float64, int16)")); ip i = (ip)sym_u64("i"); nd::array r;
  int t = threw([&] { r = a(i); }); bool in = (i < 3) & (i >= -3);
  if (t) { sym_reach("threw"); sym_assert(!in, "valid field index rejected"); return; }
  sym_assert(in, "field index outside the tuple accepted"); sym_reach("ok");
  ip f = i < 0 ? i + 3 : i, off[] = {0, 8, 16}; sym_assert((ip)(r.cdata() - a.cdata()) == off[f], "field index refers to another field");
  sym_assert(r.get_type() == (f == 0 ? ndt::make_type<int32_t>() : f == 1 ? ndt::make_type<double>() : ndt::make_type<int16_t>()), "field index has another type");
}
