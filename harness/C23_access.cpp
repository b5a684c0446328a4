//@property C23
//@bound fourteen array types (built-in scalars, fixed and variable-sized dimensions of integers, strings, options and structs, tuples, structs, options), every content; arrays flagged read-only or immutable, as a view of writable memory or as a copy, seen through every chain of up to two out of eleven views
//@bound fourteen ways of writing; twenty ways of reading
//@entry writes reach=threw,ok
//@entry reads reach=ok
//@entry views reach=ok
//@entry copies reach=ok
//@entry scalars reach=threw
//@entry together reach=ok
#include "num.h"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/logic.hpp>
#include <dynd/option.hpp>
#include <dynd/string.hpp>
#include <dynd/limits.hpp>
#include <sstream>
#include <dynd/parse.hpp>
#include <dynd/access.hpp>
#include <dynd/sort.hpp>
#include <dynd/statistics.hpp>
#include <dynd/asarray.hpp>
#include <dynd/view.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef intptr_t ip; typedef unsigned char u8;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
static const char *const TN[] = {"int32", "3 * int32", "2 * 3 * int16", "2 * string", "var * int32", "?int32", "3 * ?int32", "{x: int32, y: string}", "2 * {x: int16, y: int16}", "(int32, 2 * int16)", "string", "float64", "2 * var * int16", "{x: 2 * int32, y: ?int32}"};
enum { NTY = 14 }; static ndt::type ty[NTY]; static nd::callable plus1;
static const uint64_t FL[] = {nd::read_access_flag, nd::read_access_flag | nd::immutable_access_flag, nd::read_access_flag | nd::write_access_flag};
// Every cell of an array as bytes, in order, by its own reading of the metadata
static void cells(const ndt::type &t, const char *am, const char *d, std::vector<std::pair<const char *, int>> &o) {
  switch (t.get_id()) {
  case fixed_dim_id: { auto *s = (const size_stride_t *)am; ndt::type e = t.extended<ndt::base_dim_type>()->get_element_type(); for (ip i = 0; i < s->dim_size; i++) cells(e, am + sizeof(size_stride_t), d + i * s->stride, o); return; }
  case var_dim_id: { auto *m = (const ndt::var_dim_type::metadata_type *)am; auto *v = (const ndt::var_dim_type::data_type *)d; ndt::type e = t.extended<ndt::base_dim_type>()->get_element_type(); o.push_back({d, 16}); for (size_t i = 0; i < v->size; i++) cells(e, am + sizeof *m, v->begin + m->offset + (ip)i * m->stride, o); return; }
  case tuple_id: { auto *x = t.extended<ndt::tuple_type>(); auto *off = (const uintptr_t *)am; for (ip i = 0; i < x->get_field_count(); i++) cells(x->get_field_type(i), am + x->get_arrmeta_offset(i), d + off[i], o); return; }
  case struct_id: { auto *x = t.extended<ndt::struct_type>(); auto *off = (const uintptr_t *)am; for (ip i = 0; i < x->get_field_count(); i++) cells(x->get_field_type(i), am + x->get_arrmeta_offset(i), d + off[i], o); return; }
  case string_id: { auto *s = (const dynd::string *)d; o.push_back({d, 16}); o.push_back({s->data(), (int)s->size()}); return; }
  default: o.push_back({d, (int)t.get_data_size()}); }
}
typedef std::vector<std::pair<const char *, int>> Cells;
static Cells of(const nd::array &a) { Cells o; cells(a.get_type(), a->metadata(), a.cdata(), o); return o; }
struct Snap { Cells c; std::vector<u8> b; };
static Snap snap(const nd::array &a) { Snap s; s.c = of(a); for (auto &x : s.c) for (int i = 0; i < x.second; i++) s.b.push_back(x.first[i]); return s; }
static bool unchanged(const Snap &s, const nd::array &a) { Cells n = of(a); if (n.size() != s.c.size()) return false; size_t k = 0; bool ok = true; for (size_t j = 0; j < n.size(); j++) { if (n[j].first != s.c[j].first || n[j].second != s.c[j].second) return false; for (int i = 0; i < n[j].second; i++) ok &= (u8)n[j].first[i] == s.b[k++]; } return ok; }
static void fill(const ndt::type &t, const char *am, char *d, bool native) {
  std::vector<std::pair<const char *, int>> o;
  if (t.get_id() == var_dim_id) { nd::array s = nd::empty(ndt::make_fixed_dim(3, t.extended<ndt::base_dim_type>()->get_element_type())); fill(s.get_type(), s->metadata(), s.data(), native); nd::array v = nd::make_array(t, d, nd::memory_block(), nd::readwrite_access_flags); t.extended()->arrmeta_copy_construct(v->metadata(), am, nd::memory_block()); v.assign(s); return; }
  if (t.get_id() == fixed_dim_id) { auto *s = (const size_stride_t *)am; for (ip i = 0; i < s->dim_size; i++) fill(t.extended<ndt::base_dim_type>()->get_element_type(), am + sizeof(size_stride_t), d + i * s->stride, native); return; }
  if (t.get_id() == tuple_id || t.get_id() == struct_id) { bool q = t.get_id() == tuple_id; int n = (int)(q ? t.extended<ndt::tuple_type>()->get_field_count() : t.extended<ndt::struct_type>()->get_field_count()); for (int i = 0; i < n; i++) { ndt::type e = q ? t.extended<ndt::tuple_type>()->get_field_type(i) : t.extended<ndt::struct_type>()->get_field_type(i); ip off = q ? t.extended<ndt::tuple_type>()->get_arrmeta_offset(i) : t.extended<ndt::struct_type>()->get_arrmeta_offset(i); fill(e, am + off, d + ((const uintptr_t *)am)[i], native); } return; }
  int n = t.get_id() == string_id ? 2 : (int)t.get_data_size(); char b[16] = "77"; if (!native) sym_make(b, n, "content"); if (t.get_id() == string_id) { for (int i = 0; i < 2; i++) b[i] = '0' + (b[i] & 7); ((dynd::string *)d)->assign(b, 2); } else { if (t.get_id() == option_id) b[3] &= 15; memcpy(d, b, n); }
}
static nd::array make(int t, bool native) { nd::array a = nd::empty(ty[t]); fill(ty[t], a->metadata(), a.data(), native); return a; }
// The same memory under other flags
static nd::array under(const nd::array &w, uint64_t f) { nd::array r = nd::make_array(w.get_type(), const_cast<char *>(w.cdata()), w.get_owner() ? w.get_owner() : (nd::memory_block)w, f); if (w.get_type().get_arrmeta_size() > 0) w.get_type().extended()->arrmeta_copy_construct(r->metadata(), w->metadata(), w); return r; }
enum { SAME, INDEX, SLICE, FIELD, AXES, NEWAX, VIEW, RESHAPE, SCALARS, DTYPE, STORAGE, NV };
static const char *const VN[] = {"", "index", "slice", "field", "permute", "new_axis", "old_view", "reshape", "view_scalars", "replace_dtype", "storage"};
// A view of a; null when it does not apply
static nd::array view(int v, const nd::array &a) {
  ndt::type t = a.get_type(); int id = t.get_id(), st = t.get_dtype().get_id();
  switch (v) {
  case SAME: return a; case INDEX: return id == fixed_dim_id || id == var_dim_id || id == tuple_id || id == struct_id ? a(0) : nd::array(); case SLICE: return id == fixed_dim_id ? a(irange().by(-1)) : nd::array(); case FIELD: return st == struct_id && t.get_strided_ndim() == t.get_ndim() ? a.p("y") : st == tuple_id && !t.get_ndim() ? a(1) : nd::array();
  case AXES: { if (t.get_strided_ndim() < 2) return nd::array(); ip ax[] = {1, 0}; return a.permute(2, ax); } case NEWAX: return a.new_axis(0); case VIEW: return nd::old_view(a, t);
  case RESHAPE: { if (t.get_ndim() != 1 || id != fixed_dim_id || !t.get_dtype().is_pod() || !t.get_dtype().is_builtin()) return nd::array(); auto *s = (const size_stride_t *)a->metadata(); if (s->stride != (ip)t.get_dtype().get_data_size()) return nd::array(); return nd::reshape(a, nd::array{(ip)1, (ip)s->dim_size}); }
  case SCALARS: { if (id != fixed_dim_id || t.get_ndim() != 1 || t.get_dtype().get_id() != int32_id) return nd::array(); return a.view_scalars(T("uint32")); } case DTYPE: return t.get_dtype().get_id() == int32_id ? a.replace_dtype(T("uint32")) : nd::array(); default: return t.get_dtype().is_builtin() && t.get_strided_ndim() == t.get_ndim() ? a.storage() : nd::array();
  }
}
enum { ASSIGN, ZERO, ASSIGNNA, DATA, ADD, SORT, PARSE, JSON, TAKE, APPLY, EQUAL, PART, SUM, CONCAT, NW };
static const char *const WN[] = {"assign an array", "assign a scalar", "assign_na", "data", "add into", "sort", "json::parse into", "parse_json into", "take into", "apply into", "compare into", "assign a part", "sum into", "string_concatenation into"};
// Writes something valid into a; false when this way does not apply to its type
static bool write(int w, const nd::array &a, const nd::array &other) {
  ndt::type t = a.get_type(), d = t.get_dtype(); int id = t.get_id(), did = d.get_id(); bool i32 = did == int32_id, fx = t.get_strided_ndim() == t.get_ndim();
  switch (w) {
  case ASSIGN: a.assign(other); return true;
  case ZERO: if (did == struct_id || did == tuple_id) return false; if (did == string_id) a.assign(nd::array("long text which does not fit")); else a.assign(nd::array(7)); return true;
  case ASSIGNNA: if (id != option_id) return false; a.assign_na(); return true; case DATA: { char *p = a.data(); if (id == int32_id) *(int *)p ^= 5; return true; }
  case ADD: if (!i32 || !fx) return false; nd::add({other, other}, {{"dst", a}}); return true; case SORT: if (id != fixed_dim_id || t.get_ndim() != 1 || !d.is_builtin()) return false; nd::sort(a); return true;
  case PARSE: return false;
  case JSON: { const char *s = id == int32_id ? "5" : id == fixed_dim_id && t.get_ndim() == 1 && i32 && a.get_dim_size() == 3 ? "[9, 8, 7]" : id == var_dim_id && i32 ? "[1, 2]" : id == string_id ? "\"written\"" : nullptr; if (!s) return false; nd::array q = a; parse_json(q, s); return true; }
  case TAKE: { if (id != fixed_dim_id || t.get_ndim() != 1 || !i32) return false; nd::array p = nd::empty(ndt::make_fixed_dim(a.get_dim_size(), ndt::make_type<ip>())); for (ip i = 0; i < a.get_dim_size(); i++) ((ip *)p.data())[i] = 0; nd::take({other, p}, {{"dst", a}}); return true; }
  case APPLY: if (!i32 || !fx) return false; plus1({other}, {{"dst", a}}); return true; case EQUAL: return false;
  case PART: if (id != fixed_dim_id && id != struct_id && id != tuple_id) return false; a(0).assign(other(0)); return true;
  case SUM: if (id != int32_id) return false; { nd::array v = nd::empty(T("3 * int32")); for (int i = 0; i < 3; i++) ((int *)v.data())[i] = i + 1; nd::sum({v}, {{"dst", a}}); } return true;
  case CONCAT: if (id != string_id) return false; nd::string_concatenation({nd::array("ab"), nd::array("cd")}, {{"dst", a}}); return true;
  }
  return false;
}
extern "C" void sym_setup() {
  num_setup(); for (int i = 0; i < NTY; i++) ty[i] = T(TN[i]); plus1 = nd::functional::elwise(nd::functional::apply([](int32_t x) { return x + 1; }));
  for (int t = 0; t < NTY; t++) { for (int v = 0; v < NV; v++) for (int w = 0; w < NW; w++) threw([&] { nd::array a = make(t, true), o = make(t, true), x = view(v, a), y = view(v, o); if (!x.is_null()) write(w, x, y); }); nd::array a = make(t, true); threw([&] { a.eval_copy(nd::read_access_flag); }); threw([&] { format_json(a); }); }
}
SYM_ENTRY(writes) {
  int t = sym_choice(NTY, "type"), v = sym_choice(NV, "view"), v2 = sym_tier() ? sym_choice(NV, "second view") : SAME, f = sym_choice(3, "flags"), w = sym_choice(NW, "write"); if (w == PARSE || w == EQUAL) return; nd::array a = make(t, false), o = make(t, false), x, y; if (f == 2 && (v != SAME || v2 != SAME)) return;
  nd::array r = under(a, FL[f]); int e = threw([&] { x = view(v, r); y = view(v, o); if (!x.is_null()) { x = view(v2, x); y = view(v2, y); } }); sym_assert(!e, msg("a view of an array that is not writable raises: ", VN[v], " of ", TN[t])); if (e || x.is_null()) return;
  sym_assert(x.get_flags() == FL[f], msg("a view has other access: ", VN[v], " of ", TN[t])); Snap s = snap(a); bool did = true; e = threw([&] { did = write(w, x, y); }); if (!did) return;
  if (f == 2) { sym_assert(!e, msg("a writable array is refused: ", WN[w], " ", TN[t])); sym_reach("ok"); return; }
  sym_assert(e, msg("an array that is not writable is written: ", WN[w], " ", VN[v], " of ", TN[t])); sym_assert(unchanged(s, a), msg("a refused write changes the array: ", WN[w], " ", VN[v], " of ", TN[t])); sym_reach("threw");
}
SYM_ENTRY(views) { // chains of views keep the access and the elements
  int t = sym_choice(NTY, "type"), v = sym_choice(NV, "view"), v2 = sym_choice(NV, "second view"), f = sym_choice(3, "flags"); nd::array a = make(t, false), r = under(a, FL[f]), x, y, z; int e = threw([&] { x = view(v, a); if (!x.is_null()) x = view(v2, x); }), k = threw([&] { y = view(v, r); if (!y.is_null()) y = view(v2, y); });
  sym_assert(e == k && x.is_null() == y.is_null(), msg("a view of an array that is not writable raises: ", VN[v], " ", VN[v2], " of ", TN[t])); if (e || k || x.is_null() || y.is_null()) return; sym_assert(y.get_flags() == FL[f], msg("a view has other access: ", VN[v], " ", VN[v2], " of ", TN[t])); sym_assert(x.get_type() == y.get_type() && of(x) == of(y), msg("a view of an array that is not writable selects other elements: ", VN[v], " of ", TN[t]));
  Cells c = of(a), d = of(y); for (auto &p : d) { bool in = false; for (auto &q : c) in |= p.first >= q.first && p.first + p.second <= q.first + q.second; sym_assert(in, msg("a view copies: ", VN[v], " ", VN[v2], " of ", TN[t])); } sym_reach("ok");
}
// Headers of strings and variable-sized dimensions hold addresses and are not compared
static bool equal_at(const ndt::type &t, const char *am, const char *d, const char *bm, const char *c) {
  if (t.get_ndim() && t.get_id() == fixed_dim_id) { auto *s = (const size_stride_t *)am, *q = (const size_stride_t *)bm; if (s->dim_size != q->dim_size) return false; bool ok = true; for (ip i = 0; i < s->dim_size; i++) ok &= equal_at(t.extended<ndt::base_dim_type>()->get_element_type(), am + 16, d + i * s->stride, bm + 16, c + i * q->stride); return ok; }
  Cells x, y; cells(t, am, d, x); cells(t, bm, c, y); if (x.size() != y.size()) return false; bool ok = true; for (size_t j = 0; j < x.size(); j++) { if (x[j].second != y[j].second) return false; if (x[j].second == 16) continue; for (int i = 0; i < x[j].second; i++) ok &= x[j].first[i] == y[j].first[i]; } return ok;
}
static bool equal_cells(const nd::array &a, const nd::array &b) { return a.get_type() == b.get_type() && equal_at(a.get_type(), a->metadata(), a.cdata(), b->metadata(), b.cdata()); }
SYM_ENTRY(copies) { // copies have the requested access, hold the same and share nothing
  int t = sym_choice(NTY, "type"), f = sym_choice(3, "flags"), how = sym_choice(7, "how"); nd::array a = make(t, false), r = under(a, FL[f]), c; uint64_t want = how == 1 ? 5 : how == 2 ? 5 : 3; Snap s = snap(a);
  int e = threw([&] { switch (how) { case 0: c = r.eval_copy(); break; case 1: c = r.eval_copy(nd::read_access_flag); break; case 2: c = r.eval_copy(nd::read_access_flag | nd::immutable_access_flag); break; case 3: c = r.eval_copy(nd::readwrite_access_flags); break; case 4: c = nd::empty(r.get_type()); c.assign(r); break; case 5: c = r.to_host(); break; default: c = r.eval(); } });
  sym_assert(!e, msg("a copy of an array that is not writable raises: ", TN[t])); if (e) return; if (how == 6) { sym_assert(c.get() == r.get(), "eval is another array"); sym_reach("ok"); return; }
  sym_assert(c.get_flags() == want, msg("a copy has another access: ", TN[t])); sym_assert(equal_cells(a, c), msg("a copy holds something else: ", TN[t])); Cells x = of(a), y = of(c); for (auto &p : y) for (auto &q : x) sym_assert(p.second == 0 || p.first + p.second <= q.first || q.first + q.second <= p.first, msg("a copy shares memory: ", TN[t])); sym_assert(unchanged(s, a), msg("copying changes the source: ", TN[t]));
  nd::array o = make(t, false); e = threw([&] { c.assign(o); }); sym_assert(e == (want == 5), msg("writing to a copy is refused or accepted wrongly: ", TN[t])); sym_assert(unchanged(s, a), msg("writing to a copy changes the source: ", TN[t])); sym_reach("ok");
}
static nd::array get(int w, const nd::array &a) {
  switch (w) { case 0: return a + a; case 1: return a == a; case 2: return nd::sum(a); case 3: return nd::take(a, nd::array{(ip)1}); case 4: return nd::is_na(a); case 5: return format_json(a); case 6: return plus1(a); case 7: return nd::max(a); case 8: return a < a; case 9: return nd::functional::outer(nd::add)(a, a); case 10: { nd::array r = nd::empty(a.get_type()); r.assign(a); return r; } case 11: return nd::asarray(a, a.get_type()); case 12: return nd::all(a == a); case 13: return nd::array(a.equals_exact(a)); case 14: { std::stringstream s; s << a; return nd::array(s.str()); } case 15: return nd::string_concatenation(a, a); case 16: return nd::old_view(a, T("3 * int32")); case 17: return a(irange(0, 1)); case 18: return nd::tuple({a, a}); default: return a.as<int>(); }
}
SYM_ENTRY(reads) { // reading gives what it gives for a writable array
  static const int TT[] = {0, 1, 2, 3, 5, 6, 10}; int t = TT[sym_choice(7, "type")], w = sym_choice(20, "read"), f = sym_choice(2, "flags"); if (w == 14 || w == 5) { if (t != 3 && t != 10) return; } nd::array a = make(t, false), r = under(a, FL[f]), x, y; Snap s = snap(a); int e = threw([&] { x = get(w, a); }), k = threw([&] { y = get(w, r); });
  sym_assert(e == k, msg("reading an array that is not writable raises or not unlike a writable one: ", TN[t])); sym_assert(unchanged(s, a), msg("reading changes the array: ", TN[t])); if (e || k) return; sym_assert(x.get_type() == y.get_type() && equal_cells(x, y), msg("reading an array that is not writable gives something else: ", TN[t])); sym_reach("ok");
}
SYM_ENTRY(scalars) { // made from C++ scalars they are immutable
  int w = sym_choice(6, "type"); nd::array a; int64_t v = 0; sym_make(&v, 8, "v"); char b[8]; switch (w) { case 0: a = nd::array((int32_t)v); break; case 1: a = nd::array((int8_t)v); break; case 2: a = nd::array(v); break; case 3: { double d; memcpy(&d, &v, 8); a = nd::array(d); break; } case 4: a = nd::array((v & 1) != 0); break; default: a = nd::array((uint16_t)v); }
  int z = (int)a.get_type().get_data_size(); memcpy(b, a.cdata(), z); bool im = a.is_immutable(); if (im) { sym_assert(threw([&] { a.assign(nd::array(1)); }), "an immutable scalar is written"); sym_assert(threw([&] { a.data(); }), "the memory of an immutable scalar is handed out for writing"); sym_assert(!memcmp(b, a.cdata(), z), "an immutable scalar changes"); sym_reach("threw"); }
}
SYM_ENTRY(together) { // a tuple of arrays has the access all of them have
  int f = sym_choice(3, "first"), g = sym_choice(3, "second"), t = 1 + sym_choice(3, "type"); nd::array a = make(t, false), b = make(t, false), q[2] = {under(a, FL[f]), under(b, FL[g])}, r; Snap s = snap(a), u = snap(b); int e = threw([&] { r = nd::combine_into_tuple(2, q); }); sym_assert(!e, "a tuple of arrays that are not writable raises"); if (e) return; sym_assert(r.get_flags() == (FL[f] & FL[g]), "a tuple of arrays has another access");
  e = threw([&] { r.data(); }); sym_assert(e == (f != 2 || g != 2), "the memory of a tuple of arrays is handed out wrongly"); sym_assert(unchanged(s, a) && unchanged(u, b), "combining changes the arrays"); nd::array p[2]; e = threw([&] { for (int i = 0; i < 2; i++) p[i] = r(i); }); sym_assert(!e, "an element of a tuple of arrays raises"); sym_reach("ok");
}
