//@property C21
//@bound histories of up to three operations (four at depth) out of 14 (index, slice, field, copy, eval_copy, assignment, refused assignment, writing, dropping, sharing, exchanging, indexing a temporary, moving axes, viewing) on two handles over 15 array types with strings, bytes, options, tuples, structs, fixed and variable-sized dimensions and their nestings, every content
//@bound arrays of up to 300 elements of 12 types, created, filled, assigned, sliced and dropped, with heap memory compared before and after
//@bound up to three arrays, whole or views of a larger one, put into a tuple; up to three fields of a struct
//@bound results of 24 callables and refused calls; heap memory compared before and after
//@entry history reach=ok
//@entry histories reach=ok
//@entry calls reach=ok
//@entry many reach=ok
//@entry refused reach=threw
//@entry combined reach=ok
#include "num.h"
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/var_dim_type.hpp>
#include <dynd/types/pointer_type.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/option.hpp>
#include <dynd/parse.hpp>
#include <dynd/range.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
#include <dynd/statistics.hpp>
#include <dynd/string.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/view.hpp>
#include <map>
typedef intptr_t ip; typedef unsigned char u8;
static ndt::type T(const char *s) { return ndt::type(std::string(s)); }
struct Leaf { const char *p; int kind; }; enum { INT, STR, BYT, OPT };
// Every leaf of an array in order, found by its own reading of the metadata.
static bool leaves(const ndt::type &t, const char *am, const char *d, std::vector<Leaf> &o) {
  switch (t.get_id()) {
  case int32_id: o.push_back({d, INT}); return true;
  case string_id: o.push_back({d, STR}); return true;
  case bytes_id: o.push_back({d, BYT}); return true;
  case option_id: o.push_back({d, OPT}); return t.extended<ndt::option_type>()->get_value_type().get_id() == string_id;
  case fixed_dim_id: { auto *s = (const size_stride_t *)am; ndt::type e = t.extended<ndt::base_dim_type>()->get_element_type(); for (ip i = 0; i < s->dim_size; i++) if (!leaves(e, am + sizeof(size_stride_t), d + i * s->stride, o)) return false; return true; }
  case var_dim_id: { auto *m = (const ndt::var_dim_type::metadata_type *)am; auto *v = (const ndt::var_dim_type::data_type *)d; ndt::type e = t.extended<ndt::base_dim_type>()->get_element_type(); if (!v->begin) return false; for (size_t i = 0; i < v->size; i++) if (!leaves(e, am + sizeof(*m), v->begin + m->offset + i * m->stride, o)) return false; return true; }
  case tuple_id: { auto *x = t.extended<ndt::tuple_type>(); auto *off = (const uintptr_t *)am; for (ip i = 0; i < x->get_field_count(); i++) if (!leaves(x->get_field_type(i), am + x->get_arrmeta_offset(i), d + off[i], o)) return false; return true; }
  case struct_id: { auto *x = t.extended<ndt::struct_type>(); auto *off = (const uintptr_t *)am; for (ip i = 0; i < x->get_field_count(); i++) if (!leaves(x->get_field_type(i), am + x->get_arrmeta_offset(i), d + off[i], o)) return false; return true; }
  default: return false;
  }
}
static bool leaves(const nd::array &a, std::vector<Leaf> &o) { o.clear(); return leaves(a.get_type(), a->metadata(), a.cdata(), o); }
struct Val { int len; u8 b[2]; };
static u8 sink;
static bool same(const Leaf &l, const Val &v) {
  if (l.kind == INT) return *(const uint16_t *)l.p == (v.b[0] | v.b[1] << 8);
  auto *s = (const dynd::string *)l.p; if ((int)s->size() != v.len) return false; auto *q = (const u8 *)s->data(); bool ok = true; for (int i = 0; i < v.len; i++) ok &= q[i] == (i < 2 ? v.b[i] : 'q'); return ok;
}
static int serial;
static Val fresh(bool native) { static const int L[] = {2, 20, 0, 1, 33, 15}; Val v; v.len = L[serial++ % 6]; for (int i = 0; i < 2; i++) v.b[i] = native ? 'z' : (u8)(sym_u8("content") & 127); return v; }
static void put(const Leaf &l, const Val &v) {
  char b[40]; memset(b, 'q', 40); b[0] = v.b[0]; b[1] = v.b[1]; if (l.kind == INT) { *(int32_t *)l.p = v.b[0] | v.b[1] << 8; return; }
  if (l.kind == BYT) ((dynd::bytes *)l.p)->assign(b, v.len); else ((dynd::string *)l.p)->assign(b, v.len);
}
static const char *const TY[][2] = {{"2 * string", 0}, {"2 * {x: string, y: bytes}", 0}, {"var * string", "2 * string"}, {"(string, 2 * string)", 0}, {"2 * ?string", 0}, {"string", 0}, {"var * {x: string, y: var * string}", "2 * {x: string, y: 1 * string}"}, {"2 * var * string", "2 * 2 * string"}, {"{x: 2 * {x: bytes, y: int32}, y: string}", 0}, {"var * var * int32", "2 * 1 * int32"}, {"3 * int32", 0}, {"var * (bytes, var * int32)", "2 * (bytes, 2 * int32)"}, {"0 * string", 0}, {"2 * 2 * string", 0}, {"(var * string, {x: ?string, y: 2 * bytes})", "(2 * string, {x: ?string, y: 2 * bytes})"}};
static const int NTY = 15; static ndt::type ty[NTY][2], bad, it;
struct Handle { nd::array a; bool init; };
static std::map<const char *, Val> *shadow;
static void sync(const nd::array &a, bool native) { std::vector<Leaf> l; leaves(a, l); for (auto &x : l) { Val v = fresh(native); put(x, v); (*shadow)[x.p] = v; } }
static nd::array make(int t, bool native) { nd::array a = nd::empty(ty[t][0]); if (TY[t][1]) { nd::array s = nd::empty(ty[t][1]); std::vector<Leaf> l; leaves(s, l); for (auto &x : l) put(x, fresh(true)); a.assign(s); } sync(a, native); return a; }
static void verify(const nd::array &a, const char *what) { if (a.is_null()) return; std::vector<Leaf> l; if (!leaves(a, l)) return; bool ok = true; for (auto &x : l) { auto i = shadow->find(x.p); if (i == shadow->end()) { sym_assert(0, msg(what, ": an element where none was stored")); return; } ok &= same(x, i->second); } sym_assert(ok, msg(what, ": an element changed")); }
static bool inside(const nd::array &v, const nd::array &a) { std::vector<Leaf> x, y; leaves(v, x); leaves(a, y); for (auto &i : x) { bool f = false; for (auto &j : y) f |= i.p == j.p; if (!f) return false; } return true; }
enum { INDEX, SLICE, FIELD, COPY, EVAL, ASSIGN, REFUSED, WRITE, DROP, SHARE, SWAP, TEMP, AXES, VIEW, NOP };
static const char *const OP[] = {"index", "slice", "field", "copy", "eval_copy", "assign", "refused assign", "write", "drop", "share", "swap", "temporary", "axes", "view"};
static nd::array field(const nd::array &a) { ndt::type t = a.get_type(); return t.get_dtype().get_id() == struct_id ? a.p("y") : t.get_id() == tuple_id ? a(1) : nd::array(); }
// One operation; false when it does not apply.
static bool apply(int op, nd::array &A, nd::array &B, bool native) {
  if (op == SWAP) { std::swap(A, B); return true; } if (op == DROP) { if (A.is_null()) return false; A = nd::array(); return true; } if (A.is_null()) return false;
  int id = A.get_type().get_id(), e; nd::array r; std::vector<Leaf> l, k;
  switch (op) {
  case INDEX: if (id != fixed_dim_id && id != var_dim_id && id != tuple_id) return false; e = threw([&] { r = A(0); }); if (id == fixed_dim_id && A.get_dim_size() == 0) { if (!native) sym_assert(e, "index of an empty dimension"); return true; } if (!native) { sym_assert(!e, "index raises"); sym_assert(inside(r, A), "index is not a view"); } B = r; return true;
  case SLICE: if (id != fixed_dim_id) return false; e = threw([&] { r = A(irange().by(-1)); }); if (!native) { sym_assert(!e, "slice raises"); sym_assert(inside(r, A), "slice is not a view"); } B = r; return true;
  case FIELD: e = threw([&] { r = field(A); }); if (e || r.is_null()) return false; if (!native) sym_assert(inside(r, A), "field is not a view"); B = r; return true;
  case AXES: if (id != fixed_dim_id) return false; e = threw([&] { r = A.new_axis(0); if (A.get_ndim() > 1) { ip ax[3] = {1, 2, 0}; r = r.permute(3, ax); } }); if (e) return false; if (!native) sym_assert(inside(r, A), "a permuted array is not a view"); B = r; return true;
  case VIEW: e = threw([&] { r = nd::old_view(A, A.get_type()); }); if (e || r.is_null()) return false; if (!native) sym_assert(inside(r, A), "a view is not a view"); B = r; return true;
  case TEMP: if (id != fixed_dim_id) return false; e = threw([&] { nd::array t = A; A = nd::array(); r = t(irange())(irange().by(1)); }); if (!native) sym_assert(!e, "slice raises"); B = r; return true;
  case COPY: case EVAL: leaves(A, k); e = threw([&] { if (op == COPY) { r = nd::empty(A.get_type()); r.assign(A); } else r = A.eval_copy(); }); if (!native) sym_assert(!e, msg(OP[op], " raises")); if (e) return true; leaves(r, l); if (l.size() != k.size()) { if (!native) sym_assert(0, msg(OP[op], ": another number of elements")); return true; } for (size_t i = 0; i < l.size(); i++) { for (auto &y : k) if (l[i].p == y.p && !native) sym_assert(0, msg(OP[op], ": shares an element")); (*shadow)[l[i].p] = (*shadow)[k[i].p]; } B = r; return true;
  case ASSIGN: { if (B.is_null() || A.get() == B.get()) return false; leaves(A, k); leaves(B, l); if (A.get_type() != B.get_type() || k.size() != l.size()) return false; for (auto &x : l) for (auto &y : k) if (x.p == y.p) return false; e = threw([&] { B.assign(A); }); if (!native) sym_assert(!e, "assignment raises"); leaves(B, l); if (l.size() != k.size()) { if (!native) sym_assert(0, "assignment: another number of elements"); return true; } for (size_t i = 0; i < l.size(); i++) (*shadow)[l[i].p] = (*shadow)[k[i].p]; return true; }
  case REFUSED: { nd::array x = nd::empty(bad); e = threw([&] { A.assign(x); }); if (!native) sym_assert(e, "a struct is assigned to something else"); return true; }
  case WRITE: sync(A, native); return true;
  case SHARE: B = A; return true;
  }
  return false;
}
static void run(int t, const int *op, int n, bool native) {
  nd::array A = make(t, native), B; for (int i = 0; i < n; i++) { if (!apply(op[i], A, B, native)) break; if (!native) { verify(A, OP[op[i]]); verify(B, OP[op[i]]); } } if (!native) { A = nd::array(); verify(B, "drop"); }
}
static nd::array strs, strs2, opts, i32, json_v; static nd::callable comp, appl, outr, whr;
static nd::array call(int w) {
  switch (w) {
  case 0: return nd::string_concatenation(strs, strs2); case 1: return nd::string_replace(strs, strs2, strs); case 2: return nd::string_split(strs, strs2(0)); case 3: return nd::is_na(opts); case 4: return opts + opts; case 5: return i32 + opts; case 6: return opts < i32; case 7: return strs < strs2; case 8: return strs == strs2; case 9: return nd::take(strs, nd::array{(ip)1, (ip)0}); case 10: return nd::sum(i32); case 11: return nd::range(nd::array(4)); case 12: return nd::json::parse(it, "17");
  case 13: { nd::array r = nd::empty(T("var * {x: string, y: ?int32}")); parse_json(r, "[{\"x\": \"a text long enough for the heap\", \"y\": null}, {\"y\": 3, \"x\": \"\"}]"); return r; } case 14: return format_json(strs); case 15: return comp(strs); case 16: return appl(i32); case 17: return outr(strs, strs2); case 18: return nd::take(i32, nd::array{true, false, true}); case 19: return whr(i32); case 20: { nd::array r = nd::empty(T("2 * int32")); r.assign(strs); return r; } case 21: return nd::max(i32); case 22: return strs2.eval_copy(); default: return nd::logical_not(i32);
  }
}
static const char *const CN[] = {"string_concat", "string_replace", "string_split", "is_na", "option sum", "mixed option sum", "option comparison", "string comparison", "string equality", "take", "sum", "range", "json::parse", "parse_json", "format_json", "compose", "apply", "outer", "take by mask", "where", "parse integers", "max", "eval_copy", "logical_not"};
static void many_(int w, int n, int var, int form, bool native); static void combined_(int n, const int *kind, int form, const u8 *c, bool native);
extern "C" void sym_setup() {
  num_setup(); for (int i = 0; i < NTY; i++) for (int j = 0; j < 2; j++) if (TY[i][j]) ty[i][j] = T(TY[i][j]); bad = T("{no: 2 * int32, such: string, names: float64}"); it = T("int32");
  strs = nd::empty(T("2 * string")); strs2 = nd::empty(T("2 * string")); for (int i = 0; i < 2; i++) { ((dynd::string *)strs.data())[i].assign("12", 2); ((dynd::string *)strs2.data())[i].assign(i ? "12345678901234567890" : "2", i ? 20 : 1); } opts = nd::empty(T("3 * ?int32")); i32 = nd::empty(T("3 * int32")); for (int i = 0; i < 3; i++) ((int *)opts.data())[i] = i == 1 ? (int)0x80000000 : i, ((int *)i32.data())[i] = i;
  comp = nd::functional::elwise(nd::functional::compose(nd::assign, nd::functional::apply([](dynd::string s) { return (int64_t)s.size(); }), T("string"))); appl = nd::functional::elwise(nd::functional::apply([](int32_t x) { return x + 1; })); whr = nd::functional::where(nd::functional::apply([](int32_t x) { return x < 2; })); outr = nd::functional::outer(nd::functional::apply([](dynd::string a, dynd::string b) { return a + b; }));
  shadow = new std::map<const char *, Val>; for (int t = 0; t < NTY; t++) for (int a = 0; a < NOP; a++) for (int b = 0; b < NOP; b++) { int o[2] = {a, b}; run(t, o, 2, true); } shadow->clear();
  { u8 c[3] = {1, 2, 3}; for (int n = 1; n < 4; n++) for (int f = 0; f < 2; f++) for (int r = 0; r < 2; r++) for (int k = 0; k < 27; k++) { int q[3] = {k % 3, k / 3 % 3, k / 9}; combined_(n, q, f, c, true); } }
  for (int w = 0; w < 12; w++) for (int f = 0; f < 5; f++) many_(w, 3, f == 4, f & 3, true), many_(w, 3, f == 4, f == 4 ? 1 : f, true);
  for (int w = 0; w < 24; w++) { int k = threw([&] { call(w); }); if (k) fprintf(stderr, "[setup] call %s raises\n", CN[w]); }
}
static void history_(int t, int n) {
  int op[5]; uint64_t h0 = sym_heap(); { std::map<const char *, Val> m; shadow = &m; nd::array A = make(t, false), B; for (int i = 0; i < n; i++) { op[i] = sym_choice(NOP, "operation"); if (i && op[i] == SWAP && op[i - 1] == SWAP) return; if (!apply(op[i], A, B, false)) return; verify(A, OP[op[i]]); verify(B, OP[op[i]]); } A = nd::array(); verify(B, "drop"); } sym_assert(sym_heap() == h0, msg("memory is not released: ", TY[t][0], ", last ", OP[op[n - 1]])); sym_reach("ok");
}
SYM_ENTRY(history) { int t = sym_choice(NTY, "type"); history_(t, sym_tier() ? 3 : 2); }
SYM_ENTRY(histories) { static const int q[] = {1, 6, 14, 7, 8}; history_(q[sym_choice(sym_tier() ? 5 : 3, "type")], sym_tier() ? 4 : 3); }
SYM_ENTRY(calls) {
  int w = sym_choice(24, "call"); uint64_t h0 = sym_heap(); int e = threw([&] { nd::array r = call(w); sink += r.is_null(); }); (void)e; sym_assert(sym_heap() == h0, msg("memory is not released: ", CN[w])); sym_reach("ok");
}
SYM_ENTRY(refused) {
  int w = sym_choice(8, "call"); uint64_t h0 = sym_heap(); int e = threw([&] { switch (w) { case 0: strs(5); break; case 1: i32 + strs; break; case 2: nd::take(strs, nd::array{(ip)7}); break; case 3: { nd::array r = nd::empty(T("var * {x: string, y: int32}")); parse_json(r, "[{\"x\": \"a text long enough for the heap\", \"y\": 1}, {\"y\": 3, \"x\": \"another text long enough\", \"y\": \"no\"}]"); break; } case 4: { nd::array r = nd::empty(T("3 * int32")); r.assign(strs); break; } case 5: T("2 * {x: int32, y: 3 * }"); break; case 6: i32(irange(0, 2)) + i32; break; default: { nd::array r = nd::empty(T("2 * int32")); nd::array s = nd::empty(T("2 * string")); ((dynd::string *)s.data())[0].assign("a text which is not a number at all", 35); r.assign(s); } } }); sym_assert(e, "the call is accepted"); sym_assert(sym_heap() == h0, "memory is not released when a call raises"); sym_reach("threw");
}
// Large arrays: every chunk of elements is released, and copied, once.
static const char *const MT[] = {"string", "{a: int32, b: string}", "(string, int32)", "bytes", "?string", "2 * string", "{a: {b: string, c: int32}, d: bytes}", "((string, int32), string)", "{a: 2 * string}", "(2 * {x: string})", "{a: ?string, b: int32}", "(bytes, ?string)"};
static const int MN[] = {1, 127, 128, 129, 256, 257, 300}; static const int NMT = 12, NMN = 7;
static void many_(int w, int n, int var, int form, bool native) {
  ndt::type e = T(MT[w]), t = ndt::make_fixed_dim(n, e); nd::array a = nd::empty(t), r; std::vector<Leaf> l, k; leaves(a, l); u8 c = native ? 1 : (u8)(sym_u8("content") & 127); for (size_t i = 0; i < l.size(); i++) { Val v; v.len = i % 5 == 0 ? 40 : 20; v.b[0] = (u8)i; v.b[1] = c; if (!native || i % 3) put(l[i], v); else put(l[i], v); }
  if (form == 1) { r = nd::empty(var ? ndt::make_type<ndt::var_dim_type>(e) : t); r.assign(a(irange().by(-1))); } else if (form == 2) r = a(irange(n / 2, n)).eval_copy(); else if (form == 3) { r = nd::empty(ndt::make_fixed_dim(n, ndt::make_fixed_dim(2, e))); r = r(irange(), 1); r.assign(a); }
  if (native || r.is_null()) return; leaves(r, k); size_t q = l.size() / n, m = form == 2 ? n - n / 2 : n; sym_assert(k.size() == m * q, "another number of elements"); if (k.size() != m * q) return; bool ok = true; for (size_t i = 0; i < k.size(); i++) { size_t j = form == 1 ? (n - 1 - i / q) * q + i % q : form == 2 ? i + (n / 2) * q : i; Val v; v.len = j % 5 == 0 ? 40 : 20; v.b[0] = (u8)j; v.b[1] = c; ok &= same(k[i], v); } sym_assert(ok, msg("an element of a large array changes: ", MT[w]));
}
SYM_ENTRY(many) {
  int w = sym_choice(NMT, "type"), n = MN[sym_choice(NMN, "size")], form = sym_choice(4, "form"), var = form == 1 ? sym_choice(2, "var") : 0; uint64_t h0 = sym_heap(); many_(w, n, var, form, false); sym_assert(sym_heap() == h0, msg("memory of a large array is not released: ", MT[w])); sym_reach("ok");
}
// A tuple or struct of arrays keeps each of them alive.
static void combined_(int n, const int *kind, int form, const u8 *c, bool native) {
  nd::array t; {
    nd::array f[3]; for (int i = 0; i < n; i++) {
      if (kind[i] == 0) { f[i] = nd::empty(T("3 * int32")); for (int j = 0; j < 3; j++) ((int32_t *)f[i].data())[j] = c[i] + 10 * j; }
      else if (kind[i] == 1) { nd::array b = nd::empty(T("5 * int32")); for (int j = 0; j < 5; j++) ((int32_t *)b.data())[j] = c[i] + 10 * (j - 1); f[i] = b(irange(1, 4)); }
      else { f[i] = nd::empty(T("int32")); *(int32_t *)f[i].data() = c[i]; }
    }
    std::pair<const char *, nd::array> q[3] = {{"a", f[0]}, {"b", f[1]}, {"c", f[2]}}; t = form == 1 ? nd::as_struct(n, q) : nd::combine_into_tuple(n, f);
  }
  if (native) return; auto rd = [](const nd::array &x) { if (x.get_type().get_id() != pointer_id) return *(const int32_t *)x.cdata(); return *(const int32_t *)(*(const char *const *)x.cdata() + ((const pointer_type_arrmeta *)x->metadata())->offset); };
  bool ok = true; for (int i = 0; i < n; i++) { nd::array x = t(i); if (kind[i] == 2) ok &= rd(x) == c[i]; else for (int j = 0; j < 3; j++) ok &= rd(x(j)) == c[i] + 10 * j; }
  sym_assert(ok, "a field of arrays put together changes");
}
SYM_ENTRY(combined) {
  int n = sym_choice(3, "n") + 1, kind[3] = {}, form = sym_choice(2, "form"); for (int i = 0; i < n; i++) kind[i] = sym_choice(3, "kind"); u8 c[3]; sym_make(c, 3, "c"); uint64_t h0 = sym_heap(); combined_(n, kind, form, c, false); sym_assert(sym_heap() == h0, "memory of arrays put together is not released"); sym_reach("ok");
}
