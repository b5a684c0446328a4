//@property C18
//@bound tuples and structs of 1 to 4 fields out of ten field types (integers, float64, complex, string, fixed, nested tuple, nested struct, variable-sized), every field content; slices of fields with every start, finish and step, with a further index into fields of fixed dimensions
//@bound assignment into views of one field of up to three records in fixed and variable-sized dimensions; assignment between 18 pairs of field types, structs with every order of up to four names, up to 14 fields, nested, inside fixed and variable-sized dimensions and from reversed or sliced sources
//@entry layout reach=ok
//@entry access reach=ok,threw
//@entry slices reach=ok,threw
//@entry slice_then_index reach=ok,threw
//@entry rows reach=ok
//@entry assign_tuple reach=ok,threw
//@entry assign_struct reach=ok
//@entry assign_names reach=ok,threw
//@entry many_fields reach=ok
//@entry dim_fields reach=ok
//@entry nested reach=ok
//@entry in_dims reach=ok
//@entry strings reach=ok
//@entry meta_fields reach=ok
//@entry into_views reach=ok
#include "num.h"
#include <dynd/types/struct_type.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef unsigned char u8; typedef std::vector<ndt::type> TV; typedef std::vector<std::string> SV; typedef intptr_t ip;
enum { K8, K16, K32, K64, FD, FC, FS, FA, FT, FX, NF };
static const int fsz[NF] = {1, 2, 4, 8, 8, 16, 16, 6, 16, 8}, fal[NF] = {1, 2, 4, 8, 8, 8, 8, 2, 8, 4};
static ndt::type ft[NF], ti, ts;
static const char *const nm[] = {"x", "y", "zz", "z", "f 4", "x1", "", "long_field_name_number_seven", "i", "j", "k", "l", "m", "n"};
extern "C" void sym_setup() {
  num_setup(); ti = ndt::make_type<int32_t>(); ts = ndt::make_type<dynd::string>(); ndt::type t[NF] = {ndt::make_type<int8_t>(), ndt::make_type<int16_t>(), ti, ndt::make_type<int64_t>(), ndt::make_type<double>(), ndt::make_type<dynd::complex<double>>(), ts, ndt::make_fixed_dim(3, ndt::make_type<int16_t>()), ndt::make_type<ndt::tuple_type>({ndt::make_type<int8_t>(), ndt::make_type<int64_t>()}), ndt::make_type<ndt::struct_type>(SV{"p", "q"}, TV{ndt::make_type<uint8_t>(), ti})};
  for (int i = 0; i < NF; i++) ft[i] = t[i]; nd::array a = nd::empty(ndt::make_type<ndt::struct_type>(SV{"x"}, TV{ti})); *(int *)a.data() = 1; a.p("x"); nd::empty(a.get_type()).assign(a);
}
static ndt::type make(bool st, const TV &f, const SV *names = NULL) { if (!st) return ndt::make_type<ndt::tuple_type>(f.size(), f.data()); SV n; if (names) n = *names; else for (size_t i = 0; i < f.size(); i++) n.push_back(nm[i]); return ndt::make_type<ndt::struct_type>(n, f); }
static const uintptr_t *offs(const nd::array &a) { return (const uintptr_t *)a->metadata(); }
static void put(nd::array &a, int i, int k, const u8 *b, int n) { char *p = a.data() + offs(a)[i]; if (k == FS) { ((dynd::string *)p)->assign((const char *)b, 3); return; } if (k == FT) { p[0] = b[0]; memcpy(p + 8, b + 1, 8); return; } if (k == FX) { p[0] = b[0]; memcpy(p + 4, b + 1, 4); return; } memcpy(p, b, n); }
static bool has(const char *p, int k, const u8 *b, int n) { if (k == FS) { auto *s = (const dynd::string *)p; return s->size() == 3 && !memcmp(s->data(), b, 3); } if (k == FT) return (u8)p[0] == b[0] && !memcmp(p + 8, b + 1, 8); if (k == FX) return (u8)p[0] == b[0] && !memcmp(p + 4, b + 1, 4); return !memcmp(p, b, n); }
SYM_ENTRY(layout) {
  bool st = sym_choice(2, "struct"); int n = 1 + sym_choice(sym_tier() ? 4 : 3, "fields"), k[4]; TV f; for (int i = 0; i < n; i++) { k[i] = sym_choice(n > 2 ? 7 : NF, "type"); if (n > 2) { static const int q[] = {K8, K16, K64, FC, FS, FA, FX}; k[i] = q[k[i]]; } f.push_back(ft[k[i]]); }
  ndt::type t = make(st, f); nd::array a = nd::empty(t); u8 b[4][16]; size_t end = 0, al = 1; const uintptr_t *o = offs(a);
  for (int i = 0; i < n; i++) { sym_assert(o[i] % fal[k[i]] == 0, "field is not aligned"); sym_assert(o[i] >= end && o[i] - end < (size_t)fal[k[i]], "fields overlap or waste space"); end = o[i] + fsz[k[i]]; al = std::max(al, (size_t)fal[k[i]]); }
  bool ok = t.extended()->get_default_data_size() == (end + al - 1) / al * al && t.get_data_alignment() == al; sym_assert(ok, "size or alignment of the type");
  for (int i = 0; i < n; i++) { sym_make(b[i], 16, "b"); put(a, i, k[i], b[i], fsz[k[i]]); } for (int i = 0; i < n; i++) { nd::array r = a(i); bool same = r.get_type() == f[i]; sym_assert(same, "type of a field"); sym_assert(has(r.cdata(), k[i], b[i], fsz[k[i]]), "a field does not keep its own value"); if (st) { nd::array p = a.p(nm[i]); bool s2 = p.get_type() == f[i] && p.cdata() == r.cdata(); sym_assert(s2, "field by name is another one than by position"); } }
  if (st) { auto *s = t.extended<ndt::struct_type>(); for (int i = 0; i < n; i++) sym_assert(s->get_field_index(nm[i]) == i && s->get_field_name(i) == nm[i], "name of a field"); sym_assert(s->get_field_index("no such") == -1, "a missing name is found"); }
  sym_reach("ok");
}
static nd::array fill(bool st, int n, u8 *b) { static const int q[] = {K8, K32, K16, K64}; TV f; for (int i = 0; i < n; i++) f.push_back(ft[q[i & 3]]); nd::array a = nd::empty(make(st, f)); for (int i = 0; i < n; i++) { sym_make(b + 8 * i, 8, "b"); memcpy(a.data() + offs(a)[i], b + 8 * i, fsz[q[i & 3]]); } return a; }
static bool is_field(const nd::array &r, int i, const u8 *b) { static const int q[] = {K8, K32, K16, K64}; return r.get_type() == ft[q[i & 3]] && !memcmp(r.cdata(), b + 8 * i, fsz[q[i & 3]]); }
SYM_ENTRY(access) {
  bool st = sym_choice(2, "struct"); int n = 1 + sym_choice(5, "fields"); u8 b[64]; nd::array a = fill(st, n, b), r; ip i = (ip)sym_u64("i"); int k = threw([&] { r = a(i); }); bool in = (i < n) & (i >= -n); sym_assert(k == !in, "position is refused or accepted wrongly"); if (k || !in) { sym_reach("threw"); return; } i = (ip)sym_concretize((uint64_t)i); if (i < 0) i += n; sym_assert(is_field(r, i, b), "position gives another field"); sym_assert(r.cdata() == a.cdata() + offs(a)[i], "a field is not a view"); if (st) { sym_assert(threw([&] { a.p("nope"); }), "a missing name is accepted"); k = threw([&] { r = a.p(nm[i]); }); sym_assert(!k && is_field(r, i, b), "name gives another field"); } sym_reach("ok");
}
// Reference for slices with small positions
static bool range(ip n, ip s, ip f, ip st, std::vector<ip> &o) {
  if (st == 0 || s >= n || f < -n) return false; if (s < -n || f > n) return false; if (s < 0) s += n; if (f < 0) f += n; if (st > 0) for (ip i = s; i < f; i += st) o.push_back(i); else for (ip i = s; i > f; i += st) o.push_back(i); return true;
}
SYM_ENTRY(slices) {
  bool st = sym_choice(2, "struct"); int n = 1 + sym_choice(sym_tier() ? 5 : 4, "fields"), s = sym_choice(2 * n, "start") - n, f = sym_choice(2 * n, "finish") - n + 1; static const int S[] = {1, 2, -1, -2}; int step = S[sym_choice(4, "step")]; if (step < 0 && (f == n || f == -n + 0)) return; u8 b[64]; nd::array a = fill(st, n, b), r; std::vector<ip> o; range(n, s, f == n && step > 0 ? n : f, step, o);
  int k = threw([&] { r = a(irange(s, f, step)); }); if (k) { sym_assert(0, "a slice of fields raises"); return; } intptr_t fc = st ? r.get_type().extended<ndt::struct_type>()->get_field_count() : r.get_type().extended<ndt::tuple_type>()->get_field_count(); bool ok = fc == (ip)o.size(); sym_assert(ok, "a slice has another number of fields"); if (!ok) return; for (size_t j = 0; j < o.size(); j++) { nd::array e = r((ip)j); sym_assert(is_field(e, o[j], b), "a slice gives another field"); if (st) sym_assert(r.get_type().extended<ndt::struct_type>()->get_field_name(j) == nm[o[j]], "a slice gives another field name"); }
  sym_assert(threw([&] { r = a(irange(n, n + 1)); }), "a slice beyond the fields is accepted"); sym_reach(o.size() ? "ok" : "ok"); sym_reach("threw");
  if (o.size() > 1) { nd::array e = r(irange(1, (ip)o.size())); sym_assert(is_field(e(0), o[1], b), "a slice of a slice gives another field"); nd::array c = nd::empty(r.get_type()); c.assign(r); for (size_t j = 0; j < o.size(); j++) sym_assert(is_field(c((ip)j), o[j], b), "a copy of a slice has another field"); }
}
SYM_ENTRY(slice_then_index) {
  bool st = sym_choice(2, "struct"); int lo = sym_choice(3, "lo"), rev = sym_choice(2, "reverse"), kind = sym_choice(2, "kind"); TV f = {ndt::make_fixed_dim(3, ft[K8]), ndt::make_fixed_dim(4, ft[K32]), ndt::make_fixed_dim(3, ft[K16])}; static const int sz[] = {1, 4, 2}, cn[] = {3, 4, 3}; nd::array a = nd::empty(make(st, f)), r; u8 b[3][16]; for (int i = 0; i < 3; i++) { sym_make(b[i], 16, "b"); memcpy(a.data() + offs(a)[i], b[i], sz[i] * cn[i]); }
  ip i = sym_choice(9, "i") - 4, mn = lo == 1 ? 3 : 3; std::vector<int> o; if (rev) for (int j = 2; j >= lo; j--) o.push_back(j); else for (int j = lo; j < 3; j++) o.push_back(j); bool in = true; for (int j : o) in &= kind || (i < cn[j] && i >= -cn[j]); (void)mn; irange ir = rev ? irange(2, lo ? lo - 1 : std::numeric_limits<ip>::max(), -1) : irange(lo, 3);
  int k = threw([&] { r = kind == 0 ? a(ir, i) : a(ir, irange(1, 3)); }); sym_assert(k == !in, "index into sliced fields is refused or accepted wrongly"); if (k || !in) { sym_reach("threw"); return; } for (size_t j = 0; j < o.size(); j++) { int q = o[j]; nd::array e = r((ip)j); if (kind == 0) { bool ok = e.get_type() == f[q].get_dtype(); sym_assert(ok, "index into sliced fields: type"); if (ok) sym_assert(!memcmp(e.cdata(), b[q] + (i < 0 ? i + cn[q] : i) * sz[q], sz[q]), "index into sliced fields gives another element"); } else { bool ok = e.get_ndim() == 1 && e.get_dim_size() == 2; sym_assert(ok, "slice of sliced fields: shape"); if (ok) for (int w = 0; w < 2; w++) sym_assert(!memcmp(e(w).cdata(), b[q] + (w + 1) * sz[q], sz[q]), "slice of sliced fields gives another element"); } } sym_reach("ok");
}
SYM_ENTRY(rows) { // arrays of structs: field views
  bool st = sym_choice(2, "struct"); int m = 1 + sym_choice(3, "rows"), form = sym_choice(3, "form"); TV f = {ft[K8], ft[K64], ft[FA], ft[K16]}; ndt::type e = make(st, f); int es = (int)e.extended()->get_default_data_size(); nd::array a = nd::empty(ndt::make_fixed_dim(m, e)), r; char b[128]; sym_make(b, m * es, "b"); memcpy(a.data(), b, m * es); if (form == 1) a = a(irange().by(-1)); int i = sym_choice(4, "field"); static const int of[] = {0, 8, 16, 22}, z[] = {1, 8, 6, 2}; const char *how = "";
  int k = threw([&] { r = form == 2 && st ? a.p(nm[i]) : a(irange(), i); }); sym_assert(!k, msg("a field of rows raises", how)); if (k) return; bool ok = r.get_dim_size() == m && r.get_dtype() == f[i].get_dtype(); sym_assert(ok, "a field of rows: shape or type"); if (!ok) return; for (int j = 0; j < m; j++) { int s = form == 1 ? m - 1 - j : j; sym_assert(!memcmp(r(j).cdata(), b + s * es + of[i], z[i]), "a field of rows gives another value"); nd::array q = a(j, i); sym_assert(!memcmp(q.cdata(), b + s * es + of[i], z[i]), "a field of one row gives another value"); }
  k = threw([&] { r = a(irange(), irange(1, 3)); }); sym_assert(!k, "a slice of fields of rows raises"); if (!k) for (int j = 0; j < m; j++) { int s = form == 1 ? m - 1 - j : j; sym_assert(!memcmp(r(j, 0).cdata(), b + s * es + 8, 8) && !memcmp(r(j, 1, 2).cdata(), b + s * es + 20, 2), "a slice of fields of rows gives another value"); } sym_reach("ok");
}
static const int PR[][2] = {{I8, I32}, {I32, I64}, {U8, U16}, {I16, F64}, {U32, I64}, {I64, I32}, {B, I32}, {I32, B}, {F32, F64}, {U64, U64}};
// Expected result of one field from the plain assignment
static int plain(int s, int d, const char *v, char *out) { nd::array x = nd::empty(nty[s]), y = nd::empty(nty[d]); memcpy(x.data(), v, tsz[s]); int k = threw([&] { y.assign(x); }); if (!k) memcpy(out, y.cdata(), tsz[d]); return k; }
SYM_ENTRY(assign_tuple) {
  int n = 1 + sym_choice(3, "fields"), m = n + (sym_choice(4, "extra") == 0), p[3]; if (m != n) { TV f(n, ti), g(m, ti); nd::array x = nd::empty(make(0, f)), y = nd::empty(make(0, g)); sym_assert(threw([&] { x.assign(y); }), "another number of fields is accepted"); sym_assert(threw([&] { y.assign(x); }), "another number of fields is accepted"); sym_reach("threw"); return; }
  TV f, g; for (int i = 0; i < n; i++) { p[i] = n == 3 ? i * 3 + sym_choice(2, "pair") : sym_choice(n == 1 ? 10 : 5, "pair"); f.push_back(nty[PR[p[i]][0]]); g.push_back(nty[PR[p[i]][1]]); } nd::array a = nd::empty(make(0, f)), r = nd::empty(make(0, g)); memset(r.data(), 0x55, r.get_type().extended()->get_default_data_size()); char b[3][8], w[3][8]; bool bad = false;
  for (int i = 0; i < n; i++) { int s = PR[p[i]][0]; sym_make(b[i], tsz[s], "b"); if (s == B) sym_assume((u8)b[i][0] < 2); memcpy(a.data() + offs(a)[i], b[i], tsz[s]); bad |= plain(s, PR[p[i]][1], b[i], w[i]); } int k = threw([&] { r.assign(a); }); sym_assert(k == bad, "tuple assignment raises or not unlike its fields"); if (k || bad) { sym_reach("threw"); return; } for (int i = 0; i < n; i++) sym_assert(!memcmp(r.cdata() + offs(r)[i], w[i], tsz[PR[p[i]][1]]), "tuple assignment gives another field value"); sym_reach("ok");
}
SYM_ENTRY(assign_struct) { // names in every order, fields with metadata of their own
  int n = 2 + sym_choice(3, "fields"), perm[4]; static const int K[] = {FA, K8, FX, K64}; int start = sym_choice(4, "first"); bool used[4] = {}; for (int i = 0; i < n; i++) { int c = sym_choice(n - i, "order"), j = 0; for (;; j++) if (!used[j] && c-- == 0) break; used[j] = true; perm[i] = j; } TV f, g; SV u, v; for (int i = 0; i < n; i++) { f.push_back(ft[K[(i + start) & 3]]); u.push_back(nm[i]); } for (int i = 0; i < n; i++) { g.push_back(f[perm[i]]); v.push_back(u[perm[i]]); }
  nd::array a = nd::empty(make(1, f, &u)), r = nd::empty(make(1, g, &v)); u8 b[4][16]; for (int i = 0; i < n; i++) { sym_make(b[i], 16, "b"); put(a, i, K[(i + start) & 3], b[i], fsz[K[(i + start) & 3]]); } int k = threw([&] { r.assign(a); }); sym_assert(!k, "structs with fields in another order are refused"); if (k) return; for (int i = 0; i < n; i++) { int q = perm[i]; sym_assert(has(r.cdata() + offs(r)[i], K[(q + start) & 3], b[q], fsz[K[(q + start) & 3]]), "struct assignment does not match fields by name"); } sym_reach("ok");
}
SYM_ENTRY(assign_names) { // one-character names
  int n = 1 + sym_choice(2, "fields"); char x[2], y[2]; sym_make(x, n, "x"); sym_make(y, n, "y"); SV u, v; for (int i = 0; i < n; i++) { sym_assume(((x[i] >= 'a') & (x[i] <= 'c')) && ((y[i] >= 'a') & (y[i] <= 'c'))); u.push_back(std::string(x + i, 1)); v.push_back(std::string(y + i, 1)); } if (n == 2) sym_assume((x[0] != x[1]) & (y[0] != y[1])); bool same = n == 1 ? x[0] == y[0] : ((x[0] == y[0]) & (x[1] == y[1])) | ((x[0] == y[1]) & (x[1] == y[0])); same = sym_fork(same);
  TV f(n, ti); nd::array a = nd::empty(make(1, f, &u)), r = nd::empty(make(1, f, &v)); for (int i = 0; i < n; i++) ((int *)a.data())[i] = 10 + i; int k = threw([&] { r.assign(a); }); sym_assert(k == !same, "structs of other names accepted or of the same names refused"); if (k || !same) { sym_reach("threw"); return; } for (int i = 0; i < n; i++) { int w = x[0] == y[i] ? 10 : 11; sym_assert(((const int *)r.cdata())[i] == w, "struct assignment mixes names up"); } sym_reach("ok");
}
SYM_ENTRY(many_fields) {
  bool st = sym_choice(2, "struct"); int n = 5 + sym_choice(10, "fields"), rev = st ? sym_choice(2, "reverse") : 0, wide = sym_choice(2, "convert"); TV f, g; SV u, v; for (int i = 0; i < n; i++) { f.push_back(i & 1 ? ft[K8] : ft[K16]); u.push_back(nm[i]); } for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; g.push_back(wide ? ft[K64] : f[j]); v.push_back(u[j]); }
  nd::array a = nd::empty(make(st, f, &u)), r = nd::empty(make(st, g, &v)); int64_t w[14]; for (int i = 0; i < n; i++) { char *p = a.data() + offs(a)[i]; sym_make(p, i & 1 ? 1 : 2, "b"); w[i] = i & 1 ? *(int8_t *)p : *(int16_t *)p; } int k = threw([&] { r.assign(a); }); sym_assert(!k, "assignment of many fields raises"); if (k) return; for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; const char *p = r.cdata() + offs(r)[i]; int64_t x = wide ? *(const int64_t *)p : j & 1 ? *(const int8_t *)p : *(const int16_t *)p; sym_assert(x == w[j], "assignment of many fields changes a value"); } sym_reach("ok");
}
SYM_ENTRY(dim_fields) { // fields of dimensions of different sizes, sliced sources, names in another order
  bool st = sym_choice(2, "struct"); int rev = st ? sym_choice(2, "reverse") : 0, neg = sym_choice(2, "sliced"), conv = sym_choice(2, "convert"), n = 2 + sym_choice(2, "fields"); static const int cn[] = {2, 4, 3}; TV f, g; SV u, v; for (int i = 0; i < n; i++) { f.push_back(ndt::make_fixed_dim(cn[i], ft[K16])); u.push_back(nm[i]); } for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; g.push_back(ndt::make_fixed_dim(cn[j], conv ? ti : ft[K16])); v.push_back(u[j]); }
  nd::array a = nd::empty(make(st, f, &u)), s = a, r = nd::empty(make(st, g, &v)); int16_t b[3][4]; for (int i = 0; i < n; i++) { sym_make(b[i], 8, "b"); memcpy(a.data() + offs(a)[i], b[i], 2 * cn[i]); } int k = 0; if (neg) k = threw([&] { s = a(irange(), irange().by(-1)); }); sym_assert(!k, "reversing the fields raises"); if (k) return; k = threw([&] { r.assign(s); }); sym_assert(!k, "assignment of dimension fields raises"); if (k) return;
  for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; const char *p = r.cdata() + offs(r)[i]; for (int q = 0; q < cn[j]; q++) { int w = b[j][neg ? cn[j] - 1 - q : q]; sym_assert((conv ? ((const int *)p)[q] : ((const int16_t *)p)[q]) == w, "assignment of dimension fields changes a value"); } } sym_reach("ok");
}
SYM_ENTRY(nested) { // structs in structs, orders differ at both levels
  int o1 = sym_choice(2, "outer"), o2 = sym_choice(2, "inner"), t = sym_choice(2, "tuple"); SV iu = {"a", "b"}, iv = o2 ? SV{"b", "a"} : iu; TV itf = {ft[K8], ndt::make_fixed_dim(2, ft[K16])}, itg = o2 ? TV{itf[1], itf[0]} : itf; ndt::type in1 = make(1, itf, &iu), in2 = make(1, itg, &iv); if (t) in1 = make(0, TV{in1, ft[K8]}), in2 = make(0, TV{in2, ft[K8]});
  SV u = {"p", "q", "r"}, v = o1 ? SV{"r", "p", "q"} : u; TV f = {ft[K8], in1, ti}, g = o1 ? TV{ti, ft[K8], in2} : TV{ft[K8], in2, ti}; nd::array a = nd::empty(make(1, f, &u)), r = nd::empty(make(1, g, &v)); char b[10]; sym_make(b, 10, "b"); auto at = [&](nd::array &x, const char *m, int w) { nd::array e = x.p("q"); if (t) e = e(0); return w < 0 ? e.p("a") : e.p("b")(w); };
  memcpy(a.p("p").data(), b, 1); memcpy(at(a, "", -1).data(), b + 1, 1); memcpy(at(a, "", 0).data(), b + 2, 2); memcpy(at(a, "", 1).data(), b + 4, 2); memcpy(a.p("r").data(), b + 6, 4); if (t) a.p("q")(1).data()[0] = 7; int k = threw([&] { r.assign(a); }); sym_assert(!k, "assignment of nested structs raises"); if (k) return;
  bool ok = !memcmp(r.p("p").cdata(), b, 1) && !memcmp(at(r, "", -1).cdata(), b + 1, 1) && !memcmp(at(r, "", 0).cdata(), b + 2, 2) && !memcmp(at(r, "", 1).cdata(), b + 4, 2) && !memcmp(r.p("r").cdata(), b + 6, 4); sym_assert(ok, "assignment of nested structs changes a value"); sym_reach("ok");
}
SYM_ENTRY(in_dims) {
  bool st = sym_choice(2, "struct"); int m = sym_choice(4, "rows"), df = sym_choice(2, "var"), rev = sym_choice(2, "reversed"), one = sym_choice(2, "one"); TV f = {ft[K8], ft[K16]}, g = {ti, ft[K16]}; ndt::type e = make(st, f), d = make(st, g); nd::array a = nd::empty(one ? e : ndt::make_fixed_dim(m, e)), r; char b[16]; sym_make(b, 16, "b"); memcpy(a.data(), b, one ? 4 : 4 * m); if (!one && rev && m) a = a(irange().by(-1)); r = df ? nd::empty(ndt::make_type<ndt::var_dim_type>(d)) : nd::empty(ndt::make_fixed_dim(m, d)); if (df && one) m = 1; int k = threw([&] { r.assign(a); }); sym_assert(!k, "assignment of rows raises"); if (k) return;
  for (int j = 0; j < m; j++) { int s = one ? 0 : rev ? m - 1 - j : j; nd::array q = r(j); const char *p = q.cdata(); sym_assert(*(const int *)p == (int8_t)b[4 * s], "assignment of rows changes the first field"); sym_assert(!memcmp(p + 4, b + 4 * s + 2, 2), "assignment of rows changes the second field"); } sym_reach("ok");
}
static void strings(bool st, int m, int L, const ndt::type &t, const char *b) {
  nd::array a = nd::empty(t), r = nd::empty(t); for (int j = 0; j < (m ? m : 1); j++) { nd::array q = m ? a(j) : a; ((dynd::string *)q(1).data())->assign(b, L); for (int w = 0; w < 2; w++) ((dynd::string *)q(2, w).data())->assign(b + w, L); } int k = threw([&] { r.assign(a); a.assign(r); }); sym_assert(!k, "strings in fields are not assigned"); if (k) return;
  for (int j = 0; j < (m ? m : 1); j++) { nd::array q = m ? r(j) : r; auto *s = (const dynd::string *)q(1).cdata(); sym_assert(s->size() == (size_t)L && !memcmp(s->data(), b, L), "string field changes"); s = (const dynd::string *)q(2, 1).cdata(); sym_assert(s->size() == (size_t)L && !memcmp(s->data(), b + 1, L), "string in a dimension field changes"); }
}
SYM_ENTRY(strings) { // the second round finds every lazily made table in place
  bool st = sym_choice(2, "struct"); int m = sym_choice(3, "rows"), L = sym_choice(2, "long") ? 30 : 2; TV f = {ft[K8], ts, ndt::make_fixed_dim(2, ts)}; ndt::type e = make(st, f), t = m ? ndt::make_fixed_dim(m, e) : e; char b[32]; memset(b, 'q', 32); sym_make(b, 2, "b"); strings(st, m, L, t, b); uint64_t h0 = sym_heap(); strings(st, m, L, t, b); sym_assert(sym_heap() == h0, "storage of string fields is not released"); sym_reach("ok");
}
// Fields whose source and destination have metadata of different sizes
enum { FV, VF, FF, VV, SF, FFF, SS, NM };
static const char *const MF[][2] = {{"3 * int16", "var * int32"}, {"var * int16", "3 * int32"}, {"3 * int16", "3 * int32"}, {"var * int16", "var * int16"}, {"int16", "3 * int16"}, {"3 * int16", "2 * 3 * int32"}, {"int16", "int32"}};
static void cells(const nd::array &a, std::vector<int> &o) { if (a.get_ndim()) { ip n = a.get_dim_size(); for (ip i = 0; i < n; i++) cells(a(i), o); return; } o.push_back(a.get_type().get_id() == int16_id ? (int)*(const int16_t *)a.cdata() : *(const int *)a.cdata()); }
SYM_ENTRY(meta_fields) {
  bool st = sym_choice(2, "struct"); int n = 2 + sym_choice(2, "fields"), rev = st ? sym_choice(2, "order") : 0, in = sym_choice(2, "in a dimension"), k[3]; TV f, g; SV u, v; for (int i = 0; i < n; i++) { k[i] = i == 2 ? (k[0] + 2 * k[1]) % NM : sym_choice(NM, "kind"); f.push_back(ndt::type(std::string(MF[k[i]][0]))); u.push_back(nm[i]); } for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; g.push_back(ndt::type(std::string(MF[k[j]][1]))); v.push_back(u[j]); }
  ndt::type x = make(st, f, &u), y = make(st, g, &v); nd::array a = nd::empty(in ? ndt::make_fixed_dim(2, x) : x), r = nd::empty(in ? ndt::make_fixed_dim(2, y) : y); int16_t b[2][3][3]; sym_make(b, 36, "b"); for (int h = 0; h <= in; h++) for (int i = 0; i < n; i++) { nd::array q = (in ? a(h) : a)(i); if (q.get_ndim() == 0) *(int16_t *)q.data() = b[h][i][0]; else { nd::array c = nd::empty(ndt::type(std::string("3 * int16"))); memcpy(c.data(), b[h][i], 6); q.assign(c); } }
  int e = threw([&] { r.assign(a); }); sym_assert(!e, "fields with other metadata are not assigned"); if (e) return;
  for (int h = 0; h <= in; h++) for (int i = 0; i < n; i++) { int j = rev ? n - 1 - i : i; std::vector<int> o; cells((in ? r(h) : r)(i), o); size_t w = k[j] == SS ? 1 : k[j] == FFF ? 6 : 3; sym_assert(o.size() == w, "a field has another shape"); if (o.size() == w) for (size_t c = 0; c < w; c++) sym_assert(o[c] == b[h][j][k[j] == SF || k[j] == SS ? 0 : c % 3], "a field with other metadata gets another value"); } sym_reach("ok");
}
// Assigning into a view of one field of every record of a dimension changes that field and no other.
SYM_ENTRY(into_views) {
  ip n = sym_choice(4, "n"); int nf = 2 + sym_choice(2, "fields"), k = sym_choice(nf, "which"), dim = sym_choice(2, "dim"), from = sym_choice(4, "from"), rev = from == 3; TV t; SV u; for (int i = 0; i < nf; i++) { t.push_back(i == 1 ? ft[K64] : ti); u.push_back(nm[i]); }
  ndt::type x = ndt::make_type<ndt::struct_type>(u, t); if (dim == 0 && n == 0) n = 1; nd::array a = nd::empty(ndt::make_fixed_dim(n ? n : 1, x)); int32_t v[4][3], w[4]; for (ip j = 0; j < (n ? n : 1); j++) { for (int i = 0; i < nf; i++) { v[j][i] = (int32_t)sym_u32("v"); char *p = a.data() + j * (ip)x.extended()->get_default_data_size() + (i == 0 ? 0 : i == 1 ? 8 : 16); if (i == 1) *(int64_t *)p = v[j][i]; else *(int32_t *)p = v[j][i]; } w[j] = (int32_t)sym_u32("w"); }
  if (n == 0) a = a(irange(0, 0)); if (dim) { nd::array b = nd::empty(ndt::make_type<ndt::var_dim_type>(x)); b.assign(a); a = b; } nd::array y = a(irange(), k), s;
  if (from == 0) { ndt::type vt = ndt::make_type<ndt::var_dim_type>(ti); s = nd::empty(vt); nd::array c = nd::empty(ndt::make_fixed_dim(n, ti)); memcpy(c.data(), w, 4 * n); s.assign(c); } else if (from == 1) { s = nd::empty(ti); *(int32_t *)s.data() = w[0]; } else { s = nd::empty(ndt::make_fixed_dim(n, ti)); for (ip j = 0; j < n; j++) ((int32_t *)s.data())[rev ? n - 1 - j : j] = w[j]; if (rev && n) s = s(irange().by(-1)); }
  int e = threw([&] { y.assign(s); }); sym_assert(!e, "assignment into a view of a field raised"); if (e) return;
  for (ip j = 0; j < n; j++) for (int i = 0; i < nf; i++) { nd::array q = a(j, i); int64_t g = i == 1 ? *(const int64_t *)q.cdata() : *(const int32_t *)q.cdata(); sym_assert(g == (i == k ? w[from == 1 ? 0 : j] : v[j][i]), "a field after assignment into a view"); }
  sym_reach("ok");
}
