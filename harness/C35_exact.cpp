//@property C35
//@bound arrays of up to three dimensions of sizes 0..3 in C order, transposed or reversed, and variable-sized dimensions of 0..3 elements; every element value of int32, float64 and int8, strings of up to two bytes, structs of two fields
//@bound requested types of up to two dimensions, fixed, symbolic or variable-sized, over four element types and two symbolic kinds
//@assume variable-sized dimensions below the first are not compared (the iterator refuses them); a request may be refused but not answered with other values
//@entry sized reach=same,differ
//@entry other reach=ok
//@entry vars reach=same,differ
//@entry strings reach=same,differ
//@entry records reach=same,differ
//@entry as reach=kept,made,refused
//@entry shapes reach=ok,threw
#include "common.h"
#include <dynd/asarray.hpp>
#include <dynd/index.hpp>
#include <dynd/string.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/substitute_shape.hpp>
#include <dynd/types/var_dim_type.hpp>
typedef intptr_t ip; typedef std::vector<ndt::type> TV; typedef std::vector<std::string> SV;
static const int NE = 4; static ndt::type el[NE], ST, RT, AK, IK;
extern "C" void sym_setup() {
  el[0] = ndt::make_type<int32_t>(); el[1] = ndt::make_type<double>(); el[2] = ndt::make_type<int8_t>(); el[3] = ndt::make_type<int64_t>(); ST = ndt::make_type<ndt::string_type>(); RT = ndt::make_type<ndt::struct_type>(SV{"x", "y"}, TV{el[0], el[1]}); AK = ndt::type("Any"); IK = ndt::type("Int");
  for (int e = 0; e < 3; e++) { nd::array a = nd::empty(ndt::make_fixed_dim(2, el[e])), b = nd::empty(ndt::make_fixed_dim(2, el[e])); memset(a.data(), 0, 16 >> (e == 0) >> 3 * (e == 2)); memset(b.data(), 0, 16 >> (e == 0) >> 3 * (e == 2)); a.equals_exact(b); }
  nd::array s = nd::empty(ndt::make_fixed_dim(1, ST)), t = nd::empty(ndt::make_fixed_dim(1, ST)); s.equals_exact(t); nd::array r = nd::empty(ndt::make_fixed_dim(1, RT)), q = nd::empty(ndt::make_fixed_dim(1, RT)); memset(r.data(), 0, 16); memset(q.data(), 0, 16); r.equals_exact(q);
}
static ndt::type fixed_tp(int n, const ip *sh, ndt::type t) { for (int i = n; i--;) t = ndt::make_fixed_dim(sh[i], t); return t; }
static fixed_dim_type_arrmeta *ss(const nd::array &a) { return (fixed_dim_type_arrmeta *)a.get()->metadata(); }
// Element number k in row-major order lies at position pos(k) of the memory.
struct Lay { int n, form; ip sh[3]; ip step(int i) const { ip s = 1; if (form == 1) { for (int j = 0; j < i; j++) s *= sh[j]; } else { for (int j = i + 1; j < n; j++) s *= sh[j]; } return form == 2 ? -s : s; }
  ip total() const { ip t = 1; for (int i = 0; i < n; i++) t *= sh[i]; return t; }
  ip pos(ip k) const { ip p = form == 2 ? total() - 1 : 0; for (int i = n; i--;) { p += k % sh[i] * step(i); k /= sh[i]; } return p; } };
static nd::array lay(const nd::array &m, const Lay &L, const ndt::type &e, ip es) { // the memory of m seen in another order
  nd::array r = nd::make_array(fixed_tp(L.n, L.sh, e), m.data() + (L.form == 2 && L.total() ? (L.total() - 1) * es : 0), m, nd::read_access_flag | nd::write_access_flag); for (int i = 0; i < L.n; i++) { ss(r)[i].dim_size = L.sh[i]; ss(r)[i].stride = L.sh[i] > 1 ? L.step(i) * es : 0; } return r; }
template <class T> static void fixeds(int e) {
  Lay L; L.n = sym_choice(4, "n"); for (int i = 0; i < L.n; i++) L.sh[i] = L.n == 3 ? 1 + sym_choice(2, "d") : sym_choice(L.n == 1 ? 4 : 3, "d"); Lay A = L, B = L; A.form = L.n ? sym_choice(3, "fa") : 0; B.form = L.n ? sym_choice(3, "fb") : 0;
  ip t = L.total(); T x[8], y[8]; nd::array ma = nd::empty(ndt::make_fixed_dim(t ? t : 1, el[e])), mb = nd::empty(ndt::make_fixed_dim(t ? t : 1, el[e])); sym_make(x, t * sizeof(T), "x"); sym_make(y, t * sizeof(T), "y"); for (ip k = 0; k < t; k++) { memcpy(ma.data() + A.pos(k) * sizeof(T), x + k, sizeof(T)); memcpy(mb.data() + B.pos(k) * sizeof(T), y + k, sizeof(T)); }
  nd::array a = lay(ma, A, el[e], sizeof(T)), b = lay(mb, B, el[e], sizeof(T)); bool want = true; for (ip k = 0; k < t; k++) want &= x[k] == y[k]; bool r = a.equals_exact(b);
  sym_assert(r == want, "exact equality differs from the elements"); sym_assert(a.equals_exact(a), "an array differs from itself"); if (sym_fork(r)) sym_reach("same"); else sym_reach("differ");
}
SYM_ENTRY(sized) { int e = sym_choice(3, "e"); e == 0 ? fixeds<int32_t>(e) : e == 1 ? fixeds<double>(e) : fixeds<int8_t>(e); }
SYM_ENTRY(other) {
  // arrays of other shapes or types are never equal
  int n = sym_choice(3, "n"), m = sym_choice(3, "m"), e = sym_choice(2, "e"), f = sym_choice(2, "f"); ip s[2], t[2]; for (int i = 0; i < n; i++) s[i] = sym_choice(3, "s"); for (int i = 0; i < m; i++) t[i] = sym_choice(3, "t"); bool same = n == m && e == f; for (int i = 0; i < n && same; i++) same = s[i] == t[i];
  nd::array a = nd::empty(fixed_tp(n, s, el[e])), b = nd::empty(fixed_tp(m, t, el[f])); memset(a.data(), 0, a.get_type().get_default_data_size()); memset(b.data(), 0, b.get_type().get_default_data_size()); sym_assert(a.equals_exact(b) == same, "arrays of other shapes or types are equal"); sym_reach("ok");
}
SYM_ENTRY(vars) {
  ip n = sym_choice(4, "n"), m = sym_choice(4, "m"); int32_t x[4], y[4]; ndt::type t = ndt::make_type<ndt::var_dim_type>(el[0]); nd::array a = nd::empty(t), b = nd::empty(t); bool want = n == m; for (int w = 0; w < 2; w++) { ip z = w ? m : n; nd::array s = nd::empty(ndt::make_fixed_dim(z, el[0])); int32_t *v = w ? y : x; sym_make(v, 4 * z, "v"); memcpy(s.data(), v, 4 * z); (w ? b : a).assign(s); }
  for (ip i = 0; i < n && i < m; i++) want &= x[i] == y[i]; bool r = a.equals_exact(b); sym_assert(r == want, "exact equality of variable-sized dimensions"); sym_assert(b.equals_exact(a) == want, "exact equality the other way round"); if (sym_fork(r)) sym_reach("same"); else sym_reach("differ");
}
SYM_ENTRY(strings) {
  ip n = sym_choice(2, "n") + 1; nd::array a = nd::empty(ndt::make_fixed_dim(n, ST)), b = nd::empty(ndt::make_fixed_dim(n, ST)); bool want = true; for (ip i = 0; i < n; i++) { int u = sym_choice(3, "u"), v = sym_choice(3, "v"); char p[2], q[2]; sym_make(p, u, "p"); sym_make(q, v, "q"); ((dynd::string *)a.data())[i].assign(p, u); ((dynd::string *)b.data())[i].assign(q, v); bool eq = u == v; for (int j = 0; j < u && j < v; j++) eq &= p[j] == q[j]; want &= eq; }
  bool r = a.equals_exact(b); sym_assert(r == want, "exact equality of text"); if (sym_fork(r)) sym_reach("same"); else sym_reach("differ");
}
SYM_ENTRY(records) {
  ip n = sym_choice(3, "n"); nd::array a = nd::empty(fixed_tp(n > 0, &n, RT)), b = nd::empty(fixed_tp(n > 0, &n, RT)); bool want = true; for (ip i = 0; i < (n ? n : 1); i++) { int32_t x[2]; double y[2]; for (int w = 0; w < 2; w++) { x[w] = (int32_t)sym_u32("x"); y[w] = sym_f64("y"); char *d = (w ? b : a).data() + 16 * i; memset(d, w ? 0x55 : 0, 16); memcpy(d, x + w, 4); memcpy(d + 8, y + w, 8); } want &= (x[0] == x[1]) & (y[0] == y[1]); }
  bool r = a.equals_exact(b); sym_assert(r == want, "exact equality of structs"); if (sym_fork(r)) sym_reach("same"); else sym_reach("differ");
}
// A dimension of a requested type: fixed, symbolic fixed or variable-sized.
static ndt::type rdim(int k, ip s, const ndt::type &t) { return k == 0 ? ndt::make_fixed_dim(s, t) : k == 1 ? ndt::make_type<ndt::fixed_dim_kind_type>(t) : ndt::make_type<ndt::var_dim_type>(t); }
SYM_ENTRY(as) {
  int n = sym_choice(3, "n"), m = sym_choice(8, "m"), e = sym_choice(6, "e"), k[2]; bool var = n == 1 && sym_choice(2, "var"); ip s[2], t[2], tot = 1; if (m > 2) m = n; for (int i = 0; i < n; i++) { s[i] = sym_choice(2, "s") + 1; tot *= s[i]; } for (int i = 0; i < m; i++) { k[i] = sym_choice(3, "k"); t[i] = k[i] == 0 ? 1 + sym_choice(2, "t") : 0; }
  int8_t v[4]; nd::array a = nd::empty(fixed_tp(n, s, el[2])); sym_make(v, tot, "v"); memcpy(a.data(), v, tot); if (var) { nd::array b = nd::empty(ndt::make_type<ndt::var_dim_type>(el[2])); b.assign(a); a = b; } ndt::type q = e < 4 ? el[e] : e == 4 ? AK : IK; for (int i = m; i--;) q = rdim(k[i], t[i], q);
  nd::array r; if (threw([&] { r = nd::asarray(a, q); })) { sym_reach("refused"); bool can = n == m && !var && e < 4; for (int i = 0; i < n && can; i++) can = k[i] || t[i] == s[i]; sym_assert(!can && !q.match(a.get_type()), "a request that can be met is refused"); return; }
  if (q.match(a.get_type())) { sym_assert(r.get() == a.get(), "an array that has the type asked for is not passed along"); sym_reach("kept"); return; }
  sym_assert(q.match(r.get_type()) && !r.get_type().is_symbolic(), "not the type asked for"); sym_assert(r.get_ndim() == m && m >= n, "another number of dimensions"); ip rs[2], rt = 1; nd::array c = r; for (int i = 0; i < m; i++) { rs[i] = c.get_dim_size(); rt *= rs[i]; if (i + 1 < m) { if (rs[i] == 0) return; c = c(0); } } for (int i = 0; i < n; i++) sym_assert((rs[m - n + i] == s[i]) | (s[i] == 1), "another size"); for (ip j = 0; j < rt; j++) { nd::array x = m == 0 ? r : m == 1 ? r(j) : r(j / rs[1], j % rs[1]); ip from = 0; for (int i = 0; i < n; i++) { ip at = m - n + i == m - 1 ? j % rs[m - 1] : j / rs[m - 1]; from = from * s[i] + (s[i] == 1 ? 0 : at); }
    double d; int64_t w; int32_t u; int8_t b; int f = e < 4 ? e : 2; const char *p = x.cdata(); if (f == 0) { memcpy(&u, p, 4); sym_assert(u == v[from], "an element differs in the type asked for"); } else if (f == 1) { memcpy(&d, p, 8); sym_assert(d == (double)v[from], "an element differs in the type asked for"); } else if (f == 2) { memcpy(&b, p, 1); sym_assert(b == v[from], "an element differs in the type asked for"); } else { memcpy(&w, p, 8); sym_assert(w == v[from], "an element differs in the type asked for"); } }
  sym_reach("made");
}
SYM_ENTRY(shapes) {
  // filling in a shape: symbolic fixed dimensions take their size, fixed ones must agree, variable-sized ones stay
  int n = sym_choice(4, "n"), m = n == 0 ? 0 : n - sym_choice(2, "fewer"), k[3]; ip s[3], t[3]; for (int i = 0; i < n; i++) { k[i] = sym_choice(3, "k"); t[i] = k[i] ? 0 : sym_choice(2, "t") * 3; } for (int i = 0; i < m; i++) { s[i] = sym_choice(3, "s"); if (s[i] == 2) s[i] = -1; else s[i] *= 3; } ndt::type p = el[0], want = el[0]; bool ok = true; for (int i = n; i--;) { p = rdim(k[i], t[i], p); if (i < m) { ok &= k[i] == 2 || (k[i] == 1 ? s[i] >= 0 : s[i] < 0 || s[i] == t[i]); want = k[i] == 1 && s[i] >= 0 ? ndt::make_fixed_dim(s[i], want) : rdim(k[i], t[i], want); } else want = rdim(k[i], t[i], want); }
  ndt::type r; int bad = threw([&] { r = ndt::substitute_shape(p, m, s); }); sym_assert(bad == !ok, "a shape that does not fit is taken, or one that fits refused"); if (!bad) { sym_assert(r == want, "a type with its shape filled in"); sym_reach("ok"); } else sym_reach("threw"); sym_assert(threw([&] { ip z[4] = {3, 3, 3, 3}; ndt::substitute_shape(p, n + 1, z); }), "more sizes than dimensions are taken");
}
