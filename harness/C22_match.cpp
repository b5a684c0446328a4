//@property C22
//@bound patterns of up to three leading dimensions out of 12 kinds (free 64-bit sizes) over 30 element patterns, candidates of up to three dimensions (four at depth) over 15 element types, and records of two such fields sharing their type variables
//@bound substitution of every pattern with the variables of the match, with none, and with each one left out
//@assume candidates are concrete types; symbolic candidates, memory types and categorical types are outside
//@entry dims reach=yes,no
//@entry leaves reach=yes,no
//@entry shared reach=yes,no
//@entry dims_shared reach=yes,no
//@entry callables reach=yes,no
//@entry partial reach=kept,threw
//@entry missing reach=kept,threw
//@entry equality reach=same,differ
#include "common.h"
#include <dynd/types/any_kind_type.hpp>
#include <dynd/types/callable_type.hpp>
#include <dynd/types/dim_kind_type.hpp>
#include <dynd/types/ellipsis_dim_type.hpp>
#include <dynd/types/fixed_dim_kind_type.hpp>
#include <dynd/types/fixed_string_type.hpp>
#include <dynd/types/fixed_string_kind_type.hpp>
#include <dynd/types/option_type.hpp>
#include <dynd/types/pow_dimsym_type.hpp>
#include <dynd/types/scalar_kind_type.hpp>
#include <dynd/types/string_type.hpp>
#include <dynd/types/struct_type.hpp>
#include <dynd/types/substitute_typevars.hpp>
#include <dynd/types/tuple_type.hpp>
#include <dynd/types/typevar_dim_type.hpp>
#include <dynd/types/typevar_type.hpp>
#include <dynd/types/var_dim_type.hpp>
using ndt::type; using ndt::make_type;
typedef intptr_t ip; typedef std::vector<type> TV; typedef std::vector<std::string> SV; typedef std::map<std::string, type> MP;
// An independent representation of types: dimensions over an element
enum { FX, VR, KD, DM, VA, VB, EL, ED, PA, PK, P3, PV, NDK };                     // fixed, var, Fixed, Dim, A, B, ..., Dims..., A**N, Fixed**N, size**N, var**N
enum { LEAF, SYM, TVAR, UVAR, ANY, SCAL, OPT, TUP, TUPV, ST, STV };               // SYM: a kind such as Int
struct Ty; struct D { int k; ip v; };
struct Ty { D d[5]; int nd; int k, l; const Ty *f[2]; int nf; const char *nm[2]; };
static const int NL = 10; static type lt[NL], kt[6]; static const char *const ks[] = {"Int", "UInt", "Float", "Bool", "Complex", "FixedString"};
static const int lk[NL] = {0, 0, 1, 2, 2, 3, 4, 5, 5, 6}; // kind of each leaf; 6 is none of them
extern "C" void sym_setup() {
  const char *const L[] = {"int32", "int8", "uint16", "float64", "float32", "bool", "complex[float64]", "fixed_string[4]", "fixed_string[8]", "string"}; for (int i = 0; i < NL; i++) lt[i] = type(std::string(L[i]));
  for (int i = 0; i < 6; i++) kt[i] = type(std::string(ks[i])); type(std::string("{x: ?(A * T, U, ...), y: Dims... * 3 * Fixed**N * Any}"));
}
static type mk(const Ty &t) {
  type r; switch (t.k) {
  case LEAF: r = lt[t.l]; break; case SYM: r = kt[t.l]; break; case TVAR: r = make_type<ndt::typevar_type>("T"); break; case UVAR: r = make_type<ndt::typevar_type>("U"); break; case ANY: r = make_type<ndt::any_kind_type>(); break;
  case SCAL: r = make_type<ndt::scalar_kind_type>(); break; case OPT: r = make_type<ndt::option_type>(mk(*t.f[0])); break;
  default: TV f; SV n; for (int i = 0; i < t.nf; i++) { f.push_back(mk(*t.f[i])); n.push_back(t.nm[i] ? t.nm[i] : ""); } r = t.k == TUP ? make_type<ndt::tuple_type>(f) : t.k == TUPV ? make_type<ndt::tuple_type>(f, true) : make_type<ndt::struct_type>(n, f, t.k == STV); }
  type v = make_type<void>(); for (int i = t.nd - 1; i >= 0; i--) { ip s = t.d[i].v; switch (t.d[i].k) {
    case FX: r = ndt::make_fixed_dim(s, r); break; case VR: r = make_type<ndt::var_dim_type>(r); break; case KD: r = make_type<ndt::fixed_dim_kind_type>(r); break; case DM: r = make_type<ndt::dim_kind_type>(r); break;
    case VA: r = make_type<ndt::typevar_dim_type>("A", r); break; case VB: r = make_type<ndt::typevar_dim_type>("B", r); break; case EL: r = make_type<ndt::ellipsis_dim_type>(r); break; case ED: r = make_type<ndt::ellipsis_dim_type>("Dims", r); break;
    case PA: r = make_type<ndt::pow_dimsym_type>(make_type<ndt::typevar_dim_type>("A", v), "N", r); break; case PK: r = make_type<ndt::pow_dimsym_type>(make_type<ndt::fixed_dim_kind_type>(v), "N", r); break; case P3: r = make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(s, v), "N", r); break;
    default: r = make_type<ndt::pow_dimsym_type>(make_type<ndt::var_dim_type>(v), "N", r); } } return r;
}
struct Env { D a, b; int n; bool dset; int nd; D dd[5]; const Ty *t, *u; Env() : n(-1), dset(false), nd(0), t(0), u(0) { a.k = b.k = -1; } };
static bool dsame(const D &x, const D &y) { return x.k == y.k && (x.k != FX || sym_fork(x.v == y.v)); }
static bool same(const Ty &x, int i, const Ty &y, int j) {
  if (x.nd - i != y.nd - j) return false; for (; i < x.nd; i++, j++) if (!dsame(x.d[i], y.d[j])) return false; if (x.k != y.k || x.nf != y.nf || (x.k <= SYM && x.l != y.l)) return false;
  for (int q = 0; q < x.nf; q++) if (!same(*x.f[q], 0, *y.f[q], 0) || (x.k >= ST && strcmp(x.nm[q], y.nm[q]))) return false; return true;
}
static bool same_leaf(const Ty &x, const Ty &y) { return same(x, x.nd, y, y.nd); }
// Whether pattern p from dimension i on accepts candidate c from dimension j on
static bool m(const Ty &p, int i, const Ty &c, int j, Env &e);
static bool bind(D &v, const D &d) { if (v.k < 0) { v = d; return true; } return dsame(v, d); }
// Named dimension sets of several places combine by the broadcasting rule
static bool merge(Env &e, const D *d, int n) {
  if (!e.dset) { e.dset = true; e.nd = n; for (int i = 0; i < n; i++) e.dd[i] = d[i]; return true; }
  if (n > e.nd) { for (int i = e.nd - 1; i >= 0; i--) e.dd[i + n - e.nd] = e.dd[i]; for (int i = 0; i < n - e.nd; i++) e.dd[i] = d[i]; int o = n - e.nd; int k = e.nd; e.nd = n; for (int i = 0; i < k; i++) { D &x = e.dd[o + i]; const D &y = d[o + i]; if (y.k == FX) { if (x.k == VR || sym_fork(x.v == 1)) x = y; else if (!sym_fork(x.v == y.v) && !sym_fork(y.v == 1)) return false; } } return true; }
  int o = e.nd - n; for (int i = 0; i < n; i++) { D &x = e.dd[o + i]; const D &y = d[i]; if (y.k == FX) { if (x.k == VR || sym_fork(x.v == 1)) x = y; else if (!sym_fork(x.v == y.v) && !sym_fork(y.v == 1)) return false; } } return true;
}
static bool mleaf(const Ty &p, const Ty &c, int j, Env &e) {
  if (p.k == ANY) return true; if (j < c.nd) return false;
  switch (p.k) { case LEAF: return c.k == LEAF && c.l == p.l; case SYM: return c.k == LEAF && lk[c.l] == p.l; case SCAL: return true; case TVAR: case UVAR: { const Ty *&b = p.k == TVAR ? e.t : e.u; if (!b) { b = &c; return true; } return same_leaf(*b, c); }
  case OPT: return c.k == OPT && m(*p.f[0], 0, *c.f[0], 0, e); default: { int ck = p.k == TUPV ? TUP : p.k == STV ? ST : p.k; bool v = ck != p.k; if (c.k != ck || (v ? c.nf < p.nf : c.nf != p.nf)) return false; if (ck == ST) for (int i = 0; i < p.nf; i++) if (strcmp(p.nm[i], c.nm[i])) return false; for (int i = 0; i < p.nf; i++) if (!m(*p.f[i], 0, *c.f[i], 0, e)) return false; return true; } }
}
static bool m(const Ty &p, int i, const Ty &c, int j, Env &e) {
  if (i == p.nd) return mleaf(p, c, j, e); const D &d = p.d[i]; int left = c.nd - j, rest = p.nd - i - 1;
  switch (d.k) {
  case FX: case VR: return left && dsame(d, c.d[j]) && m(p, i + 1, c, j + 1, e); case KD: return left && c.d[j].k == FX && m(p, i + 1, c, j + 1, e); case DM: return left && m(p, i + 1, c, j + 1, e);
  case VA: return left && bind(e.a, c.d[j]) && m(p, i + 1, c, j + 1, e); case VB: return left && bind(e.b, c.d[j]) && m(p, i + 1, c, j + 1, e);
  case EL: case ED: { int n = left - rest; if (n < 0) return false; if (d.k == ED && !merge(e, c.d + j, n)) return false; return m(p, i + 1, c, j + n, e); }
  default: { int n = left - rest; if (n < 0 || (e.n >= 0 && e.n != n)) return false; e.n = n; if (!n) return m(p, i + 1, c, j, e); D b = d.k == PA ? D() : D{d.k == PV ? VR : d.k == P3 ? FX : KD, d.v}; if (d.k == PA) { if (e.a.k < 0) e.a = c.d[j]; b = e.a; }
    for (int q = 0; q < n; q++) if (b.k == KD ? c.d[j + q].k != FX : !dsame(b, c.d[j + q])) return false; return m(p, i + 1, c, j + n, e); } }
}
// Whether the pattern holds only things which the variables determine
static bool exact(const Ty &p) { for (int i = 0; i < p.nd; i++) if (p.d[i].k == KD || p.d[i].k == DM || p.d[i].k == EL || p.d[i].k == PK) return false; if (p.k == SYM || p.k == ANY || p.k == SCAL || p.k == TUPV || p.k == STV) return false; for (int i = 0; i < p.nf; i++) if (!exact(*p.f[i])) return false; return true; }
static type sub(const Ty &p, const Env &e) {
  type r; switch (p.k) { case TVAR: { Ty x = *e.t; x.nd = 0; r = mk(x); break; } case UVAR: { Ty x = *e.u; x.nd = 0; r = mk(x); break; } case OPT: r = make_type<ndt::option_type>(sub(*p.f[0], e)); break; case TUP: case ST: { TV f; SV n; for (int i = 0; i < p.nf; i++) { f.push_back(sub(*p.f[i], e)); n.push_back(p.nm[i] ? p.nm[i] : ""); } r = p.k == TUP ? make_type<ndt::tuple_type>(f) : make_type<ndt::struct_type>(n, f); break; } default: r = lt[p.l]; }
  auto add = [&](const D &d) { r = d.k == FX ? ndt::make_fixed_dim(d.v, r) : make_type<ndt::var_dim_type>(r); };
  for (int i = p.nd - 1; i >= 0; i--) { const D &d = p.d[i]; switch (d.k) { case VA: add(e.a); break; case VB: add(e.b); break; case ED: for (int q = e.nd - 1; q >= 0; q--) add(e.dd[q]); break; case PA: case P3: case PV: for (int q = 0; q < e.n; q++) add(d.k == PA ? e.a : D{d.k == P3 ? FX : VR, d.v}); break; default: add(d); } } return r;
}
static void check(const Ty &p, const Ty &c, const char *what) {
  type pt = mk(p), ct = mk(c), r; MP v; bool got = false; int k = threw([&] { got = pt.match(ct, v); }); sym_assert(!k, msg("matching raises: ", what)); if (k) return; Env e; bool want = m(p, 0, c, 0, e);
  sym_assert(got == want, got ? msg("a type which the pattern does not describe is accepted: ", what) : msg("a type which the pattern describes is refused: ", what)); if (!got || !want) { sym_reach("no"); return; }
  sym_reach("yes"); if (e.t) { Ty x = *e.t; x.nd = 0; sym_assert(v["T"] == mk(x), msg("value of a type variable: ", what)); } if (e.n >= 0) sym_assert(v["N"].get_id() == fixed_dim_id && v["N"].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == e.n, msg("value of an exponent: ", what));
  if (!exact(p)) return; k = threw([&] { r = ndt::substitute(pt, v, true); }); sym_assert(!k, msg("substitution of the matched variables raises: ", what)); if (!k) sym_assert(r == sub(p, e), msg("substitution of the matched variables gives another type: ", what));
}
static ip size_(const char *n) { ip s = (ip)sym_u64(n); sym_assume(s >= 0); return s; }
static Ty P[40], Q[20]; static int NP, NQ; static Ty leaf(int k, int l = 0) { Ty t; memset(&t, 0, sizeof t); t.k = k; t.l = l; return t; }
static Ty rec(int k, const Ty *a, const Ty *b = 0, const char *x = "x", const char *y = "y") { Ty t = leaf(k); t.f[0] = a; t.f[1] = b; t.nf = !a ? 0 : b ? 2 : 1; t.nm[0] = x; t.nm[1] = y; return t; }
static void tables() { // element patterns and element types
  NP = NQ = 0; for (int i : {0, 3, 7, 9}) P[NP++] = leaf(LEAF, i); for (int i = 0; i < 6; i++) P[NP++] = leaf(SYM, i); P[NP++] = leaf(TVAR); P[NP++] = leaf(ANY); P[NP++] = leaf(SCAL); const Ty *i32 = P, *f64 = P + 1, *T = P + 10, *A = P + 11, *I = P + 4; P[NP++] = leaf(UVAR); const Ty *U = P + 13;
  P[NP++] = rec(OPT, i32); P[NP++] = rec(OPT, T); P[NP++] = rec(TUP, T, T); P[NP++] = rec(TUP, T, U); P[NP++] = rec(TUP, i32, f64); P[NP++] = rec(TUPV, T); P[NP++] = rec(TUPV, T, T); P[NP++] = rec(TUPV, 0); P[NP++] = rec(ST, T, U); P[NP++] = rec(ST, T); P[NP++] = rec(STV, T); P[NP++] = rec(STV, A, I); P[NP++] = rec(ST, T, T, "y", "x"); P[NP++] = rec(TUP, 0); P[NP++] = rec(OPT, A); P[NP++] = rec(TUP, I, P + 15);
  for (int i = 0; i < NL; i++) Q[NQ++] = leaf(LEAF, i); i32 = Q; f64 = Q + 3; Q[NQ++] = rec(OPT, i32); Q[NQ++] = rec(OPT, f64); Q[NQ++] = rec(TUP, i32, i32); Q[NQ++] = rec(TUP, i32, Q + 11); Q[NQ++] = rec(TUP, f64); Q[NQ++] = rec(TUP, 0); Q[NQ++] = rec(ST, i32, f64); Q[NQ++] = rec(ST, f64, f64, "y", "x"); Q[NQ++] = rec(ST, Q + 12);
}
static void pdims(Ty &p, int n, bool sizes) { // at most one set of dimensions (ellipsis or power)
  bool set = false; p.nd = n; for (int i = 0; i < n; i++) { int k = set ? sym_choice(EL, "pattern dimension") : sym_choice(NDK, "pattern dimension"); if (k >= EL) set = true; p.d[i].k = k; p.d[i].v = k == FX || k == P3 ? (sizes ? size_("pattern size") : 3) : 0; }
}
static void cdims(Ty &c, int n, bool sizes) { c.nd = n; for (int i = 0; i < n; i++) { c.d[i].k = sym_choice(2, "dimension"); c.d[i].v = c.d[i].k == FX ? (sizes ? size_("size") : 2 + sym_choice(2, "size")) : 0; } }
SYM_ENTRY(dims) { sym_pin_iostream(-1); tables(); static const int LP[] = {0, 10, 11}; int n = sym_choice(sym_tier() ? 4 : 3, "pattern dimensions"); Ty p = P[LP[n == 2 && !sym_tier() ? 2 : sym_choice(3, "element pattern")]], c = Q[0]; pdims(p, n, true); cdims(c, sym_choice(sym_tier() ? 5 : n == 2 ? 3 : 4, "dimensions"), true); check(p, c, "dimensions"); }
SYM_ENTRY(leaves) { sym_pin_iostream(-1); tables(); Ty p = P[sym_choice(NP, "element pattern")], c = Q[sym_choice(NQ, "element type")]; int w = sym_choice(5, "dimensions"); p.nd = w > 0; c.nd = w > 0 && w < 4; p.d[0].k = w == 2 ? VA : w == 3 ? ED : FX; p.d[0].v = 3; c.d[0].k = FX; c.d[0].v = 3; check(p, c, "elements"); }
static void pair(bool dims) { // a record of two fields which share their variables
  tables(); Ty a = P[dims ? 10 : 0], b = P[dims ? 13 : 0], x = Q[0], y = Q[dims ? 3 : 0]; if (!dims) { pdims(a, 1 + sym_choice(1, "dims"), false); pdims(b, 1, false); } else { static const int S[][2] = {{ED, -1}, {VA, -1}, {PA, -1}, {ED, VA}, {VA, ED}, {PA, VB}, {FX, ED}}; for (Ty *t : {&a, &b}) { int s = sym_choice(7, "pattern"); t->nd = 0; for (int k : S[s]) if (k >= 0) { t->d[t->nd].k = k; t->d[t->nd++].v = 3; } } }
  int n = dims || sym_tier() ? 3 : 2; cdims(x, sym_choice(n, "dimensions"), true); cdims(y, sym_choice(n, "dimensions"), true); int st = sym_tier() ? sym_choice(2, "record") : 0; Ty p = rec(st ? ST : TUP, &a, &b), c = rec(st ? ST : TUP, &x, &y); check(p, c, "fields sharing variables");
}
SYM_ENTRY(shared) { sym_pin_iostream(-1); pair(false); }
SYM_ENTRY(dims_shared) { sym_pin_iostream(-1); pair(true); }
SYM_ENTRY(callables) { // a callable type matches part by part, sharing variables
  sym_pin_iostream(-1); tables(); Ty r = P[10], a = P[sym_choice(2, "argument") ? 13 : 10], k = P[10], cr = Q[sym_choice(2, "return type")], ca = Q[sym_choice(2, "argument type")], ck = Q[sym_choice(2, "keyword type")]; a.nd = 1; a.d[0] = D{VA, 0}; r.nd = 1; r.d[0] = D{VA, 0}; cdims(ca, 1, true); cdims(cr, 1, true); static const char *const kn[] = {"k", "l"}; int q = sym_choice(2, "keyword");
  auto ct = [](const Ty &r, const Ty &a, const Ty &k, const char *n) { return make_type<ndt::callable_type>(mk(r), make_type<ndt::tuple_type>(TV{mk(a)}), make_type<ndt::struct_type>(SV{n}, TV{mk(k)})); }; type p = ct(r, a, k, "k"), c = ct(cr, ca, ck, kn[q]); MP v; Env e; bool want = m(r, 0, cr, 0, e) && m(a, 0, ca, 0, e) && q == 0 && m(k, 0, ck, 0, e), got = p.match(c, v);
  sym_assert(got == want, "matching of callable types"); if (!got || !want) { sym_reach("no"); return; } type s; int t = threw([&] { s = ndt::substitute(p, v, true); }); sym_assert(!t, "substitution into a callable type raises"); if (!t) sym_assert(s == c, "substitution into a callable type gives another type"); sym_reach("yes");
}
SYM_ENTRY(partial) { // substitution of a part of the variables
  sym_pin_iostream(-1); static const char *const S[] = {"A * T", "A**N * T", "Dims... * T", "(T, U)", "{x: T, y: A * U}", "?T", "(T, ...)", "{x: T, ...}", "3 * T", "var * T", "Fixed * T", "C[T]", "(A * T, k: U) -> T", "pointer[T]", "Any", "Scalar", "3**N * T"}; int i = sym_choice(17, "pattern"), con = sym_choice(2, "concrete"), have = sym_choice(2, "T given"); type p = type(std::string(S[i])), r; MP v; if (have) v["T"] = lt[0];
  bool symbolic = i < 8 ? (i != 5 || !have) : i == 8 || i == 9 || i == 13 ? !have : true; std::string w = S[i]; if (have) for (size_t q; (q = w.find('T')) != std::string::npos;) w.replace(q, 1, "int32"); int t = threw([&] { r = ndt::substitute(p, v, con); });
  if (con) { sym_assert(t == symbolic, t ? msg("substitution of all variables raises: ", S[i]) : msg("a missing variable is not noticed: ", S[i])); if (t) { sym_reach("threw"); return; } } sym_assert(!t, msg("substitution of a part raises: ", S[i])); if (t) return; sym_assert(r == type(w), msg("substitution of a part: ", S[i])); sym_reach("kept");
}
// A pattern of dimensions over a variable, written with the variables in `given` replaced
static std::string written(const char *const *d, const char *leaf, unsigned given) {
  bool A = given & 1, B = given & 2, D = given & 4, N = given & 8; std::string r; for (; *d; d++) { std::string t = *d; r += t == "A" ? (A ? "3" : "A") : t == "D" ? (D ? "3 * var" : "D...") : t == "B**N" ? (N ? (B ? "var * var" : "B * B") : (B ? "var**N" : "B**N")) : t == "A**N" ? (N ? (A ? "3 * 3" : "A * A") : (A ? "3**N" : "A**N")) : t; r += " * "; }
  return r + (*leaf == 'T' && (given & 16) ? "int32" : *leaf == 'U' && (given & 32) ? "float64" : leaf);
}
SYM_ENTRY(missing) { // every variable may be missing on its own
  sym_pin_iostream(-1); static const char *const S[][4] = {{0}, {"A"}, {"D"}, {"B**N"}, {"A", "D"}, {"D", "A"}, {"B**N", "A"}, {"A**N"}, {"D", "5", "A"}, {"var", "D"}, {"7", "B**N"}}; static const unsigned uses[] = {0, 1, 4, 10, 5, 5, 11, 9, 5, 4, 10}; static MP all; if (all.empty()) type(std::string("(A * int8, B**N * int8, D... * int8, T, U)")).match(type(std::string("(3 * int8, var * var * int8, 3 * var * int8, int32, float64)")), all);
  int i = sym_choice(11, "pattern"), w = sym_choice(3, "written"), con = sym_choice(2, "concrete"), j = w ? sym_choice(5, "other") : 0; unsigned u = uses[i] | 16 | (w ? uses[j] | 32 : 0), given = 0; MP v; static const char *const names[] = {"A", "B", "D", "N", "T", "U"}; for (int k = 0; k < 6; k++) if ((u >> k & 1) && (w == 0 || k == 4 || k == 2 || i < 2) && sym_choice(2, "given")) { given |= 1u << k; v[names[k]] = all[names[k]]; }
  if (!(given & 8)) { if (given & 1) v["A"] = type(std::string("3 * void")); if (given & 2) v["B"] = type(std::string("var * void")); } // a base without its exponent is only the dimension
  auto text = [&](unsigned g) { std::string a = written(S[i], "T", g), b = written(S[j], "U", g); return w == 0 ? a : w == 1 ? "(" + a + ", " + b + ")" : "{x: " + a + ", y: " + b + "}"; }; type p = type(text(0)), r; int t = threw([&] { r = ndt::substitute(p, v, con); });
  if (con && given != u) { sym_assert(t, msg("a missing variable is not noticed: ", S[i][0] ? S[i][0] : "T")); sym_reach("threw"); return; } sym_assert(!t, msg("substitution of known variables raises: ", S[i][0] ? S[i][0] : "T")); if (!t) sym_assert(r == type(text(given)), msg("substitution of some variables: ", S[i][0] ? S[i][0] : "T")); sym_reach("kept");
}
SYM_ENTRY(equality) { // types are equal exactly when they are built alike
  sym_pin_iostream(-1); tables(); int n = sym_choice(2, "dimensions"); Ty x = P[n && !sym_tier() ? 10 : sym_choice(NP, "element")], y = P[n ? 10 : sym_choice(NP, "element")]; bool s = &x != &y; for (Ty *t : {&x, &y}) { t->nd = n; if (n) { t->d[0].k = sym_choice(n > 1 ? 6 : NDK, "dimension"); t->d[0].v = 0; if (t->d[0].k == FX || t->d[0].k == P3) t->d[0].v = size_("size"); } }
  s = x.nd == y.nd && x.k == y.k && x.nf == y.nf; if (s && n) s = x.d[0].k == y.d[0].k && ((x.d[0].k != FX && x.d[0].k != P3) || sym_fork(x.d[0].v == y.d[0].v)); Ty u = x, v = y; u.nd = v.nd = 0; if (s) s = same(u, 0, v, 0); type a = mk(x), b = mk(y); sym_assert((a == b) == s && (b == a) == s && (a != b) == !s, "equality of types"); sym_reach(s ? "same" : "differ");
}
