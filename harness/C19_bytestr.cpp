//@property C19
//@bound every sequence of two operations out of 36 (assign, append, resize, resize_grow, reserve, reserve_grow, clear, copy, move, self-copy, self-append, append and assign of an own substring, concatenation), from initial sizes 0, 1, 7, 13 to 18 and 40, with every content byte free; thorough: sequences of three
//@entry string_ops reach=ok
//@entry bytes_ops reach=ok
//@entry compare reach=eq,ne
//@entry growth reach=ok
//@entry array_values reach=ok
#include "common.h"
#include <dynd/types/string_type.hpp>
#include <dynd/types/bytes_type.hpp>
#include <new>
static ndt::type tstr, tbytes;
extern "C" void sym_setup() { tstr = ndt::make_type<dynd::string>(); tbytes = ndt::make_type<dynd::bytes>(); for (auto &t : {tstr, tbytes}) { nd::array a = nd::empty(ndt::make_fixed_dim(2, t)), v = nd::empty(t), e = a(0), c; e.assign(v); e.assign(a(1)); c = a.eval_copy(); } }   // fills one-time caches
static unsigned char pool[48];   // symbolic source bytes
struct Ref { unsigned char d[400]; size_t n; };
template <class S> struct traits; template <> struct traits<dynd::string> { enum { nul = 1 }; static const char *name() { return "string"; } }; template <> struct traits<dynd::bytes> { enum { nul = 0 }; static const char *name() { return "bytes"; } };
template <class S> static void check(const S &s, const Ref &r, const char *op) {
  char m[100]; strcpy(m, msg(traits<S>::name(), " after ", op)); bool sz = s.size() == r.n; sym_assert(sz, msg(m, ": wrong size")); if (!sz) return;
  sym_assert(s.empty() == (r.n == 0), msg(m, ": empty()")); sym_assert(s.capacity() >= r.n, msg(m, ": capacity below size")); sym_assert((size_t)(s.end() - s.begin()) == r.n, msg(m, ": range"));
  const unsigned char *p = (const unsigned char *)s.data(); unsigned char diff = 0; for (size_t i = 0; i < r.n; i++) diff |= p[i] ^ r.d[i]; sym_assert(diff == 0, msg(m, ": wrong contents"));
  if (traits<S>::nul) sym_assert(p[r.n] == 0, msg(m, ": not terminated"));
  if ((const char *)p == (const char *)&s) { unsigned char z = 0; for (size_t i = r.n; i < 15; i++) z |= p[i]; sym_assert(z == 0, msg(m, ": unused inline bytes not zero")); }
}
static void rset(Ref &r, const unsigned char *p, size_t n) { unsigned char t[64]; memcpy(t, p, n); memcpy(r.d, t, n); r.n = n; }
static void radd(Ref &r, const unsigned char *p, size_t n) { memmove(r.d + r.n, p, n); r.n += n; }
template <class S> static void xappend(S &s, const char *p, size_t n) { static_cast<sso_bytestring<traits<S>::nul> &>(s).append(p, n); }
template <class S> static void xassign(S &s, const char *p, size_t n) { static_cast<sso_bytestring<traits<S>::nul> &>(s).assign(p, n); }
template <class S> static void newbytes(S &s, Ref &r, size_t n) { for (size_t i = r.n; i < n; i++) { r.d[i] = 'z'; if (i < s.size()) s.data()[i] = 'z'; } r.n = n; }
enum { NOP = 36 };
template <class S> static const char *apply(int op, S &s, Ref &r) {
  static const size_t as[] = {0, 3, 14, 15, 16, 30}, ap[] = {0, 1, 6, 15, 20}, rs[] = {0, 1, 5, 14, 15, 16, 25}; size_t n = r.n;
  if (op < 6) { xassign(s, (char *)pool, as[op]); rset(r, pool, as[op]); return "assign"; } op -= 6;
  if (op < 5) { xappend(s, (char *)pool + 2, ap[op]); radd(r, pool + 2, ap[op]); return "append"; } op -= 5;
  if (op < 7) { s.resize(rs[op]); newbytes(s, r, rs[op]); return "resize"; } op -= 7;
  if (op < 3) { size_t k = rs[op * 2 + 2]; s.resize_grow(k); newbytes(s, r, k); return "resize_grow"; } op -= 3;
  switch (op) {
  case 0: s.reserve(15); sym_assert(s.capacity() >= 15, "reserve: capacity"); return "reserve(15)"; case 1: s.reserve(33); sym_assert(s.capacity() >= 33, "reserve: capacity"); return "reserve(33)"; case 2: s.reserve_grow(20); sym_assert(s.capacity() >= 20, "reserve_grow: capacity"); return "reserve_grow";
  case 3: s.clear(); r.n = 0; return "clear"; case 4: { S t(s); check(t, r, "copy construction"); if (t.size()) { t.data()[0] ^= 1; } return "being copied"; }
  case 5: { S t(std::move(s)); check(t, r, "move construction"); S u; u = std::move(t); check(u, r, "move assignment"); r.n = t.size(); r.n = 0; check(t, r, "being moved from"); s.clear(); return "being moved from and cleared"; }
  case 6: { const S &u = s; s = u; return "self-assignment"; } case 7: { const S &u = s; s += u; memcpy(r.d + n, r.d, n); r.n = 2 * n; return "self-append"; }
  case 8: { size_t o = n / 2; xassign(s, s.data() + o, n - o); memmove(r.d, r.d + o, n - o); r.n = n - o; return "assigning its own tail"; }
  case 9: { size_t o = n > 2 ? 2 : 0, k = n - o; xappend(s, s.data() + o, k); memcpy(r.d + n, r.d + o, k); r.n = n + k; return "appending its own tail"; }
  case 10: { S t((const char *)pool + 1, 9); S u = s + t; Ref v = r; radd(v, pool + 1, 9); check(u, v, "operator+"); S w = t + s; Ref x; x.n = 0; radd(x, pool + 1, 9); memcpy(x.d + 9, r.d, n); x.n = 9 + n; check(w, x, "operator+"); return "being added"; }
  case 11: { S t((const char *)pool + 5, 17); s += t; radd(r, pool + 5, 17); return "operator+="; } case 12: { S t((const char *)pool + 3, 16); s = t; rset(r, pool + 3, 16); check(t, r, "being assigned from"); return "operator="; }
  case 13: { S t((const char *)pool + 3, 2); s = t; rset(r, pool + 3, 2); return "operator="; } default: { S t((const char *)pool, 24); { Ref q; rset(q, pool, 24); S u = t; check(u, q, "copy construction"); s = std::move(t); check(t, Ref{{}, 0}, "being moved from"); rset(r, pool, 24); } return "move assignment"; } }
}
template <class S> static void ops() {
  static const size_t sz[] = {0, 1, 7, 13, 14, 15, 16, 17, 18, 40}; size_t n0 = sz[sym_choice(10, "size")]; int a = sym_choice(NOP, "op"); sym_make(pool, 48, "b");
  uint64_t h0 = sym_heap();
  { S s; Ref r; r.n = 0; check(s, r, "default construction"); { S t((const char *)pool + 4, n0); rset(r, pool + 4, n0); check(t, r, "construction"); s = t; } check(s, r, "operator=");
    const char *o = apply(a, s, r); check(s, r, o); Ref r1 = r;
    for (int b = 0; b < NOP; b++) { S t(s); Ref q = r1; const char *o2 = apply(b, t, q); check(t, q, o2); if (sym_tier()) for (int c = 0; c < NOP; c++) { S u(t); Ref w = q; const char *o3 = apply(c, u, w); check(u, w, o3); } }
    check(s, r1, "operations on copies");
    // the same second operations applied to the object itself, which may have spare capacity
    for (int b = 0; b < NOP; b++) { S t; Ref q; q.n = 0; xassign(t, (const char *)pool + 4, n0); rset(q, pool + 4, n0); apply(a, t, q); const char *o2 = apply(b, t, q); check(t, q, o2); } }
  sym_assert(sym_heap() == h0, msg(traits<S>::name(), ": memory not released")); sym_reach("ok");
}
SYM_ENTRY(string_ops) { ops<dynd::string>(); }
SYM_ENTRY(bytes_ops) { ops<dynd::bytes>(); }
template <class S> static void cmp() {
  unsigned char x[20], y[20]; for (int i = 0; i < 20; i++) x[i] = y[i] = (unsigned char)(i * 7); static const size_t sz[] = {0, 1, 14, 15, 16, 20}; size_t n = sz[sym_choice(6, "n")], m = sz[sym_choice(6, "m")]; sym_make(x, 1, "x0"); sym_make(x + 13, 2, "x1"); sym_make(y, 1, "y0"); sym_make(y + 13, 2, "y1");
  S a((char *)x, n), b((char *)y, m); if (sym_choice(2, "spare")) { a.reserve(30); } bool w = n == m; for (size_t i = 0; i < n && i < m; i++) w &= x[i] == y[i]; sym_assert((a == b) == w, msg(traits<S>::name(), " ==: wrong answer")); sym_assert((a != b) == !w, msg(traits<S>::name(), " !=: wrong answer")); if (w) sym_reach("eq"); else sym_reach("ne");
}
SYM_ENTRY(compare) { if (sym_choice(2, "type")) cmp<dynd::string>(); else cmp<dynd::bytes>(); }
SYM_ENTRY(growth) { // repeated appends keep the capacity proportional to the size
  bool st = sym_choice(2, "type"); size_t step = 1 + sym_choice(5, "step"); sym_make(pool, 8, "b"); dynd::string s; dynd::bytes b; Ref r; r.n = 0;
  for (int i = 0; i < 60; i++) { if (st) xappend(s, (char *)pool, step); else xappend(b, (char *)pool, step); radd(r, pool, step); sym_assert((st ? s.capacity() : b.capacity()) <= 2 * r.n + 32, "append: capacity out of proportion"); }
  if (st) check(s, r, "many appends"); else check(b, r, "many appends"); sym_reach("ok");
}
SYM_ENTRY(array_values) { // the same values held by arrays: construction, assignment over longer and shorter values, destruction
  static const size_t sz[] = {0, 3, 14, 15, 16, 30}; bool st = sym_choice(2, "type"); size_t n = sz[sym_choice(6, "n")], m = sz[sym_choice(6, "m")]; sym_make(pool, 48, "b"); uint64_t h0 = sym_heap();
  { nd::array a = nd::empty(ndt::make_fixed_dim(2, st ? tstr : tbytes)), v = nd::empty(st ? tstr : tbytes), w = nd::empty(st ? tstr : tbytes); Ref x, y; rset(x, pool, n); rset(y, pool + 7, m); if (st) { xassign(*(dynd::string *)v.data(), (char *)pool, n); xassign(*(dynd::string *)w.data(), (char *)pool + 7, m); } else { xassign(*(dynd::bytes *)v.data(), (char *)pool, n); xassign(*(dynd::bytes *)w.data(), (char *)pool + 7, m); }
    if (st) for (int i = 0; i < 15; i++) sym_assume((pool[i] < 128) & (pool[i + 15] < 128) & (pool[i + 30] < 128));
    nd::array e0 = a(0), e1 = a(1); e0.assign(v); e1.assign(w); e1.assign(v); e0.assign(w); e0.assign(e1); e1.assign(w); nd::array c = a.eval_copy();
    for (int k = 0; k < 2; k++) { const nd::array &s = k ? c : a; if (st) { check(*(dynd::string *)s.cdata(), x, "array assignment"); check(*((dynd::string *)s.cdata() + 1), y, "array assignment"); } else { check(*(dynd::bytes *)s.cdata(), x, "array assignment"); check(*((dynd::bytes *)s.cdata() + 1), y, "array assignment"); } } }
  sym_assert(sym_heap() == h0, msg("array of ", st ? "string" : "bytes", ": memory not released")); sym_reach("ok");
}
