// Fast refutation of branch queries before the SMT solver: single-byte value sets and congruence closure with boolean
// propagation. Only UNSAT answers (and complete single-byte answers) are given; everything else goes to the solver.
#include "expr.h"
#include "solver.h"
#include <unordered_map>
#include <vector>
#include <bitset>
typedef std::bitset<256> BS;
static std::unordered_map<u32, BS> maskc;
static const BS &mask_of(Expr *e, u32 v) {
  auto it = maskc.find(e->id); if (it != maskc.end()) return it->second;
  BS b; u128 old = g_model[v]; for (unsigned x = 0; x < 256; x++) { g_model[v] = x; g_epoch++; if (eval(e)) b.set(x); } g_model[v] = old; g_epoch++;
  return maskc.emplace(e->id, b).first->second;
}
// c is the last of cs
static int byte_check(const std::vector<Expr *> &cs, ModelDelta &out) {
  Expr *c = cs.back(); if (c->vs->v.size() != 1) return 0; u32 v = c->vs->v[0]; if (g_vars[v].w != 8) return 0;
  if (c->nodes > 60) return 0;
  BS m = mask_of(c, v); bool all = true;
  for (size_t i = 0; i + 1 < cs.size(); i++) { Expr *e = cs[i]; if (e->vs->v.size() == 1 && e->vs->v[0] == v && e->nodes <= 60) m &= mask_of(e, v); else all = false; }
  if (m.none()) return -1;
  if (!all) return 0;
  for (unsigned x = 0; x < 256; x++) if (m[x]) { out.push_back({v, x}); break; }
  return 1;
}
struct Euf {
  std::vector<Expr *> n; std::vector<int> p; std::vector<Expr *> cv; std::unordered_map<Expr *, int> ix; std::vector<std::pair<int, int>> ne; bool conflict = false, changed = false, over = false;
  int find(int x) { while (p[x] != x) x = p[x] = p[p[x]]; return x; }
  int add(Expr *e) {
    auto it = ix.find(e); if (it != ix.end()) return it->second;
    if (n.size() > 1500) { over = true; return 0; }
    for (int i = 0; i < 3; i++) if (e->k[i]) add(e->k[i]);
    int i = n.size(); ix[e] = i; n.push_back(e); p.push_back(i); cv.push_back(isc(e) ? e : nullptr); return i;
  }
  void merge(int a, int b) {
    a = find(a); b = find(b); if (a == b) return; changed = true; if (cv[a] && cv[b] && cv[a] != cv[b]) { conflict = true; return; }
    p[b] = a; if (!cv[a]) cv[a] = cv[b];
  }
  Expr *cval_of(Expr *e) { return cv[find(ix[e])]; }
  void setb(int i, bool v) { merge(i, add(mkconst(v, 1))); }
  bool refute(const std::vector<Expr *> &cs) {
    add(mkconst(0, 1)); add(mkconst(1, 1)); for (Expr *e : cs) { int i = add(e); if (over) return false; setb(i, true); if (conflict) return true; }
    struct Sig { u64 a, b; bool operator==(const Sig &o) const { return a == o.a && b == o.b; } }; struct SH_ { size_t operator()(const Sig &s) const { return (s.a * 0x9E3779B97F4A7C15ull) ^ (s.b * 0xC2B2AE3D27D4EB4Full); } };
    for (int it = 0; it < 12; it++) {
      changed = false; std::unordered_map<Sig, int, SH_> sig; sig.reserve(n.size() * 2);
      for (size_t i = n.size(); i-- > 0 && !conflict;) { Expr *e = n[i]; if (e->w != 1 || !e->k[0]) continue; // downward propagation of decided booleans
        Expr *c = cv[find(i)]; if (!c) continue; bool t = c->clo; int k0 = ix[e->k[0]], k1 = e->k[1] ? ix[e->k[1]] : 0;
        if (e->op == Op::Eq) { if (t) merge(k0, k1); else if (it == 0 || true) ne.push_back({k0, k1}); }
        else if (e->op == Op::And) { if (t) { setb(k0, true); setb(k1, true); } else { Expr *x = cv[find(k0)], *y = cv[find(k1)]; if (x && x->clo) setb(k1, false); if (y && y->clo) setb(k0, false); } }
        else if (e->op == Op::Or) { if (!t) { setb(k0, false); setb(k1, false); } else { Expr *x = cv[find(k0)], *y = cv[find(k1)]; if (x && !x->clo) setb(k1, true); if (y && !y->clo) setb(k0, true); } }
        else if (e->op == Op::Xor && isc(e->k[1])) setb(k0, t ^ (bool)e->k[1]->clo); }
      if (conflict) return true;
      for (auto &q : ne) if (find(q.first) == find(q.second)) return true;
      for (size_t i = 0; i < n.size() && !conflict; i++) { Expr *e = n[i]; if (!e->k[0]) continue;
        int r[3] = {-1, -1, -1}; Expr *c[3] = {}; bool allc = true; for (int k = 0; k < 3; k++) if (e->k[k]) { r[k] = find(ix[e->k[k]]); c[k] = cv[r[k]]; allc &= c[k] != nullptr; }
        if (allc) { if (!cv[find(i)] || true) { u128 v = e->op == Op::Concat ? ((cval(c[0]) << e->k[1]->w) | cval(c[1])) : e->op == Op::Ite ? cval(cval(c[0]) ? c[1] : c[2]) : eval_op(e->op, e->aux, e->w, e->k[0]->w, e->clo, cval(c[0]), c[1] ? cval(c[1]) : 0, c[2] ? cval(c[2]) : 0); Expr *x = mkconst(v, e->w); if (cv[find(i)] != x) { int j = add(x); if (over) return false; merge(i, j); } } continue; }
        if (e->op == Op::Eq) { if (r[0] == r[1]) setb(i, true); }
        else if (e->op == Op::And) { if (e->w == 1) { for (int k = 0; k < 2; k++) if (c[k]) { if (c[k]->clo) merge(i, r[1 - k]); else setb(i, false); } } if (r[0] == r[1]) merge(i, r[0]); }
        else if (e->op == Op::Or) { if (e->w == 1) { for (int k = 0; k < 2; k++) if (c[k]) { if (c[k]->clo) setb(i, true); else merge(i, r[1 - k]); } } if (r[0] == r[1]) merge(i, r[0]); }
        else if (e->op == Op::Ite && c[0]) merge(i, cval(c[0]) ? r[1] : r[2]);
        else if (e->op == Op::Ite && r[1] == r[2]) merge(i, r[1]);
        Sig s{((u64)e->op << 56) ^ ((u64)e->aux << 48) ^ ((u64)e->w << 40) ^ (e->clo << 32) ^ (u64)(r[0] + 1), ((u64)(r[1] + 1) << 32) ^ (u64)(u32)(r[2] + 1)};
        if (e->op == Op::Eq && r[0] > r[1]) { s.a = s.a - (r[0] + 1) + (r[1] + 1); s.b = ((u64)(r[0] + 1) << 32) ^ (u64)(u32)0; }
        auto q = sig.emplace(s, (int)i); if (!q.second) merge(i, q.first->second); }
      if (conflict) return true;
      for (auto &q : ne) if (find(q.first) == find(q.second)) return true;
      if (!changed) return false;
    }
    return false;
  }
};
int fast_check(const std::vector<Expr *> &cs, ModelDelta &out) {
  int r = byte_check(cs, out); if (r) return r;
  u32 tot = 0; for (Expr *e : cs) tot += e->nodes; if (tot > 20000) return 0;
  Euf u; return u.refute(cs) ? -1 : 0;
}
