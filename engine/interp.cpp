#include "interp.h"
#include <cxxabi.h>
#include <typeinfo>
#include <exception>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>

Shared *SH; Opts opt; int g_entry = 0; Interp *IP;
static bool have_token = false;
extern double now_s();

// ------------------------------------------------------------------ path condition
static int uf_find(std::vector<int> &uf, int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; }
static void uf_grow(std::vector<int> &uf) { while (uf.size() < g_vars.size()) uf.push_back(uf.size()); }
void Interp::add_pc(Expr *c) {
  if (isc(c)) return;
  if (known.count(c) && known[c]) return;
  if (c->op == Op::And && c->w == 1) { add_pc(c->k[0]); add_pc(c->k[1]); known[c] = true; known[mknot(c)] = false; return; }
  known[c] = true; known[mknot(c)] = false;
  uf_grow(uf);
  const std::vector<u32> &vs = c->vs->v; if (vs.empty()) return;
  int r = uf_find(uf, vs[0]);
  for (size_t i = 1; i < vs.size(); i++) {
    int q = uf_find(uf, vs[i]); if (q == r) continue;
    auto &gr = groups[r]; auto it = groups.find(q); // note: groups[r] may rehash before find
    if (it != groups.end()) { if (it->second.size() > gr.size()) { it->second.insert(it->second.end(), gr.begin(), gr.end()); groups.erase(r); uf[r] = q; r = q; } else { gr.insert(gr.end(), it->second.begin(), it->second.end()); groups.erase(it); uf[q] = r; } }
    else uf[q] = r;
  }
  groups[r].push_back(c);
}
struct QKey { std::vector<u32> v; bool operator==(const QKey &o) const { return v == o.v; } };
struct QH { size_t operator()(const QKey &k) const { u64 h = 1469598103934665603ull; for (u32 x : k.v) { h ^= x; h *= 1099511628211ull; } return h; } };
static std::unordered_map<QKey, std::pair<Res, ModelDelta>, QH> qcache;
Res Interp::feasible(Expr *c, ModelDelta &m, bool fast) {
  uf_grow(uf);
  std::vector<Expr *> cs; std::vector<int> roots;
  for (u32 v : c->vs->v) { int r = uf_find(uf, v); if (std::find(roots.begin(), roots.end(), r) == roots.end()) { roots.push_back(r); auto it = groups.find(r); if (it != groups.end()) cs.insert(cs.end(), it->second.begin(), it->second.end()); } }
  QKey k; k.v.reserve(cs.size() + 1); for (Expr *e : cs) k.v.push_back(e->id); std::sort(k.v.begin(), k.v.end()); k.v.push_back(c->id);
  auto it = qcache.find(k); if (it != qcache.end()) { g_ss.cache++; m = it->second.second; return it->second.first; }
  cs.push_back(c);
  int q = fast ? fast_check(cs, m) : 0; if (q) g_ss.fast++;
  Res r = q < 0 ? R_UNSAT : q > 0 ? R_SAT : solver_check(cs, m);
  if (r == R_SAT) { // cross-check the evaluator against the solver
    std::vector<std::pair<u32, u128>> old; for (auto &p : m) { old.push_back({p.first, g_model[p.first]}); g_model[p.first] = p.second; }
    g_epoch++;
    for (Expr *e : cs) if (!eval(e)) { 
      fprintf(stderr, "MODEL MISMATCH: %s\n", estr(e, 10).c_str()); for (auto &p : m) fprintf(stderr, "  %s=%llx\n", g_vars[p.first].name.c_str(), (unsigned long long)p.second);
      for (auto &p : old) g_model[p.first] = p.second; g_epoch++; incomplete("solver model does not satisfy the constraint under the evaluator"); }
    for (auto &p : old) g_model[p.first] = p.second; g_epoch++;
  }
  if (r != R_UNK) qcache[k] = {r, m};
  return r;
}
void Interp::refresh_regs() { for (Val *v = rbase; v < rtop; v++) if (v->e) { u128 x = eval(v->e); v->lo = (u64)x; v->hi = (u64)(x >> 64); } }
void Interp::install(const ModelDelta &m) {
  sh_drop_stale();
  for (auto &p : m) g_model[p.first] = p.second;
  g_epoch++;
  sh_refresh(); refresh_regs();
}
void Interp::assume_true(Expr *c) { add_pc(c); }

static void flush_stats() {
  SH->queries += g_ss.queries; SH->sat += g_ss.sat; SH->unsat += g_ss.unsat; SH->unk += g_ss.unk; SH->solver_ns += g_ss.ns; SH->qcache += g_ss.cache; SH->fpq += g_ss.fp; SH->fastq += g_ss.fast;
  memset(&g_ss, 0, sizeof g_ss);
}
static void reap(pid_t pid) {
  int st; pid_t r; while ((r = waitpid(pid, &st, 0)) < 0 && errno == EINTR) {}
  (void)r;
}
bool Interp::branch(Expr *c) {
  if (isc(c)) return cval(c) != 0;
  if (replaying) return eval(c) != 0;
  bool cur = eval(c) != 0;
  auto it = known.find(c); if (it != known.end()) return it->second;
  EntryStats &es = SH->e[g_entry]; es.branches++;
  Expr *neg = cur ? mknot(c) : c;
  ModelDelta m; Res r = feasible(neg, m, true);
  if (r == R_UNSAT) { known[c] = cur; known[mknot(c)] = !cur; return cur; }
  if (r == R_UNK) {
    es.incomplete++;
    char b[4096]; snprintf(b, sizeof b, "unknown: %s\n", estr(neg, 5).substr(0, 3000).c_str());
    int fd = open((opt.out + "/incomplete.log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { if (write(fd, b, strlen(b))) {} close(fd); }
    add_pc(cur ? c : mknot(c)); return cur;
  }
  if (SH->stop.load()) incomplete("stopped: deadline or path limit");
  if (SH->started - SH->finished > 1500) incomplete("too many open paths at once");   // bounds the memory a run can take
  es.forks++; warm_all();
  bool par = false; int t = SH->tokens.load();
  while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  flush_stats();
  SH->started++;
  pid_t pid = fork();
  if (pid < 0) { SH->finished++; if (par) SH->tokens++; incomplete("fork failed"); }
  if (pid == 0) {
    have_token = par;
    install(m);
    add_pc(neg);
    return !cur;
  }
  if (!par) reap(pid);
  add_pc(cur ? c : mknot(c));
  return cur;
}
u128 Interp::concretize(Expr *e) {
  if (isc(e)) return cval(e);
  int n = 0;
  for (;;) {
    u128 v = eval(e);
    Expr *q = mkbin(Op::Eq, e, mkconst(v, e->w));
    if (branch(q)) return v;
    if (++n > 70000) incomplete("too many values when enumerating a symbolic value");
  }
}
std::string Interp::backtrace() {
  std::string s; int k = 0;
  for (size_t i = fr.size(); i-- > 0 && k < 12; k++) { int st; char *d = abi::__cxa_demangle(fr[i].f->name.c_str(), 0, 0, &st); std::string n = d ? d : fr[i].f->name; if (n.size() > 160) n = n.substr(0, 160); if (!s.empty()) s += " <- "; s += n; if (d) free(d); }
  return s;
}
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string hex128(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "0x%llx", (unsigned long long)v); return b; }
static void append(const std::string &file, const std::string &line) { int fd = open((opt.out + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return; if (write(fd, line.c_str(), line.size())) {} close(fd); }
void Interp::violation(const char *kind, const std::string &msg) {
  g_guest = 0;
  u64 n = note_violation(std::string(SH->e[g_entry].name) + "/" + kind + "/" + msg);
  if (n < 4) append("violations.jsonl", std::string("{\"entry\":\"") + SH->e[g_entry].name + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"inputs\":[" + inputs_json() + "],\"trace\":\"" + jesc(backtrace()) + "\",\"note\":\"" + jesc(vnote) + "\"}\n");
  finish(2);
}
std::string Interp::inputs_json() {
  std::string s; for (size_t i = 0; i < inputs.size(); i++) { if (i) s += ","; s += "[\"" + jesc(inputs[i].first) + "\"," + std::to_string(inputs[i].second.first) + ",\"" + hex128(eval(inputs[i].second.second)) + "\"]"; } return s;
}
void Interp::incomplete(const std::string &why) { g_guest = 0; append("incomplete.log", std::string(SH->e[g_entry].name) + ": " + why + " @ " + backtrace() + "\n"); finish(3); }
void Interp::finish(int kind) {
  g_guest = 0;
  EntryStats &es = SH->e[g_entry];
  if (kind == 0) es.paths++; else if (kind == 1) es.assumed_out++; else if (kind == 2) { es.viol++; } else es.incomplete++;
  es.steps += steps; u64 mx = es.maxsteps.load(); while (steps > mx && !es.maxsteps.compare_exchange_weak(mx, steps)) {}
  u64 tot = es.paths + es.assumed_out + es.viol + es.incomplete; if (tot > opt.maxpaths) SH->stop = 2;
  if (kind == 2 && es.viol > 2000) SH->stop = 3;
  if (kind == 0 && !replaying && (wit || SH->wit[g_entry] < 3)) { SH->wit[g_entry]++; append("witnesses.jsonl", std::string("{\"entry\":\"") + es.name + "\",\"inputs\":[" + inputs_json() + "],\"labels\":\"" + [this] { std::string l; for (auto &x : labels) l += x + ";"; return l; }() + "\"}\n"); }
  flush_stats();
  if (have_token) SH->tokens++;
  SH->finished++;
  _exit(0);
}
void Interp::bad_access(u64 a, unsigned n, bool write) {
  ObjInfo o; char b[256];
  if (a < 4096) { snprintf(b, 256, "%s of %u bytes through a null pointer (0x%llx)", write ? "write" : "read", n, (unsigned long long)a); violation("null", b); }
  if (arena_object(a, o)) snprintf(b, 256, "invalid %s of %u bytes at offset %lld of a%s %llu-byte object", write ? "write" : "read", n, (long long)(a - o.base), o.live ? "" : " freed", (unsigned long long)o.size);
  else snprintf(b, 256, "invalid %s of %u bytes at 0x%llx", write ? "write" : "read", n, (unsigned long long)a);
  violation("memory", b);
}
extern "C" void guest_bad_free(void *p, const char *why) { if (IP && !IP->fr.empty()) IP->violation("memory", why); fprintf(stderr, "guest_bad_free before start: %s\n", why); abort(); }

// ------------------------------------------------------------------ symbolic addresses
static unsigned tzknown(Expr *e, u64 &low) { // number of known low bits, their value in low
  switch (e->op) {
  case Op::Const: low = e->clo; return 64;
  case Op::Concat: if (isc(e->k[1])) { low = e->k[1]->clo; return e->k[1]->w; } { unsigned k = tzknown(e->k[1], low); return k < e->k[1]->w ? k : e->k[1]->w; }
  case Op::ZExt: case Op::SExt: { unsigned k = tzknown(e->k[0], low); return k < e->k[0]->w ? k : e->k[0]->w; }
  case Op::Add: { u64 a, b; unsigned x = tzknown(e->k[0], a), y = tzknown(e->k[1], b); low = a + b; return x < y ? x : y; }
  case Op::Sub: { u64 a, b; unsigned x = tzknown(e->k[0], a), y = tzknown(e->k[1], b); low = a - b; return x < y ? x : y; }
  case Op::Mul: { u64 a, b; unsigned x = tzknown(e->k[0], a), y = tzknown(e->k[1], b); if (isc(e->k[1]) && b) { low = 0; unsigned t = __builtin_ctzll(b); if (x == 0) return t; } low = a * b; return x < y ? x : y; }
  case Op::Ite: { u64 a, b; unsigned x = tzknown(e->k[1], a), y = tzknown(e->k[2], b); unsigned m = x < y ? x : y; low = a; while (m && ((a ^ b) & (m >= 64 ? ~0ull : ((1ull << m) - 1)))) m--; return m; }
  default: low = 0; return 0;
  }
}
bool Interp::resolve_symbolic(Expr *addr, unsigned n, u64 &base, u64 &size, bool write) {
  for (;;) {
    u64 a = (u64)eval(addr); ObjInfo o;
    if (in_arena(a)) { if (!access_ok(a, n)) bad_access(a, n, write); if (!arena_object(a, o)) bad_access(a, n, write); base = o.base; size = o.size; }
    else { std::string nm; if (a < 4096) bad_access(a, n, write); if (!prog_global(a, base, size, &nm)) { return false; } if (a + n > base + size) violation("memory", "access beyond global " + nm); }
    if (size < n) bad_access(a, n, write);
    // near-out-of-bounds first, then any
    Expr *off = mkbin(Op::Sub, addr, mkconst(base, 64));
    Expr *in = mkbin(Op::Ule, off, mkconst(size - n, 64));
    Expr *nearr = mkbin(Op::Ult, mkbin(Op::Add, off, mkconst(64, 64)), mkconst(size + 128, 64));
    if (!known.count(in)) {
      Expr *bad = mkbin(Op::And, mknot(in), nearr);
      if (branch(bad)) { a = (u64)eval(addr); // in a child whose address is just outside
        char b[200]; snprintf(b, 200, "%s of %u bytes at offset %lld outside of a %llu-byte object", write ? "write" : "read", n, (long long)(a - base), (unsigned long long)size); violation("memory", b); }
      if (!branch(in)) continue;    // far outside: look at where it lands
    }
    return true;
  }
}
static Expr *tree(Interp *I, Expr *addr, std::vector<std::pair<u64, Expr *>> &t, size_t lo, size_t hi) {
  bool same = true; for (size_t i = lo + 1; i < hi && same; i++) if (t[i].second != t[lo].second) same = false;
  if (same) return t[lo].second;
  size_t m = (lo + hi) / 2;
  return mkite(mkbin(Op::Ult, addr, mkconst(t[m].first, 64)), tree(I, addr, t, lo, m), tree(I, addr, t, m, hi));
}
// an address chosen between a few constants by conditions: fork on the conditions
static bool ite_leaves(Expr *e, unsigned &n) {
  if (isc(e)) return true;
  switch (e->op) {
  case Op::Ite: return ++n <= 6 && ite_leaves(e->k[1], n) && ite_leaves(e->k[2], n);
  case Op::Add: case Op::Sub: case Op::Mul: case Op::Concat: return ite_leaves(e->k[0], n) && ite_leaves(e->k[1], n);
  case Op::ZExt: case Op::SExt: return ite_leaves(e->k[0], n);
  default: return false;
  }
}
Expr *Interp::pick_ites(Expr *e) {
  switch (e->op) {
  case Op::Ite: return pick_ites(branch(e->k[0]) ? e->k[1] : e->k[2]);
  case Op::Add: case Op::Sub: case Op::Mul: { Expr *a = pick_ites(e->k[0]), *b = pick_ites(e->k[1]); return mkbin(e->op, a, b); }
  case Op::Concat: { Expr *a = pick_ites(e->k[0]), *b = pick_ites(e->k[1]); return mkconcat(a, b); }
  case Op::ZExt: return mkzext(pick_ites(e->k[0]), e->w);
  case Op::SExt: return mksext(pick_ites(e->k[0]), e->w);
  default: return e;
  }
}
void Interp::load(Val &d, u64 off, Val &p, unsigned w, bool isptr) {
  unsigned n = (w + 7) / 8;
  if (p.e && !replaying) {
    unsigned ni = 0; if (ite_leaves(p.e, ni)) { Expr *x = pick_ites(p.e); if (isc(x)) p = {x->clo, 0, nullptr}; }
  }
  if (p.e && !replaying) {
    Expr *addr = mkbin(Op::Add, p.e, mkconst(off, 64));
    if (!isc(addr)) {
      u64 base, size; 
      if (resolve_symbolic(addr, n, base, size, false)) {
        u64 low; unsigned k = tzknown(addr, low); if (k > 6) k = 6; u64 step = 1ull << k; u64 first = base; while ((first ^ low) & (step - 1)) first++;
        u64 cnt = size >= n ? (base + size - n - first) / step + 1 : 0;
        if (cnt > 0 && cnt <= 4096 && !isptr) {
          std::vector<std::pair<u64, Expr *>> t;
          for (u64 i = 0; i < cnt; i++) { u64 a = first + i * step; Expr *e = sh_load(a, n); if (!e) { u128 v = 0; memcpy(&v, (void *)a, n); e = mkconst(v, 8 * n); } t.push_back({a, e}); }
          Expr *r = tree(this, addr, t, 0, t.size());
          if (8 * n != w) r = mkextract(r, 0, w);
          setv(d, r); return;
        }
      }
      concretize(addr);
    }
  }
  u64 a = p.lo + off;
  if (__builtin_expect(in_arena(a), 1)) { if (!access_ok(a, n)) bad_access(a, n, false); } else if (a < 4096) bad_access(a, n, false);
  d.hi = 0; d.e = nullptr;
  switch (n) { case 1: d.lo = *(u8 *)a; break; case 2: d.lo = *(u16 *)a; break; case 4: d.lo = *(u32 *)a; break; case 8: d.lo = *(u64 *)a; break; default: { u128 v = 0; memcpy(&v, (void *)a, n); d.lo = (u64)v; d.hi = (u64)(v >> 64); } }
  if (w & 7) { u128 m = mask128(w); d.lo &= (u64)m; d.hi &= (u64)(m >> 64); }
  if (sh_maybe(a) || sh_maybe(a + n - 1)) {
    Expr *e = sh_load(a, n);
    if (e) { if (8 * n != w) e = mkextract(e, 0, w); if (!isc(e)) { setv(d, e); if (isptr && !replaying && !lazy_ptr) { concretize(e); u128 v = eval(e); d.lo = (u64)v; d.e = nullptr; } } }
  }
}
void Interp::store(Val &p, u64 off, Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (p.e && !replaying) {
    unsigned ni = 0; if (ite_leaves(p.e, ni)) { Expr *x = pick_ites(p.e); if (isc(x)) p = {x->clo, 0, nullptr}; }
  }
  if (p.e && !replaying) {
    Expr *addr = mkbin(Op::Add, p.e, mkconst(off, 64));
    if (!isc(addr)) {
      u64 base, size;
      if (resolve_symbolic(addr, n, base, size, true)) {
        u64 low; unsigned k = tzknown(addr, low); if (k > 6) k = 6; u64 step = 1ull << k; u64 first = base; while ((first ^ low) & (step - 1)) first++;
        u64 cnt = (base + size - n - first) / step + 1;
        if (step >= n && cnt <= 64) {
          Expr *val = mkzext(ex(v, w), 8 * n);
          for (u64 i = 0; i < cnt; i++) {
            u64 a = first + i * step; Expr *old = sh_load(a, n); if (!old) { u128 x = 0; memcpy(&x, (void *)a, n); old = mkconst(x, 8 * n); }
            Expr *nw = mkite(mkbin(Op::Eq, addr, mkconst(a, 64)), val, old);
            u128 c = eval(nw); sh_clear(a, n); memcpy((void *)a, &c, n); if (!isc(nw)) sh_store(a, n, nw);
          }
          return;
        }
      }
      concretize(addr);
    }
  }
  u64 a = p.lo + off;
  if (__builtin_expect(in_arena(a), 1)) { if (!access_ok(a, n)) bad_access(a, n, true); } else if (a < 4096) bad_access(a, n, true);
  switch (n) { case 1: *(u8 *)a = (u8)v.lo; break; case 2: *(u16 *)a = (u16)v.lo; break; case 4: *(u32 *)a = (u32)v.lo; break; case 8: *(u64 *)a = v.lo; break; default: { u128 x = U(v.lo, v.hi); memcpy((void *)a, &x, n); } }
  if (v.e) { sh_clear(a, n); sh_store(a, n, 8 * n == w ? v.e : mkzext(v.e, 8 * n)); }
  else if (sh_maybe(a) || sh_maybe(a + n - 1)) sh_clear(a, n);
}
void Interp::pin_range(u64 a, u64 n) { for (u64 i = 0; i < n; i++) { unsigned ix; Expr *e = sh_get(a + i, ix); if (e) concretize(mkextract(e, 8 * ix, 8)); } }
void Interp::concretize_object(u64 p) {
  ObjInfo o;
  if (in_arena(p)) { if (arena_object(p, o) && p - o.base <= o.size && sh_any(o.base, o.size)) pin_range(o.base, o.size); }
}

// ------------------------------------------------------------------ frames
void Interp::push(FuncRef *f, const CallInfo *ci, const Val *args, unsigned n) {
  FuncCode *fc = prog_code(f);
  if (!f->state) { f->state = 1; note_function(f->name); }
  Frame nf; nf.f = fc; nf.R = rtop; nf.pc = 0; nf.ci = nullptr; nf.sp = sp;
  if (fr.size() > 20000) violation("stack", "call depth over 20000");
  Val tmp[64]; if (n > 64) incomplete("too many argument slots");
  memcpy(tmp, args, n * sizeof(Val));
  rtop += fc->nregs;
  unsigned m = n < fc->nargs_slots ? n : fc->nargs_slots;
  memcpy(nf.R, tmp, m * sizeof(Val));
  // byval copies
  for (auto &p : fc->params) if (p.byval) {
    u64 src = nf.R[p.op].lo; u64 h = (sp + 32 + 15) & ~15ull; stack_obj(h, p.bysize); sp = (h + 16 + p.bysize + 15) & ~15ull;
    sh_copy(h + 16, src, p.bysize); memcpy((void *)(h + 16), (void *)src, p.bysize); nf.R[p.op] = {h + 16, 0, nullptr};
  }
  if (fc->vararg && n > fc->nargs_slots) incomplete("variadic function defined in bitcode: " + f->name);
  fr.push_back(nf);
}
void Interp::pop() { Frame &f = fr.back(); if (sp > f.sp) stack_clear(f.sp, sp); sp = f.sp; rtop = f.R; fr.pop_back(); }

// ------------------------------------------------------------------ exceptions
int Interp::typeid_of(u64 ti) { auto it = typeids.find(ti); if (it != typeids.end()) return it->second; return typeids[ti] = ++ntypeid; }
bool Interp::match(const LPInfo &lp, Exc *x, int &sel, bool &cleanup) {
  for (auto &c : lp.cl) {
    if (c.isfilter) continue;
    if (c.ti == 0) { x->adjusted = x->obj; sel = typeid_of(0); return true; }
    void *p = (void *)x->obj; const std::type_info *ct = (const std::type_info *)c.ti, *tt = (const std::type_info *)x->ti;
    if (tt->__is_pointer_p()) p = *(void **)p;
    if (ct->__do_catch(tt, &p, 1)) { x->adjusted = (u64)p; sel = typeid_of(c.ti); return true; }
  }
  cleanup = lp.cleanup; return false;
}
void Interp::unwind(Exc *x) {
  while (!fr.empty()) {
    Frame &f = fr.back();
    if (f.ci && f.ci->invoke) {
      u32 pc = f.ci->unwind; const Inst *in = &f.f->code[pc];
      if (in->op == B_PHI) in = &f.f->code[f.f->phis[in->imm].target];
      int sel = 0; bool cl = false; bool m = match(f.f->lps[in->imm], x, sel, cl);
      if (m || cl) { pend_obj = x->obj; pend_sel = m ? sel : 0; f.pc = pc; f.ci = nullptr; return; }
    }
    pop();
  }
  int st; const char *nm = ((const std::type_info *)x->ti)->name(); char *d = abi::__cxa_demangle(nm, 0, 0, &st);
  if (*(u64 *)x->obj && strstr(nm, "") ) { const std::type_info *tt = (const std::type_info *)x->ti; void *p = (void *)x->obj; if (!tt->__is_pointer_p() && typeid(std::exception).__do_catch(tt, &p, 1)) { g_guest = 1; const char *w = ((std::exception *)p)->what(); g_guest = 0; if (w) vnote = std::string(w).substr(0, 300); } }
  violation("exception", std::string("uncaught exception of type ") + (d ? d : nm));
}
void Interp::do_throw(u64 obj, u64 ti, u64 dtor, bool native) {
  Exc *x = new Exc{obj, ti, dtor, obj, 0, native}; excs[obj] = x; unwind(x);
}

// ------------------------------------------------------------------ native calls
struct RII { u64 a, b; }; struct RDD { double a, b; }; struct RID { u64 a; double b; }; struct RDI { double a; u64 b; };
#define NPROTO u64,u64,u64,u64,u64,u64,double,double,double,double,double,double,double,double,...
#define NARGS i[0],i[1],i[2],i[3],i[4],i[5],d[0],d[1],d[2],d[3],d[4],d[5],d[6],d[7],s[0],s[1],s[2],s[3],s[4],s[5],s[6],s[7],s[8],s[9],s[10],s[11],s[12],s[13],s[14],s[15],s[16],s[17],s[18],s[19],s[20],s[21],s[22],s[23]
bool Interp::native_call(FuncRef *fref, u64 addr, const CallInfo &ci, Val *args, unsigned nargs, Val *ret) {
  int pol = fref ? (fref->policy >= 0 ? fref->policy : (fref->policy = native_policy(fref->name))) : 0;
  if (!replaying) {
    if (pol == 0 || (pol == 1 && exact_io)) {
      for (unsigned k = 0; k < nargs; k++) if (args[k].e) { if (opt.verbose) fprintf(stderr, "[native] concretize arg %u of %s\n", k, fref ? fref->name.c_str() : "?"); u128 v = concretize(args[k].e); args[k].lo = (u64)v; args[k].hi = (u64)(v >> 64); args[k].e = nullptr; }
      if (pol == 0) for (unsigned k = 0; k < nargs; k++) if (in_arena(args[k].lo)) concretize_object(args[k].lo);
      // concretization may have moved to another model: argument values without expression are unaffected
      // libstdc++ internals run on one model of the path (messages); note what else does so
    } else for (unsigned k = 0; k < nargs; k++) { if (opt.verbose) fprintf(stderr, "[native1] %s\n", fref->name.c_str()); if (args[k].e) { u128 v = eval(args[k].e); args[k].lo = (u64)v; args[k].hi = (u64)(v >> 64); args[k].e = nullptr; } }
  }
  u64 i[6] = {0}; double d[8] = {0}; u64 s[24] = {0}; unsigned ni = 0, nd = 0, ns = 0; unsigned q = 0;
  for (const ArgInfo &a : ci.args) {
    if (a.byval) { u64 src = args[q].lo; unsigned wds = (a.bysize + 7) / 8; if (ns + wds > 24) incomplete("native byval too large"); memcpy(&s[ns], (void *)src, a.bysize); ns += wds; q += a.n; continue; }
    if (a.kind == 5) { u64 v = (u64)(u32)args[q].lo | ((u64)(u32)args[q + 1].lo << 32); if (nd < 8) memcpy(&d[nd++], &v, 8); else s[ns++] = v; q += 2; continue; }
    for (unsigned j = 0; j < a.n; j++, q++) {
      if (a.kind == 1 || a.kind == 2) { if (nd < 8) memcpy(&d[nd++], &args[q].lo, 8); else s[ns++] = args[q].lo; }
      else if (a.kind == 3) { if (ns & 1) ns++; s[ns++] = args[q].lo; s[ns++] = args[q].hi; }
      else if (a.kind == 4) { if (ni + 2 <= 6) { i[ni++] = args[q].lo; i[ni++] = args[q].hi; } else { if (ns & 1) ns++; s[ns++] = args[q].lo; s[ns++] = args[q].hi; } }
      else if (a.kind == 6) incomplete("native call with aggregate argument: " + (fref ? fref->name : std::string("?")));
      else { if (ni < 6) i[ni++] = args[q].lo; else s[ns++] = args[q].lo; }
      if (ns > 22) incomplete("native call: too many stack arguments");
    }
  }
  auto isf = [&](size_t k) { return ci.rk.size() > k && (ci.rk[k] == 1 || ci.rk[k] == 2 || ci.rk[k] == 5); };
  u64 ri[2] = {0}; double rd[2] = {0}; long double rl = 0; bool threw = false; u64 tobj = 0, tti = 0;
  g_guest = 1;
  try {
    if (!ci.rk.empty() && ci.rk[0] == 3) rl = ((long double (*)(NPROTO))addr)(NARGS);
    else if (isf(0) && isf(1)) { RDD r = ((RDD(*)(NPROTO))addr)(NARGS); rd[0] = r.a; rd[1] = r.b; }
    else if (isf(0)) { RDI r = ((RDI(*)(NPROTO))addr)(NARGS); rd[0] = r.a; ri[0] = r.b; }
    else if (isf(1)) { RID r = ((RID(*)(NPROTO))addr)(NARGS); ri[0] = r.a; rd[0] = r.b; }
    else { RII r = ((RII(*)(NPROTO))addr)(NARGS); ri[0] = r.a; ri[1] = r.b; }
  } catch (...) {
    threw = true; g_guest = 0; std::exception_ptr ep = std::current_exception(); tobj = *(u64 *)&ep; tti = (u64)abi::__cxa_current_exception_type(); new std::exception_ptr(ep);
  }
  g_guest = 0;
  if (threw) { do_throw(tobj, tti, 0, true); return true; }
  unsigned xi = 0, xd = 0, o = 0;
  for (size_t k = 0; k < ci.rk.size() && o < ci.ndst; k++) {
    Val &v = ret[o++]; v.hi = 0; v.e = nullptr;
    if (ci.rk[k] == 5) { u64 t; memcpy(&t, &rd[xd++], 8); v.lo = (u32)t; ret[o].lo = t >> 32; ret[o].hi = 0; ret[o].e = nullptr; o++; }
    else if (ci.rk[k] == 1) { u64 t; memcpy(&t, &rd[xd++], 8); v.lo = (u32)t; }
    else if (ci.rk[k] == 2) memcpy(&v.lo, &rd[xd++], 8);
    else if (ci.rk[k] == 3) { memcpy(&v.lo, &rl, 8); u16 t; memcpy(&t, (char *)&rl + 8, 2); v.hi = t; }
    else if (ci.rk[k] == 4) { v.lo = ri[0]; v.hi = ri[1]; }
    else { v.lo = ri[xi++]; if (ci.rw[k] < 64) v.lo &= (1ull << ci.rw[k]) - 1; }
  }
  return false;
}

// ------------------------------------------------------------------ scalar helpers
static inline u64 m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 s64(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); return (i64)((v ^ s) - s); }
static long double ld(const Val &v) { long double x = 0; memcpy(&x, &v.lo, 8); memcpy((char *)&x + 8, &v.hi, 2); return x; }
static void setld(Val &d, long double x) { d.hi = 0; d.e = nullptr; memcpy(&d.lo, &x, 8); u16 t; memcpy(&t, (char *)&x + 8, 2); d.hi = t; }
static inline double vd(const Val &v) { double x; memcpy(&x, &v.lo, 8); return x; }
static inline float vf(const Val &v) { u32 t = (u32)v.lo; float x; memcpy(&x, &t, 4); return x; }
static bool fpred(u8 p, bool lt, bool eq, bool un) { // LLVM predicate bits: 1 eq, 2 gt, 4 lt, 8 uno
  bool gt = !lt && !eq && !un; return ((p & 1) && eq && !un) || ((p & 2) && gt) || ((p & 4) && lt && !un) || ((p & 8) && un);
}
static Expr *efcmp(u8 p, Expr *a, Expr *b) {
  if (p == 0) return mkconst(0, 1); if (p == 15) return mkconst(1, 1);
  Expr *un = mkfcmp(Op::FUno, a, b);
  u8 q = p & 7; Expr *r;
  switch (q) {
  case 0: r = mkconst(0, 1); break; case 1: r = mkfcmp(Op::FEq, a, b); break; case 2: r = mkfcmp(Op::FLt, b, a); break; case 3: r = mkfcmp(Op::FLe, b, a); break;
  case 4: r = mkfcmp(Op::FLt, a, b); break; case 5: r = mkfcmp(Op::FLe, a, b); break;
  case 6: r = mkbin(Op::Or, mkfcmp(Op::FLt, a, b), mkfcmp(Op::FLt, b, a)); break; default: r = mknot(un); break;
  }
  if (p & 8) r = mkbin(Op::Or, r, un);
  return r;
}
static Expr *cmpx(u8 p, Expr *a, Expr *b) {
  switch (p) {
  case P_EQ: return mkbin(Op::Eq, a, b); case P_NE: return mknot(mkbin(Op::Eq, a, b));
  case P_UGT: return mkbin(Op::Ult, b, a); case P_UGE: return mkbin(Op::Ule, b, a); case P_ULT: return mkbin(Op::Ult, a, b); case P_ULE: return mkbin(Op::Ule, a, b);
  case P_SGT: return mkbin(Op::Slt, b, a); case P_SGE: return mkbin(Op::Sle, b, a); case P_SLT: return mkbin(Op::Slt, a, b); default: return mkbin(Op::Sle, a, b);
  }
}
#define FLAG(inner, A, B, W) do { if (flagtrack) { if (flags.size() < 100000) flags.push_back({inner, A, B, (unsigned)(W)}); else flagoverflowed = true; } } while (0)

// ------------------------------------------------------------------ main loop
void Interp::run() {
  Frame *F; Val *R; const Val *K; const Inst *code; const Inst *I;
#define RELOAD() do { F = &fr.back(); R = F->R; K = F->f->K.data(); code = F->f->code.data(); I = code + F->pc; } while (0)
#define V(x) ((x) >= 0 ? R[x] : (Val &)K[~(x)])
  RELOAD();
  u64 lim = 0xffff;
  for (;;) {
    if ((++steps & lim) == 0) {
      if (SH->stop.load()) incomplete("stopped: deadline or path limit");
      if (steps > opt.maxsteps) violation("hang", "path exceeds the step limit of " + std::to_string(opt.maxsteps) + " instructions");
    }
    const Inst &x = *I++;
    switch (x.op) {
    case B_COPY: R[x.d] = V(x.a); break;
    case B_BIN: {
      Val &a = V(x.a), &b = V(x.b); Val &d = R[x.d]; Op op = (Op)x.fl; unsigned w = x.w;
      if (op >= Op::UDiv && op <= Op::SRem) { // division by zero traps
        if (b.e) { Expr *z = mkbin(Op::Eq, b.e, mkconst(0, w)); F->pc = I - code; if (branch(z)) violation("arith", "integer division by zero"); }
        else if (b.lo == 0 && b.hi == 0) { F->pc = I - code; violation("arith", "integer division by zero"); }
        if (op == Op::SDiv || op == Op::SRem) { if (a.e || b.e) { if (w >= 32) { Expr *o = mkbin(Op::And, mkbin(Op::Eq, ex(b, w), mkconst(~(u128)0, w)), mkbin(Op::Eq, ex(a, w), mkconst((u128)1 << (w - 1), w))); F->pc = I - code; if (branch(o)) violation("arith", "signed division overflow (traps)"); } }
          else if (w >= 32 && w <= 64 && s64(b.lo, w) == -1 && a.lo == (1ull << (w - 1))) { F->pc = I - code; violation("arith", "signed division overflow (traps)"); } }
      }
      if (a.e || b.e) { setv(d, mkbin(op, ex(a, w), ex(b, w))); break; }
      if (w > 64) { u128 r = eval_op(op, 0, w, w, 0, U(a.lo, a.hi), U(b.lo, b.hi), 0); d.lo = (u64)r; d.hi = (u64)(r >> 64); d.e = nullptr; break; }
      u64 A = a.lo, B = b.lo, r;
      switch (op) {
      case Op::Add: r = A + B; break; case Op::Sub: r = A - B; break; case Op::Mul: r = A * B; break;
      case Op::And: r = A & B; break; case Op::Or: r = A | B; break; case Op::Xor: r = A ^ B; break;
      case Op::UDiv: r = A / B; break; case Op::URem: r = A % B; break;
      case Op::SDiv: r = (u64)(s64(A, w) / s64(B, w)); break; case Op::SRem: r = s64(B, w) == -1 ? 0 : (u64)(s64(A, w) % s64(B, w)); break;
      case Op::Shl: r = B >= w ? 0 : A << B; break; case Op::LShr: r = B >= w ? 0 : A >> B; break; default: r = (u64)(s64(A, w) >> (B >= w ? w - 1 : B)); break;
      }
      d.lo = r & m64(w); d.hi = 0; d.e = nullptr; break; }
    case B_ICMP: {
      Val &a = V(x.a), &b = V(x.b); Val &d = R[x.d]; unsigned w = x.w;
      if (a.e || b.e) { setv(d, cmpx(x.fl, ex(a, w), ex(b, w))); break; }
      bool r;
      if (w > 64) { u128 A = U(a.lo, a.hi), B = U(b.lo, b.hi); i128 sa = sx128(A, w), sb = sx128(B, w); switch (x.fl) { case P_EQ: r = A == B; break; case P_NE: r = A != B; break; case P_UGT: r = A > B; break; case P_UGE: r = A >= B; break; case P_ULT: r = A < B; break; case P_ULE: r = A <= B; break; case P_SGT: r = sa > sb; break; case P_SGE: r = sa >= sb; break; case P_SLT: r = sa < sb; break; default: r = sa <= sb; break; } }
      else { u64 A = a.lo, B = b.lo; switch (x.fl) { case P_EQ: r = A == B; break; case P_NE: r = A != B; break; case P_UGT: r = A > B; break; case P_UGE: r = A >= B; break; case P_ULT: r = A < B; break; case P_ULE: r = A <= B; break; case P_SGT: r = s64(A, w) > s64(B, w); break; case P_SGE: r = s64(A, w) >= s64(B, w); break; case P_SLT: r = s64(A, w) < s64(B, w); break; default: r = s64(A, w) <= s64(B, w); break; } }
      d.lo = r; d.hi = 0; d.e = nullptr; break; }
    case B_FBIN: {
      Val &a = V(x.a), &b = V(x.b); Val &d = R[x.d]; Op op = (Op)x.fl; unsigned w = x.w;
      if (w == 80) { if (a.e || b.e) { F->pc = I - code; incomplete("symbolic x87 value"); } long double p = ld(a), q = ld(b); setld(d, op == Op::FAdd ? p + q : op == Op::FSub ? p - q : op == Op::FMul ? p * q : op == Op::FDiv ? p / q : fmodl(p, q)); break; }
      if (a.e || b.e) { Expr *A = ex(a, w), *B = ex(b, w); FLAG(op, A, B, w); setv(d, mkfbin(op, A, B)); break; }
      if (flagtrack) FLAG(op, mkconst(a.lo, w), mkconst(b.lo, w), w);
      d.lo = (u64)eval_op(op, 0, w, w, 0, a.lo, b.lo, 0); d.hi = 0; d.e = nullptr; break; }
    case B_FNEG: { Val &a = V(x.a); Val &d = R[x.d]; if (x.w == 80) { setld(d, -ld(a)); break; } u64 s = 1ull << (x.w - 1); if (a.e) setv(d, mkbin(Op::Xor, a.e, mkconst(s, x.w))); else { d.lo = a.lo ^ s; d.hi = 0; d.e = nullptr; } break; }
    case B_FCMP: {
      Val &a = V(x.a), &b = V(x.b); Val &d = R[x.d]; unsigned w = x.w;
      if (a.e || b.e) { if (w == 80) { F->pc = I - code; incomplete("symbolic x87 value"); } setv(d, efcmp(x.fl, ex(a, w), ex(b, w))); break; }
      bool lt, eq, un;
      if (w == 80) { long double p = ld(a), q = ld(b); lt = p < q; eq = p == q; un = p != p || q != q; }
      else if (w == 32) { float p = vf(a), q = vf(b); lt = p < q; eq = p == q; un = p != p || q != q; } else { double p = vd(a), q = vd(b); lt = p < q; eq = p == q; un = p != p || q != q; }
      d.lo = fpred(x.fl, lt, eq, un); d.hi = 0; d.e = nullptr; break; }
    case B_SEL: {
      Val &c = V(x.a); Val &d = R[x.d];
      if (c.e) {
        Val &p = V(x.b), &q = V((i32)x.c); 
        if (!p.e && !q.e && p.lo == q.lo && p.hi == q.hi) { d = p; break; }
        if (x.fl) { F->pc = I - code; bool t = branch(c.e); Val tv = t ? V(x.b) : V((i32)x.c); R[x.d] = tv; break; }
        setv(d, mkite(c.e, ex(p, x.w), ex(q, x.w))); break;
      }
      d = c.lo & 1 ? V(x.b) : V((i32)x.c); break; }
    case B_TRUNC: { Val &a = V(x.a); Val &d = R[x.d]; if (a.e) setv(d, mkextract(a.e, 0, x.w)); else { u128 v = U(a.lo, a.hi) & mask128(x.w); d.lo = (u64)v; d.hi = (u64)(v >> 64); d.e = nullptr; } break; }
    case B_ZEXT: { Val &a = V(x.a); Val &d = R[x.d]; if (a.e) setv(d, mkzext(a.e, x.w)); else d = a; break; }
    case B_SEXT: { Val &a = V(x.a); Val &d = R[x.d]; if (a.e) setv(d, mksext(a.e, x.w)); else if (x.w <= 64) { d.lo = (u64)s64(a.lo, x.imm) & m64(x.w); d.hi = 0; d.e = nullptr; } else { u128 v = (u128)sx128(U(a.lo, a.hi), x.imm) & mask128(x.w); d.lo = (u64)v; d.hi = (u64)(v >> 64); d.e = nullptr; } break; }
    case B_FPCVT: {
      Val &a = V(x.a); Val &d = R[x.d]; unsigned fw = x.imm, w = x.w;
      if (fw == 80 || w == 80) {
        if (a.e) { F->pc = I - code; u128 v = concretize(a.e); (void)v; }
        Val &a2 = V(x.a); long double l = fw == 80 ? ld(a2) : fw == 32 ? (long double)vf(a2) : (long double)vd(a2);
        if (w == 80) setld(R[x.d], l); else if (w == 32) { float f = (float)l; u32 t; memcpy(&t, &f, 4); R[x.d] = {t, 0, nullptr}; } else { double f = (double)l; u64 t; memcpy(&t, &f, 8); R[x.d] = {t, 0, nullptr}; } break; }
      if (a.e) { FLAG(Op::FCvt, a.e, nullptr, w); setv(d, mkfun(Op::FCvt, a.e, w)); break; }
      if (flagtrack) FLAG(Op::FCvt, mkconst(a.lo, fw), nullptr, w);
      d.lo = (u64)eval_op(Op::FCvt, 0, w, fw, 0, a.lo, 0, 0); d.hi = 0; d.e = nullptr; break; }
    case B_FPTOSI: case B_FPTOUI: {
      Val &a = V(x.a); Val &d = R[x.d]; Op op = x.op == B_FPTOSI ? Op::FToSI : Op::FToUI; unsigned fw = x.imm, w = x.w;
      if (fw == 80) { long double l = ld(a); if (x.op == B_FPTOSI) { i64 t = (i64)l; d.lo = (u64)t & m64(w); } else { u64 t = (u64)l; d.lo = t & m64(w); } d.hi = 0; d.e = nullptr; break; }
      if (a.e) { FLAG(op, a.e, nullptr, w); setv(d, mkfun(op, a.e, w)); break; }
      if (flagtrack) FLAG(op, mkconst(a.lo, fw), nullptr, w);
      u128 r = eval_op(op, 0, w, fw, 0, a.lo, 0, 0); d.lo = (u64)r; d.hi = (u64)(r >> 64); d.e = nullptr; break; }
    case B_SITOFP: case B_UITOFP: {
      Val &a = V(x.a); Val &d = R[x.d]; Op op = x.op == B_SITOFP ? Op::SIToF : Op::UIToF; unsigned fw = x.imm, w = x.w;
      if (w == 80) { if (a.e) { F->pc = I - code; concretize(a.e); } Val &a2 = V(x.a); setld(R[x.d], x.op == B_SITOFP ? (long double)sx128(U(a2.lo, a2.hi), fw) : (long double)U(a2.lo, a2.hi)); break; }
      if (a.e) { FLAG(op, a.e, nullptr, w); setv(d, mkfun(op, a.e, w)); break; }
      if (flagtrack) FLAG(op, mkconst(U(a.lo, a.hi), fw), nullptr, w);
      d.lo = (u64)eval_op(op, 0, w, fw, 0, U(a.lo, a.hi), 0, 0); d.hi = 0; d.e = nullptr; break; }
    case B_LOAD: { F->pc = I - code; Val r; load(r, x.imm, V(x.a), x.w, x.fl); R[x.d] = r; break; }
    case B_STORE: { F->pc = I - code; store(V(x.a), x.imm, V(x.b), x.w); break; }
    case B_ADDI: { Val &a = V(x.a); Val &d = R[x.d]; if (a.e) setv(d, mkbin(Op::Add, a.e, mkconst(x.imm, 64))); else { d.lo = a.lo + x.imm; d.hi = 0; d.e = nullptr; } break; }
    case B_GEPADD: {
      Val &a = V(x.a), &b = V(x.b); Val &d = R[x.d];
      if (a.e || b.e) { Expr *ix = ex(b, x.w); ix = x.w < 64 ? mksext(ix, 64) : x.w > 64 ? mkextract(ix, 0, 64) : ix; setv(d, mkbin(Op::Add, ex(a, 64), mkbin(Op::Mul, ix, mkconst(x.imm, 64)))); }
      else { d.lo = a.lo + (u64)s64(b.lo, x.w) * x.imm; d.hi = 0; d.e = nullptr; } break; }
    case B_ALLOCA: {
      F->pc = I - code; Val cv = V(x.a); if (cv.e) concretize(cv.e), cv = V(x.a); u64 n = cv.lo * x.imm; u64 al = (u32)x.b < 16 ? 16 : (u32)x.b;
      u64 o = (sp + 32 + 16 + al - 1) & ~(al - 1); if (o + n + 64 > ARENA + STK_SIZE || n > STK_SIZE) violation("stack", "stack overflow");
      stack_obj(o - 16, n); memset((void *)o, 0xA5, n); sp = (o + n + 15) & ~15ull; R[x.d] = {o, 0, nullptr}; break; }
    case B_BR: I = code + x.b; break;
    case B_CBR: { Val &c = V(x.a); bool t; if (c.e) { F->pc = I - code; t = branch(c.e); } else t = c.lo & 1; I = code + (t ? x.b : x.c); break; }
    case B_SWITCH: {
      SwitchInfo &s = F->f->sws[x.imm]; Val &c = V(x.a); F->pc = I - code;
      if (c.e) {
        Expr *e = c.e; std::vector<std::pair<i32, Expr *>> tg; Expr *any = mkconst(0, 1);
        for (auto &k : s.cases) { Expr *q = mkbin(Op::Eq, e, mkconst(k.first, x.w)); any = mkbin(Op::Or, any, q); bool f = false; for (auto &t : tg) if (t.first == k.second) { t.second = mkbin(Op::Or, t.second, q); f = true; break; } if (!f) tg.push_back({k.second, q}); }
        i32 dest = s.def; for (auto &t : tg) { if (t.first == s.def) continue; if (branch(t.second)) { dest = t.first; break; } }
        I = code + dest; break;
      }
      i32 dest = s.def; for (auto &k : s.cases) if (k.first == c.lo) { dest = k.second; break; } I = code + dest; break; }
    case B_PHI: {
      PhiInfo &p = F->f->phis[x.imm]; size_t n = p.mv.size(); Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; i++) t[i] = V(p.mv[i].second); for (size_t i = 0; i < n; i++) R[p.mv[i].first] = t[i]; I = code + p.target; break; }
    case B_RET: {
      Val rv[64]; unsigned n = x.b; for (unsigned j = 0; j < n; j++) rv[j] = x.a >= 0 ? R[x.a + j] : K[~(x.a - (i32)j)];
      pop(); if (fr.empty()) return;
      RELOAD(); const CallInfo *ci = F->ci; F->ci = nullptr;
      if (ci) { unsigned m = n < ci->ndst ? n : ci->ndst; for (unsigned j = 0; j < m; j++) R[ci->dst + j] = rv[j]; if (ci->invoke) I = code + ci->normal; }
      break; }
    case B_CALL: {
      const CallInfo &ci = *F->f->calls[x.imm]; F->pc = I - code; F->ci = &ci;
      if (!ci.asmtxt.empty()) { // compiler barriers only
        if (ci.asmtxt != " ") incomplete("inline assembly: " + ci.asmtxt); F->ci = nullptr; break; }
      Val args[64]; unsigned n = 0;
      for (const ArgInfo &a : ci.args) for (unsigned j = 0; j < a.n; j++) { if (n >= 64) incomplete("call with too many argument slots"); args[n++] = a.op >= 0 ? R[a.op + j] : K[~(a.op - (i32)j)]; }
      FuncRef *t = ci.target; u64 addr = 0;
      if (!t) { Val cv = V(ci.callee); if (cv.e) { concretize(cv.e); cv = V(ci.callee); for (n = 0; const ArgInfo &a : ci.args) for (unsigned j = 0; j < a.n; j++) args[n++] = a.op >= 0 ? R[a.op + j] : K[~(a.op - (i32)j)]; } addr = cv.lo; if (addr < 4096) violation("null", "call through a null function pointer"); t = prog_func_at(addr); if (!t && in_arena(addr)) violation("memory", "call through a wild pointer"); }
      if (t && !t->isnative && !t->icpt && t->state < 2) { t->icpt = find_intercept(t->name); if (!t->icpt && (!prog_has_body(t) || prefer_native(t->name))) t->isnative = true; if (t->state == 0 && (t->icpt || t->isnative)) t->state = 2; }
      if (t && t->icpt) {
        Val ret[4]; memset(ret, 0, sizeof ret); int r = t->icpt(*this, ci, args, n, ret);
        if (r == 0) { for (unsigned j = 0; j < ci.ndst; j++) R[ci.dst + j] = ret[j]; F = &fr.back(); F->ci = nullptr; if (ci.invoke) I = code + ci.normal; break; }
        if (fr.empty()) return;
        RELOAD(); break;
      }
      if (t && !t->isnative) { push(t, &ci, args, n); RELOAD(); break; }
      if (t) addr = t->addr; if (!addr) incomplete("unresolved function " + (t ? t->name : std::string("?")));
      Val ret[64]; memset(ret, 0, sizeof(Val) * ci.ndst);
      if (native_call(t, addr, ci, args, n, ret)) { RELOAD(); break; }
      for (unsigned j = 0; j < ci.ndst; j++) R[ci.dst + j] = ret[j];
      F->ci = nullptr; if (ci.invoke) I = code + ci.normal; break; }
    case B_UNREACH: F->pc = I - code; violation("crash", "reached an unreachable instruction (undefined behaviour)");
    case B_LPAD: R[x.d] = {pend_obj, 0, nullptr}; R[x.d + 1] = {(u64)(u32)pend_sel, 0, nullptr}; break;
    case B_RESUME: { u64 obj = (x.a >= 0 ? R[x.a] : K[~x.a]).lo; Exc *e = excs[obj]; if (!e) incomplete("resume of unknown exception"); pop(); unwind(e); RELOAD(); break; }
    case B_PACK: { u128 v = 0; Expr *e = nullptr; bool s = false; unsigned ew = x.w; for (u64 j = 0; j < x.imm; j++) { Val &q = x.a >= 0 ? R[x.a + j] : (Val &)K[~(x.a - (i32)j)]; if (q.e) s = true; v |= U(q.lo, q.hi) << (ew * j); }
      if (s) { for (u64 j = 0; j < x.imm; j++) { Val &q = x.a >= 0 ? R[x.a + j] : (Val &)K[~(x.a - (i32)j)]; Expr *y = ex(q, ew); e = e ? mkconcat(y, e) : y; } setv(R[x.d], e); } else R[x.d] = {(u64)v, (u64)(v >> 64), nullptr}; break; }
    case B_UNPACK: { Val a = V(x.a); for (u64 j = 0; j < x.imm; j++) { if (a.e) setv(R[x.d + j], mkextract(a.e, x.w * j, x.w)); else { u128 v = (U(a.lo, a.hi) >> (x.w * j)) & mask128(x.w); R[x.d + j] = {(u64)v, (u64)(v >> 64), nullptr}; } } break; }
    case B_EXTRACTEL: { F->pc = I - code; Val &iv = V(x.b); if (iv.e) concretize(iv.e); u64 k = V(x.b).lo; if (k >= x.imm) k = 0; R[x.d] = x.a >= 0 ? R[x.a + k] : K[~(x.a - (i32)k)]; break; }
    case B_MEMCPY: case B_MEMMOVE: {
      F->pc = I - code; for (i32 o : {x.a, x.b, x.c}) { Val &v = V(o); if (v.e) concretize(v.e); }
      u64 d = V(x.a).lo, s = V(x.b).lo, n = V(x.c).lo; if (!n) break; check_range(d, n, true); check_range(s, n, false); sh_copy(d, s, n); memmove((void *)d, (void *)s, n); break; }
    case B_MEMSET: {
      F->pc = I - code; for (i32 o : {x.a, x.c}) { Val &v = V(o); if (v.e) concretize(v.e); }
      u64 d = V(x.a).lo, n = V(x.c).lo; Val &v = V(x.b); if (!n) break; check_range(d, n, true); sh_clear(d, n); memset((void *)d, (int)v.lo, n); if (v.e) for (u64 j = 0; j < n; j++) sh_set(d + j, v.e, 0); break; }
    case B_CMPXCHG: {
      F->pc = I - code; Val cur; load(cur, 0, V(x.a), x.w, false); Val c = V(x.b), nv = V((i32)x.c); bool eq;
      if (cur.e || c.e) { eq = branch(mkbin(Op::Eq, ex(cur, x.w), ex(c, x.w))); if (cur.e) setv(cur, cur.e); nv = V((i32)x.c); } else eq = cur.lo == c.lo && cur.hi == c.hi;
      if (eq) store(V(x.a), 0, nv, x.w); R[x.d] = cur; R[x.d + 1] = {eq, 0, nullptr}; break; }
    case B_RMW: {
      F->pc = I - code; Val old; load(old, 0, V(x.a), x.w, false); Val v = V(x.b); Val nv; Expr *A = ex(old, x.w), *B = ex(v, x.w), *r;
      switch (x.fl) { case 0: r = B; break; case 1: r = mkbin(Op::Add, A, B); break; case 2: r = mkbin(Op::Sub, A, B); break; case 3: r = mkbin(Op::And, A, B); break; case 5: r = mkbin(Op::Or, A, B); break; case 6: r = mkbin(Op::Xor, A, B); break; default: incomplete("atomicrmw op"); }
      setv(nv, r); store(V(x.a), 0, nv, x.w); R[x.d] = old; break; }
    case B_UNSUP: F->pc = I - code; incomplete("unsupported instruction: " + F->f->msgs[x.imm]);
    case B_INTRIN: {
      Val &a = V(x.a); Val &d = R[x.d]; unsigned w = x.w; F->pc = I - code;
      auto A = [&] { return ex(V(x.a), w); }; auto B = [&] { return ex(V(x.b), w); }; auto CC = [&] { return ex(V((i32)x.c), w); };
      switch (x.fl) {
      case I_TYPEID: d = {(u64)typeid_of(a.lo), 0, nullptr}; break;
      case I_TRAP: violation("crash", "trap instruction");
      case I_STACKSAVE: d = {sp, 0, nullptr}; break;
      case I_STACKRESTORE: break;
      case I_BSWAP: { if (!a.e && w <= 64) { d = {__builtin_bswap64(a.lo) >> (64 - w), 0, nullptr}; break; } Expr *e = A(), *r = nullptr; for (unsigned j = 0; j < w; j += 8) { Expr *b = mkextract(e, j, 8); r = r ? mkconcat(r, b) : b; } setv(d, r); break; }
      case I_CTPOP: { if (!a.e && w <= 64) { d = {(u64)__builtin_popcountll(a.lo), 0, nullptr}; break; } Expr *e = A(), *r = mkconst(0, w); for (unsigned j = 0; j < w; j++) r = mkbin(Op::Add, r, mkzext(mkextract(e, j, 1), w)); setv(d, r); break; }
      case I_CTLZ: { Expr *e = A(), *r = mkconst(w, w); for (unsigned j = 0; j < w; j++) r = mkite(mkextract(e, j, 1), mkconst(w - 1 - j, w), r); setv(d, r); break; }
      case I_CTTZ: { Expr *e = A(), *r = mkconst(w, w); for (unsigned j = w; j-- > 0;) r = mkite(mkextract(e, j, 1), mkconst(j, w), r); setv(d, r); break; }
      case I_BITREV: { Expr *e = A(), *r = mkextract(e, 0, 1); for (unsigned j = 1; j < w; j++) r = mkconcat(r, mkextract(e, j, 1)); setv(d, r); break; }
      case I_FSHL: case I_FSHR: { // funnel shift
        Expr *s = mkbin(Op::URem, CC(), mkconst(w, w)), *a1 = A(), *b1 = B(); Expr *inv = mkbin(Op::Sub, mkconst(w, w), s);
        Expr *r = x.fl == I_FSHL ? mkbin(Op::Or, mkbin(Op::Shl, a1, s), mkbin(Op::LShr, b1, inv)) : mkbin(Op::Or, mkbin(Op::Shl, a1, inv), mkbin(Op::LShr, b1, s));
        setv(d, mkite(mkbin(Op::Eq, s, mkconst(0, w)), x.fl == I_FSHL ? a1 : b1, r)); break; }
      case I_UMAX: setv(d, mkite(mkbin(Op::Ult, A(), B()), B(), A())); break; case I_UMIN: setv(d, mkite(mkbin(Op::Ult, A(), B()), A(), B())); break;
      case I_SMAX: setv(d, mkite(mkbin(Op::Slt, A(), B()), B(), A())); break; case I_SMIN: setv(d, mkite(mkbin(Op::Slt, A(), B()), A(), B())); break;
      case I_ABS: setv(d, mkite(mkbin(Op::Slt, A(), mkconst(0, w)), mkbin(Op::Sub, mkconst(0, w), A()), A())); break;
      case I_UADDO: { Expr *a1 = A(), *b1 = B(); Expr *r = mkbin(Op::Add, a1, b1); Expr *o = mkbin(Op::Ult, r, a1); setv(R[x.d], r); setv(R[x.d + 1], o); break; }
      case I_USUBO: { Expr *a1 = A(), *b1 = B(); Expr *r = mkbin(Op::Sub, a1, b1), *o = mkbin(Op::Ult, a1, b1); setv(R[x.d], r); setv(R[x.d + 1], o); break; }
      case I_SADDO: case I_SSUBO: { Expr *a1 = A(), *b1 = B(); Op o = x.fl == I_SADDO ? Op::Add : Op::Sub; Expr *r = mkbin(o, a1, b1); Expr *f;
        if (w < 128) { Expr *W = mkbin(o, mksext(a1, w + 1), mksext(b1, w + 1)); f = mknot(mkbin(Op::Eq, W, mksext(r, w + 1))); }
        else { Expr *sa = mkextract(a1, 127, 1), *sb = mkextract(b1, 127, 1), *sr = mkextract(r, 127, 1); Expr *x1 = mkbin(Op::Xor, sa, sr), *x2 = mkbin(Op::Xor, o == Op::Add ? sb : mknot(sb), sr); f = mkbin(Op::And, x1, x2); }
        setv(R[x.d], r); setv(R[x.d + 1], f); break; }
      case I_UMULO: case I_SMULO: { Expr *a1 = A(), *b1 = B(); if (w > 64) incomplete("128-bit mul overflow"); bool sg = x.fl == I_SMULO; Expr *W = mkbin(Op::Mul, sg ? mksext(a1, 2 * w) : mkzext(a1, 2 * w), sg ? mksext(b1, 2 * w) : mkzext(b1, 2 * w)); Expr *r = mkextract(W, 0, w); Expr *f = mknot(mkbin(Op::Eq, W, sg ? mksext(r, 2 * w) : mkzext(r, 2 * w))); setv(R[x.d], r); setv(R[x.d + 1], f); break; }
      case I_UADDSAT: { Expr *r = mkbin(Op::Add, A(), B()); setv(d, mkite(mkbin(Op::Ult, r, A()), mkconst(~(u128)0, w), r)); break; }
      case I_USUBSAT: { Expr *a1 = A(), *b1 = B(); setv(d, mkite(mkbin(Op::Ult, a1, b1), mkconst(0, w), mkbin(Op::Sub, a1, b1))); break; }
      case I_SADDSAT: case I_SSUBSAT: { Expr *a1 = A(), *b1 = B(); Op o = x.fl == I_SADDSAT ? Op::Add : Op::Sub; Expr *W = mkbin(o, mksext(a1, w + 1), mksext(b1, w + 1)); Expr *mx = mkconst(((u128)1 << (w - 1)) - 1, w + 1), *mn = mksext(mkconst((u128)1 << (w - 1), w), w + 1); setv(d, mkextract(mkite(mkbin(Op::Slt, mx, W), mx, mkite(mkbin(Op::Slt, W, mn), mn, W)), 0, w)); break; }
      case I_FABS: if (w == 80) { setld(d, fabsl(ld(a))); break; } setv(d, mkbin(Op::And, A(), mkconst(mask128(w - 1), w))); break;
      case I_COPYSIGN: setv(d, mkbin(Op::Or, mkbin(Op::And, A(), mkconst(mask128(w - 1), w)), mkbin(Op::And, B(), mkconst((u128)1 << (w - 1), w)))); break;
      case I_SQRT: if (w == 80) { setld(d, sqrtl(ld(a))); break; } setv(d, mkfun(Op::FSqrt, A(), w)); break;
      case I_FLOOR: case I_CEIL: case I_TRUNCF: case I_RINT: case I_ROUND:
        if (w == 80) { long double l = ld(a); setld(d, x.fl == I_FLOOR ? floorl(l) : x.fl == I_CEIL ? ceill(l) : x.fl == I_TRUNCF ? truncl(l) : x.fl == I_RINT ? rintl(l) : roundl(l)); break; }
        setv(d, mkfun(Op::FRound, A(), w, x.fl == I_FLOOR ? 1 : x.fl == I_CEIL ? 2 : x.fl == I_TRUNCF ? 3 : x.fl == I_RINT ? 0 : 4)); break;
      case I_MINNUM: setv(d, mkite(mkfcmp(Op::FUno, A(), A()), B(), mkite(mkfcmp(Op::FLt, B(), A()), B(), A()))); break;
      case I_MAXNUM: setv(d, mkite(mkfcmp(Op::FUno, A(), A()), B(), mkite(mkfcmp(Op::FLt, A(), B()), B(), A()))); break;
      case I_FMA: setv(d, mkfma(A(), B(), CC())); break;
      case I_FMULADD: { Expr *m = mkfbin(Op::FMul, A(), B()); FLAG(Op::FMul, A(), B(), w); FLAG(Op::FAdd, m, CC(), w); setv(d, mkfbin(Op::FAdd, m, CC())); break; }
      case I_ISFPCLASS: {
        if (w != 32 && w != 64) incomplete("is.fpclass width"); u64 test = V(x.b).lo; Expr *e = A(); unsigned mb = w == 32 ? 23 : 52, eb = w - 1 - mb; Expr *man = mkextract(e, 0, mb), *exx = mkextract(e, mb, eb), *sg = mkextract(e, w - 1, 1);
        Expr *e1 = mkbin(Op::Eq, exx, mkconst(~(u128)0, eb)), *e0 = mkbin(Op::Eq, exx, mkconst(0, eb)), *m0 = mkbin(Op::Eq, man, mkconst(0, mb)), *q = mkextract(e, mb - 1, 1), *r = mkconst(0, 1), *ns = mknot(sg);
        Expr *nan = mkbin(Op::And, e1, mknot(m0)), *inf = mkbin(Op::And, e1, m0), *zero = mkbin(Op::And, e0, m0), *sub = mkbin(Op::And, e0, mknot(m0)), *nor = mkbin(Op::And, mknot(e0), mknot(e1));
        Expr *cl[10] = {mkbin(Op::And, nan, mknot(q)), mkbin(Op::And, nan, q), mkbin(Op::And, inf, sg), mkbin(Op::And, nor, sg), mkbin(Op::And, sub, sg), mkbin(Op::And, zero, sg), mkbin(Op::And, zero, ns), mkbin(Op::And, sub, ns), mkbin(Op::And, nor, ns), mkbin(Op::And, inf, ns)};
        for (int k = 0; k < 10; k++) if (test >> k & 1) r = mkbin(Op::Or, r, cl[k]); setv(d, r); break; }
      default: incomplete("intrinsic kind " + std::to_string(x.fl));
      }
      break; }
    default: incomplete("bad opcode " + std::to_string(x.op));
    }
  }
}
void set_have_token() { have_token = true; }
