#pragma once
#include "code.h"
#include "mem.h"
#include "solver.h"
#include <atomic>
#include <string>
#include <vector>
#include <unordered_map>

static const int MAXE = 512, MAXR = 512, FH = 1 << 16;
struct EntryStats { char name[96]; std::atomic<u64> paths, assumed_out, viol, incomplete, asserts, asserts_sym, branches, forks, steps, maxsteps; };
struct ReachSlot { std::atomic<u64> hash, count; char name[88]; int entry; };
struct Shared {
  std::atomic<int> tokens; std::atomic<long> started, finished; std::atomic<int> stop;
  std::atomic<u64> queries, sat, unsat, unk, solver_ns, qcache, fpq, lost, fastq;
  EntryStats e[MAXE]; ReachSlot r[MAXR]; std::atomic<u64> fh[FH]; std::atomic<u64> nfuncs;
  struct { std::atomic<u64> hash, count; } vm[1024]; std::atomic<u64> wit[MAXE];
  std::atomic<u32> nwarm, warm_off; u32 warm_at[16384]; std::atomic<u32> warm_ok[16384]; char warm_buf[4 << 20]; // names of the functions any path has needed
};
extern Shared *SH;
struct Opts {
  std::string lib, libdir, harness, hbc, hidx, out, replay, entries; int jobs = 8; double deadline = 800, qtimeout = 120; u64 maxpaths = 2000000, maxsteps = 400000000; bool verbose = false; int tier = 0;
};
extern Opts opt;
extern int g_entry;
struct Exc { u64 obj, ti, dtor, adjusted; int handlers; bool native; };
struct Frame { FuncCode *f; Val *R; u32 pc; const CallInfo *ci; u64 sp; };

struct Interp {
  std::vector<Frame> fr; Val *rtop; u64 sp; u64 steps = 0;
  Val *rbase;
  std::unordered_map<u64, Exc *> excs; std::vector<Exc *> caught; u64 pend_obj = 0; int pend_sel = 0;
  struct FlagRec { Op inner; Expr *a, *b; unsigned w; unsigned act = 0x3d; };
  std::vector<FlagRec> flags; bool flagtrack = false; bool flagoverflowed = false;
  std::unordered_map<u64, int> typeids; int ntypeid = 0;
  // path condition
  std::unordered_map<Expr *, bool> known;
  std::vector<int> uf; std::unordered_map<int, std::vector<Expr *>> groups;
  std::vector<std::pair<std::string, std::pair<unsigned, Expr *>>> inputs;   // name, width, expr
  bool wit = false; std::vector<std::string> labels; bool replaying = false; std::vector<std::pair<std::string, u128>> rin; size_t rpos = 0;
  bool exact_io = false;                 // native iostream formatting forks on symbolic arguments
  bool lazy_ptr = false;                 // pointers read from memory stay symbolic until they are used
  bool pin_mode = true;                  // iostream formatting natively with pinned values
  // control
  bool branch(Expr *c);
  void assume_true(Expr *c);             // add to path condition (already true in the model)
  u128 concretize(Expr *e);
  void add_pc(Expr *c);
  Res feasible(Expr *c, ModelDelta &m, bool fast = false);
  void install(const ModelDelta &m);
  [[noreturn]] void violation(const char *kind, const std::string &msg);
  [[noreturn]] void finish(int kind);    // 0 ok 1 assumed out 2 violation 3 incomplete
  [[noreturn]] void incomplete(const std::string &why);
  std::string backtrace(); std::string inputs_json(); std::string vnote;
  // execution
  void push(FuncRef *f, const CallInfo *ci, const Val *args, unsigned n);
  void pop();
  void run();
  void unwind(Exc *x);
  void do_throw(u64 obj, u64 ti, u64 dtor, bool native);
  int typeid_of(u64 ti);
  bool match(const LPInfo &lp, Exc *x, int &sel, bool &cleanup);
  bool native_call(FuncRef *f, u64 addr, const CallInfo &ci, Val *args, unsigned n, Val *ret); // true when an exception is unwinding
  Expr *pick_ites(Expr *e);
  void load(Val &d, u64 off, Val &p, unsigned w, bool isptr);
  void store(Val &p, u64 off, Val &v, unsigned w);
  u64 conc(Val &v) { if (v.e) { u128 x = concretize(v.e); v.lo = (u64)x; v.hi = (u64)(x >> 64); v.e = nullptr; } return v.lo; }
  Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkconst(U(v.lo, v.hi), w); }
  static void setv(Val &d, Expr *e) { u128 v = eval(e); d.lo = (u64)v; d.hi = (u64)(v >> 64); d.e = isc(e) ? nullptr : e; }
  void bad_access(u64 a, unsigned n, bool write);
  void check_range(u64 a, u64 n, bool write) { if (n && (a < 4096 || !range_ok(a, n))) bad_access(a, n, write); }
  void pin_range(u64 a, u64 n);          // concretize symbolic bytes
  void concretize_object(u64 p);
  Expr *mem_expr_at(Expr *addr, u64 base, u64 size, unsigned n);
  bool resolve_symbolic(Expr *addr, unsigned n, u64 &base, u64 &size, bool write);
  void refresh_regs();
};
extern Interp *IP;
void register_intercepts();
Intercept find_intercept(const std::string &n);
int native_policy(const std::string &n);   // 0 fork, 1 pin, 2 raw
bool prefer_native(const std::string &n);  // has a body but run it natively (iostream formatting)
void note_function(const std::string &n);
void warm_all();   // translate what other paths have needed, so that children inherit it
void note_reach(const char *label);
u64 note_violation(const std::string &key);   // how often this violation was seen before
