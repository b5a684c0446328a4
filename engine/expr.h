// Hash-consed bit-vector / IEEE-754 expression DAG.
// Every expression carries its value under the path's current model ("concolic").
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32;
typedef uint16_t u16; typedef uint8_t u8;

enum class Op : u8 {
  Const, Var, Extract, Concat, ZExt, SExt,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite,
  // floating point over bit patterns; aux = rounding mode where relevant
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRound, FMA,
  FEq, FLt, FLe, FUno,
  FCvt,      // fp -> fp of width w
  FToSI, FToUI, // x86 semantics for out of range (see fp_to_int)
  SIToF, UIToF,
  // sticky IEEE exception conditions of an operation: aux = inner op; result 1 bit
  FlagOverflow, FlagInvalid, FlagInexact, FlagDivZero, FlagUnderflow
};

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  Op op; u8 aux; u16 w; u32 id;
  Expr *k[3];
  u64 clo, chi;       // constant value / Extract low bit / Var id
  u64 vlo, vhi;       // value under current model
  u32 epoch; u32 nodes;
  const VarSet *vs;
  void *z, *zf;       // cached Z3 asts (bit-vector/Bool, fp)
  Expr *next;         // hash chain
  u64 hash;
};

inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u128 U(u64 lo, u64 hi) { return ((u128)hi << 64) | lo; }
inline i128 sx128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= mask128(w); return (i128)((v ^ s) - s); }

extern u32 g_epoch;
extern std::vector<u128> g_model;           // by var id
struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

u128 eval_slow(Expr *e);
inline u128 eval(Expr *e) { if (e->epoch == g_epoch) return U(e->vlo, e->vhi); return eval_slow(e); }
inline bool isc(Expr *e) { return e->op == Op::Const; }
inline u128 cval(Expr *e) { return U(e->clo, e->chi); }

Expr *mkconst(u128 v, unsigned w);
Expr *mkvar(unsigned w, const std::string &name, u128 init);
Expr *mkextract(Expr *e, unsigned lo, unsigned w);
Expr *mkconcat(Expr *hi, Expr *lo);
Expr *mkzext(Expr *e, unsigned w);
Expr *mksext(Expr *e, unsigned w);
Expr *mkbin(Op op, Expr *a, Expr *b);
Expr *mknot(Expr *b);                        // 1 bit
Expr *mkite(Expr *c, Expr *a, Expr *b);
Expr *mkfbin(Op op, Expr *a, Expr *b);
Expr *mkfcmp(Op op, Expr *a, Expr *b);       // FEq FLt FLe FUno
Expr *mkfun(Op op, Expr *a, unsigned w, u8 aux = 0);   // FSqrt FRound FCvt FToSI FToUI SIToF UIToF
Expr *mkfma(Expr *a, Expr *b, Expr *c);
Expr *mkflag(Op flag, Op inner, Expr *a, Expr *b, unsigned w); // exception condition
const VarSet *vs_union(const VarSet *a, const VarSet *b);
u128 eval_op(Op op, u8 aux, unsigned w, unsigned kw, u64 clo, u128 a, u128 b, u128 c);
std::string estr(Expr *e, int depth = 6);
extern u64 g_nexpr;
