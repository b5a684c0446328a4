// Compact register bytecode the interpreter runs; produced from LLVM IR by translate.cpp
#pragma once
#include "expr.h"
#include <string>
#include <vector>

struct Val { u64 lo, hi; Expr *e; };
struct FuncCode; struct FuncRef; struct Interp;

enum BOp : u16 {
  B_BIN, B_ICMP, B_FBIN, B_FCMP, B_FNEG, B_SEL, B_TRUNC, B_ZEXT, B_SEXT, B_FPCVT, B_FPTOSI, B_FPTOUI, B_SITOFP, B_UITOFP,
  B_COPY, B_LOAD, B_STORE, B_ADDI, B_GEPADD, B_ALLOCA, B_BR, B_CBR, B_SWITCH, B_PHI, B_RET, B_CALL, B_UNREACH, B_LPAD, B_RESUME,
  B_INTRIN, B_CMPXCHG, B_RMW, B_UNSUP, B_PACK, B_UNPACK, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_EXTRACTEL, B_INSERTEL
};
enum IPred { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct Inst { u16 op; u8 w, fl; i32 d, a, b, c; u64 imm; };
struct ArgInfo { i32 op; u16 n; u8 kind; u8 w; bool byval; u32 bysize, byalign; };  // kind: 0 int/ptr 1 float 2 double 3 fp80 4 i128 5 <2 x float> 6 other
struct LPClause { bool isfilter; u64 ti; };
struct CallInfo {
  FuncRef *target; i32 callee; std::vector<ArgInfo> args; i32 dst; u16 ndst; std::vector<u8> rk, rw; bool isptrret;
  bool invoke; i32 normal, unwind; bool vararg; u32 nfixed;
  std::string asmtxt;
};
struct LPInfo { bool cleanup; std::vector<LPClause> cl; };
struct SwitchInfo { std::vector<std::pair<u64, i32>> cases; i32 def; };
struct PhiInfo { std::vector<std::pair<i32, i32>> mv; i32 target; };   // dst <- src
enum IntrinId { I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR, I_UMAX, I_UMIN, I_SMAX, I_SMIN, I_ABS, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_UMULO, I_SMULO,
  I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT, I_FABS, I_SQRT, I_FLOOR, I_CEIL, I_TRUNCF, I_RINT, I_ROUND, I_COPYSIGN, I_MINNUM, I_MAXNUM, I_FMA, I_FMULADD, I_ISFPCLASS,
  I_MATH1, I_MATH2, I_POWI, I_TYPEID, I_TRAP, I_BITREV, I_STACKSAVE, I_STACKRESTORE, I_UCMP, I_SCMP };

struct FuncCode {
  std::string name; FuncRef *ref; u32 nregs; u32 nargs_slots; std::vector<u32> argslot; std::vector<ArgInfo> params;
  std::vector<Inst> code; std::vector<Val> K;
  std::vector<CallInfo *> calls; std::vector<LPInfo> lps; std::vector<SwitchInfo> sws; std::vector<PhiInfo> phis; std::vector<std::string> msgs;
  std::vector<u32> dbgblock;
  bool vararg; std::vector<i32> lpad_at; // pc -> lp index via Inst.imm
};
typedef int (*Intercept)(Interp &, const CallInfo &ci, Val *args, unsigned nargs, Val *ret);
struct FuncRef {
  std::string name; u64 addr; int module; FuncCode *code; Intercept icpt; int state; bool isnative; int policy; u32 id;
};
// ---- program (translate.cpp)
void prog_add_index(const std::string &idx, const std::string &bc);
FuncRef *prog_func(const std::string &name);            // by symbol name (creates)
FuncRef *prog_func_at(u64 addr);                        // by address, nullptr when unknown
bool prog_has_body(FuncRef *f);
FuncCode *prog_code(FuncRef *f);                        // translate on demand
u64 prog_symbol(const std::string &name);               // native address of any symbol, 0 when unknown
bool prog_global(u64 addr, u64 &base, u64 &size, std::string *name = nullptr);
void prog_load_elf(const char *path, u64 base);
const char *prog_name_at(u64 addr);
extern u64 g_translated;
