#include "code.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <unordered_map>
#include <map>
#include <fstream>
#include <algorithm>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace llvm;
u64 g_translated = 0;
static LLVMContext *ctx;
struct Mod { std::string path; std::unique_ptr<Module> m; };
static std::vector<Mod> mods;
static std::unordered_map<std::string, int> defmod;              // function name -> module
static std::unordered_map<std::string, std::string> aliases;
static std::unordered_map<std::string, FuncRef *> funcs;
static std::unordered_map<u64, FuncRef *> byaddr;
static std::vector<FuncRef *> allfuncs;
struct Sym { u64 addr, size; std::string name; bool func; };
static std::unordered_map<std::string, u64> symaddr;
static std::vector<Sym> syms; static bool sorted;
static std::unordered_map<u64, std::string> addrname;            // any known function address -> name with body preferred

void prog_add_index(const std::string &idx, const std::string &bc) {
  int m = mods.size(); mods.push_back({bc, nullptr});
  std::ifstream f(idx); std::string k;
  while (f >> k) {
    std::string n; f >> n;
    if (k == "F") defmod.emplace(n, m);
    else if (k == "A") { std::string t; f >> t; aliases.emplace(n, t); }
  }
}
void prog_load_elf(const char *path, u64 base) {
  int fd = open(path, O_RDONLY); struct stat st; fstat(fd, &st);
  const u8 *p = (const u8 *)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  const Elf64_Ehdr *eh = (const Elf64_Ehdr *)p; const Elf64_Shdr *sh = (const Elf64_Shdr *)(p + eh->e_shoff);
  for (int i = 0; i < eh->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) {
    const Elf64_Sym *s = (const Elf64_Sym *)(p + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *s; const char *str = (const char *)(p + sh[sh[i].sh_link].sh_offset);
    for (size_t j = 0; j < n; j++) {
      int t = ELF64_ST_TYPE(s[j].st_info); if (s[j].st_shndx == SHN_UNDEF || (t != STT_FUNC && t != STT_OBJECT)) continue;
      std::string nm = str + s[j].st_name; u64 a = base + s[j].st_value;
      if (!symaddr.emplace(nm, a).second) continue;
      syms.push_back({a, s[j].st_size, nm, t == STT_FUNC});
      if (t == STT_FUNC) { auto it = addrname.find(a); if (it == addrname.end() || (!defmod.count(it->second) && defmod.count(nm))) addrname[a] = nm; }
    }
  }
  munmap((void *)p, st.st_size); sorted = false;
}
static void sortsyms() { if (!sorted) { std::sort(syms.begin(), syms.end(), [](const Sym &a, const Sym &b) { return a.addr < b.addr; }); sorted = true; } }
bool prog_global(u64 a, u64 &base, u64 &size, std::string *name) {
  sortsyms(); size_t lo = 0, hi = syms.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (syms[m].addr <= a) lo = m + 1; else hi = m; }
  for (int k = 0; k < 8 && lo > 0; k++) { const Sym &s = syms[--lo]; if (a - s.addr < s.size) { base = s.addr; size = s.size; if (name) *name = s.name; return true; } }
  return false;
}
const char *prog_name_at(u64 a) {
  auto it = addrname.find(a); if (it != addrname.end()) return it->second.c_str();
  Dl_info di; if (dladdr((void *)a, &di) && di.dli_sname && (u64)di.dli_saddr == a) return di.dli_sname;
  return nullptr;
}
u64 prog_symbol(const std::string &n) {
  auto it = symaddr.find(n); if (it != symaddr.end()) return it->second;
  return (u64)dlsym(RTLD_DEFAULT, n.c_str());
}
static FuncRef *newref(const std::string &n) {
  FuncRef *f = new FuncRef; f->name = n; f->addr = 0; f->module = -1; f->code = nullptr; f->icpt = nullptr; f->state = 0; f->isnative = false; f->policy = -1; f->id = allfuncs.size(); allfuncs.push_back(f);
  auto it = defmod.find(n); if (it != defmod.end()) f->module = it->second;
  else { auto a = aliases.find(n); if (a != aliases.end()) { auto d = defmod.find(a->second); if (d != defmod.end()) f->module = d->second; } }
  f->addr = prog_symbol(n); return f;
}
FuncRef *prog_func(const std::string &n) { auto it = funcs.find(n); if (it != funcs.end()) return it->second; FuncRef *f = newref(n); funcs[n] = f; if (f->addr) byaddr.emplace(f->addr, f); return f; }
FuncRef *prog_func_at(u64 a) {
  auto it = byaddr.find(a); if (it != byaddr.end()) return it->second;
  const char *n = prog_name_at(a); if (!n) return nullptr;
  FuncRef *f = prog_func(n); byaddr.emplace(a, f); return f;
}
bool prog_has_body(FuncRef *f) { return f->module >= 0; }

static unsigned nslots(Type *t) {
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy()) return 0;
  if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += nslots(e); return n; }
  if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * nslots(a->getElementType());
  if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static unsigned scalarw(Type *t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; return 0;
}
struct Leaf { Type *t; u64 off; };
static void leaves(Type *t, u64 off, const DataLayout &DL, std::vector<Leaf> &o) {
  if (auto *s = dyn_cast<StructType>(t)) { auto *L = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + L->getElementOffset(i), DL, o); }
  else if (auto *a = dyn_cast<ArrayType>(t)) { u64 sz = DL.getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * sz, DL, o); }
  else if (auto *v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL.getTypeStoreSize(v->getElementType()); for (u64 i = 0; i < v->getNumElements(); i++) o.push_back({v->getElementType(), off + i * sz}); }
  else o.push_back({t, off});
}
static u8 kindof(Type *t) {
  if (t->isFloatTy()) return 1; if (t->isDoubleTy()) return 2; if (t->isX86_FP80Ty()) return 3;
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return 4;
  if (auto *v = dyn_cast<FixedVectorType>(t)) { if (v->getNumElements() == 2 && v->getElementType()->isFloatTy()) return 5; return 6; }
  if (t->isAggregateType()) return 6; return 0;
}

struct Tr {
  Function &F; FuncCode &fc; const DataLayout &DL;
  std::unordered_map<Value *, i32> slot; std::unordered_map<BasicBlock *, i32> bbpc;
  struct Fix { u32 inst; int which; BasicBlock *bb; }; // which: 0 a,1 b(cbr: a true,b false),
  i32 ntmp = 0; u32 next = 0;
  Tr(Function &f, FuncCode &c) : F(f), fc(c), DL(f.getParent()->getDataLayout()) {}
  static i32 lane(i32 o, unsigned j) { return o >= 0 ? o + (i32)j : o - (i32)j; }
  void flatc(Constant *c, std::vector<Val> &o) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { unsigned n = nslots(t); for (unsigned i = 0; i < n; i++) o.push_back({0, 0, nullptr}); return; }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { const APInt &a = ci->getValue(); o.push_back({a.getRawData()[0], a.getNumWords() > 1 ? a.getRawData()[1] : 0, nullptr}); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); o.push_back({a.getRawData()[0], a.getNumWords() > 1 ? a.getRawData()[1] : 0, nullptr}); return; }
    if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) flatc(cast<Constant>(ca->getOperand(i)), o); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flatc(cd->getElementAsConstant(i), o); return; }
    o.push_back({(u64)ceval(c), (u64)(ceval(c) >> 64), nullptr});
  }
  u128 ceval(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { const APInt &a = ci->getValue(); return a.getRawData()[0] | (a.getNumWords() > 1 ? (u128)a.getRawData()[1] << 64 : 0); }
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    if (auto *gv = dyn_cast<GlobalValue>(c)) {
      u64 a = prog_symbol(gv->getName().str());
      if (!a && !gv->hasExternalWeakLinkage()) fprintf(stderr, "[translate] unresolved symbol %s in %s\n", gv->getName().str().c_str(), fc.name.c_str());
      return a;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      unsigned w = scalarw(ce->getType()); u128 m = mask128(w);
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off); return (ceval(ce->getOperand(0)) + (u128)(i128)off.getSExtValue()) & mask128(64); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Trunc: case Instruction::AddrSpaceCast: case Instruction::ZExt: return ceval(ce->getOperand(0)) & m;
      case Instruction::Add: return (ceval(ce->getOperand(0)) + ceval(ce->getOperand(1))) & m;
      case Instruction::Sub: return (ceval(ce->getOperand(0)) - ceval(ce->getOperand(1))) & m;
      case Instruction::And: return ceval(ce->getOperand(0)) & ceval(ce->getOperand(1));
      case Instruction::Or: return ceval(ce->getOperand(0)) | ceval(ce->getOperand(1));
      case Instruction::LShr: return ceval(ce->getOperand(0)) >> (unsigned)ceval(ce->getOperand(1));
      case Instruction::Shl: return (ceval(ce->getOperand(0)) << (unsigned)ceval(ce->getOperand(1))) & m;
      case Instruction::ICmp: { u128 a = ceval(ce->getOperand(0)), b = ceval(ce->getOperand(1)); auto p = (CmpInst::Predicate)ce->getPredicate(); switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; default: break; } } 
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "[translate] constant %s\n", os.str().c_str()); return 0;
  }
  i32 op(Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { i32 r = ~(i32)fc.K.size(); flatc(c, fc.K); if (fc.K.size() == (size_t)~r) fc.K.push_back({0, 0, nullptr}); slot[v] = r; return r; }
    if (isa<Instruction>(v) || isa<Argument>(v)) { unsigned n = nslots(v->getType()); i32 r = next; next += n ? n : 1; slot[v] = r; return r; }
    i32 r = ~(i32)fc.K.size(); fc.K.push_back({0, 0, nullptr}); slot[v] = r; return r;   // metadata, inline asm
  }
  i32 kconst(u64 v) { i32 r = ~(i32)fc.K.size(); fc.K.push_back({v, 0, nullptr}); return r; }
  i32 tmp(unsigned n = 1) { i32 r = next; next += n; return r; }
  Inst &emit(BOp o, unsigned w, i32 d, i32 a = 0, i32 b = 0, i32 c = 0, u64 imm = 0, u8 fl = 0) {
    fc.code.push_back({(u16)o, (u8)w, fl, d, a, b, c, imm}); return fc.code.back();
  }
  void unsup(const std::string &s) { fc.msgs.push_back(s); emit(B_UNSUP, 0, 0, 0, 0, 0, fc.msgs.size() - 1); }
  std::string istr(Instruction &I) { std::string s; raw_string_ostream os(s); I.print(os); return os.str(); }
  // edge: returns pc label handled through fixups; creates phi trampolines
  std::map<std::pair<BasicBlock *, BasicBlock *>, i32> edges;
  struct Pend { BasicBlock *from, *to; }; 
  std::vector<std::pair<i32 *, std::pair<BasicBlock *, BasicBlock *>>> dummy;
  struct EFix { int kind; u32 idx; int sub; BasicBlock *from, *to; };
  std::vector<EFix> efix;
  i32 edge(BasicBlock *from, BasicBlock *to) {
    auto k = std::make_pair(from, to); auto it = edges.find(k); if (it != edges.end()) return it->second;
    if (!isa<PHINode>(to->begin())) { i32 r = bbpc[to]; return edges[k] = r; }
    PhiInfo p; p.target = bbpc[to];
    for (PHINode &phi : to->phis()) {
      Value *v = phi.getIncomingValueForBlock(from); if (isa<UndefValue>(v) && !v->getType()->isAggregateType()) { }
      unsigned n = nslots(phi.getType()); i32 d = op(&phi), s = op(v);
      for (unsigned j = 0; j < n; j++) if (lane(d, j) != lane(s, j)) p.mv.push_back({lane(d, j), lane(s, j)});
    }
    if (p.mv.empty()) return edges[k] = p.target;
    fc.phis.push_back(p); i32 pc = fc.code.size(); emit(B_PHI, 0, 0, 0, 0, 0, fc.phis.size() - 1); return edges[k] = pc;
  }
  void gep(GEPOperator &G, i32 d) {
    // scalar GEPs only
    i32 base = op(G.getPointerOperand()); u64 coff = 0; std::vector<std::tuple<i32, u64, unsigned>> var;
    for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
      Value *ix = gti.getOperand();
      if (auto *st = gti.getStructTypeOrNull()) { coff += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      u64 sz = DL.getTypeAllocSize(gti.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(ix)) coff += (u64)ci->getSExtValue() * sz;
      else var.push_back({op(ix), sz, ix->getType()->getIntegerBitWidth()});
    }
    i32 cur = base;
    if (var.empty()) { emit(B_ADDI, 64, d, base, 0, 0, coff); return; }
    for (size_t i = 0; i < var.size(); i++) { auto [x, sz, w] = var[i]; emit(B_GEPADD, w, d, cur, x, 0, sz); cur = d; }
    if (coff) emit(B_ADDI, 64, d, cur, 0, 0, coff);
  }
  void call(CallBase &I);
  bool intrinsic(CallBase &I, Function *cf);
  void inst(Instruction &I);
  void run() {
    for (Argument &A : F.args()) {
      fc.argslot.push_back(op(&A)); ArgInfo ai; ai.op = slot[&A]; ai.n = nslots(A.getType()); ai.kind = kindof(A.getType()); ai.w = scalarw(A.getType()); ai.byval = A.hasByValAttr(); ai.bysize = ai.byval ? DL.getTypeAllocSize(A.getParamByValType()) : 0; ai.byalign = 16; fc.params.push_back(ai);
    }
    fc.nargs_slots = next;
    for (BasicBlock &B : F) { bbpc[&B] = fc.code.size(); fc.dbgblock.push_back(fc.code.size()); for (Instruction &I : B) if (!isa<PHINode>(I)) inst(I); }
    // resolve edges
    for (size_t i = 0; i < efix.size(); i++) {
      EFix e = efix[i]; i32 pc = edge(e.from, e.to);
      if (e.kind == 0) { Inst &x = fc.code[e.idx]; if (e.sub == 0) x.b = pc; else x.c = pc; }
      else if (e.kind == 1) { if (e.sub < 0) fc.sws[e.idx].def = pc; else fc.sws[e.idx].cases[e.sub].second = pc; }
      else { if (e.sub == 0) fc.calls[e.idx]->normal = pc; else fc.calls[e.idx]->unwind = pc; }
    }
    fc.nregs = next; fc.vararg = F.isVarArg();
  }
};
static u8 ipred(CmpInst::Predicate p) {
  switch (p) { case CmpInst::ICMP_EQ: return P_EQ; case CmpInst::ICMP_NE: return P_NE; case CmpInst::ICMP_UGT: return P_UGT; case CmpInst::ICMP_UGE: return P_UGE; case CmpInst::ICMP_ULT: return P_ULT; case CmpInst::ICMP_ULE: return P_ULE; case CmpInst::ICMP_SGT: return P_SGT; case CmpInst::ICMP_SGE: return P_SGE; case CmpInst::ICMP_SLT: return P_SLT; default: return P_SLE; }
}
void Tr::inst(Instruction &I) {
  Type *T = I.getType(); BasicBlock *BB = I.getParent();
  unsigned n = nslots(T);
  auto bin = [&](BOp bo, u8 code) {
    i32 d = op(&I), a = op(I.getOperand(0)), b = op(I.getOperand(1)); unsigned w = scalarw(T->getScalarType());
    for (unsigned j = 0; j < n; j++) emit(bo, w, d + j, lane(a, j), lane(b, j), 0, 0, code);
  };
  switch (I.getOpcode()) {
  case Instruction::Add: bin(B_BIN, (u8)Op::Add); return; case Instruction::Sub: bin(B_BIN, (u8)Op::Sub); return; case Instruction::Mul: bin(B_BIN, (u8)Op::Mul); return;
  case Instruction::UDiv: bin(B_BIN, (u8)Op::UDiv); return; case Instruction::SDiv: bin(B_BIN, (u8)Op::SDiv); return; case Instruction::URem: bin(B_BIN, (u8)Op::URem); return; case Instruction::SRem: bin(B_BIN, (u8)Op::SRem); return;
  case Instruction::And: bin(B_BIN, (u8)Op::And); return; case Instruction::Or: bin(B_BIN, (u8)Op::Or); return; case Instruction::Xor: bin(B_BIN, (u8)Op::Xor); return;
  case Instruction::Shl: bin(B_BIN, (u8)Op::Shl); return; case Instruction::LShr: bin(B_BIN, (u8)Op::LShr); return; case Instruction::AShr: bin(B_BIN, (u8)Op::AShr); return;
  case Instruction::FAdd: bin(B_FBIN, (u8)Op::FAdd); return; case Instruction::FSub: bin(B_FBIN, (u8)Op::FSub); return; case Instruction::FMul: bin(B_FBIN, (u8)Op::FMul); return; case Instruction::FDiv: bin(B_FBIN, (u8)Op::FDiv); return; case Instruction::FRem: bin(B_FBIN, (u8)Op::FRem); return;
  case Instruction::FNeg: { i32 d = op(&I), a = op(I.getOperand(0)); for (unsigned j = 0; j < n; j++) emit(B_FNEG, scalarw(T->getScalarType()), d + j, lane(a, j)); return; }
  case Instruction::ICmp: { i32 d = op(&I), a = op(I.getOperand(0)), b = op(I.getOperand(1)); unsigned w = scalarw(I.getOperand(0)->getType()->getScalarType()); for (unsigned j = 0; j < n; j++) emit(B_ICMP, w, d + j, lane(a, j), lane(b, j), 0, 0, ipred(cast<ICmpInst>(I).getPredicate())); return; }
  case Instruction::FCmp: { i32 d = op(&I), a = op(I.getOperand(0)), b = op(I.getOperand(1)); unsigned w = scalarw(I.getOperand(0)->getType()->getScalarType()); for (unsigned j = 0; j < n; j++) emit(B_FCMP, w, d + j, lane(a, j), lane(b, j), 0, 0, (u8)cast<FCmpInst>(I).getPredicate()); return; }
  case Instruction::Select: {
    i32 d = op(&I), c = op(I.getOperand(0)), a = op(I.getOperand(1)), b = op(I.getOperand(2)); bool vc = I.getOperand(0)->getType()->isVectorTy();
    std::vector<Leaf> L; leaves(T, 0, DL, L);
    for (unsigned j = 0; j < n; j++) emit(B_SEL, scalarw(L[j].t), d + j, vc ? lane(c, j) : c, lane(a, j), lane(b, j), 0, L[j].t->isPointerTy());
    return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
    BOp o; switch (I.getOpcode()) { case Instruction::Trunc: o = B_TRUNC; break; case Instruction::ZExt: o = B_ZEXT; break; case Instruction::SExt: o = B_SEXT; break; case Instruction::FPTrunc: case Instruction::FPExt: o = B_FPCVT; break; case Instruction::FPToSI: o = B_FPTOSI; break; case Instruction::FPToUI: o = B_FPTOUI; break; case Instruction::SIToFP: o = B_SITOFP; break; default: o = B_UITOFP; }
    i32 d = op(&I), a = op(I.getOperand(0)); unsigned fw = scalarw(I.getOperand(0)->getType()->getScalarType()), w = scalarw(T->getScalarType());
    if (w > 128 || fw > 128) { unsup(istr(I)); return; }
    for (unsigned j = 0; j < n; j++) emit(o, w, d + j, lane(a, j), 0, 0, fw);
    return; }
  case Instruction::PtrToInt: { i32 d = op(&I), a = op(I.getOperand(0)); unsigned w = scalarw(T); if (w < 64) emit(B_TRUNC, w, d, a, 0, 0, 64); else emit(B_COPY, 64, d, a); return; }
  case Instruction::IntToPtr: { i32 d = op(&I), a = op(I.getOperand(0)); unsigned w = scalarw(I.getOperand(0)->getType()); if (w < 64) emit(B_ZEXT, 64, d, a, 0, 0, w); else emit(B_TRUNC, 64, d, a, 0, 0, w); return; }
  case Instruction::BitCast: {
    Type *S = I.getOperand(0)->getType(); unsigned sn = nslots(S); i32 d = op(&I), a = op(I.getOperand(0));
    if (sn == n) { for (unsigned j = 0; j < n; j++) emit(B_COPY, scalarw(T->getScalarType()), d + j, lane(a, j)); return; }
    unsigned sw = scalarw(S->getScalarType()), dw = scalarw(T->getScalarType());
    if (n == 1 && dw <= 128) { emit(B_PACK, sw, d, a, 0, 0, sn); return; }          // vector -> scalar
    if (sn == 1 && sw <= 128) { emit(B_UNPACK, dw, d, a, 0, 0, n); return; }
    if (sn > n && sn % n == 0) { for (unsigned j = 0; j < n; j++) emit(B_PACK, sw, d + j, lane(a, j * (sn / n)), 0, 0, sn / n); return; }
    if (n > sn && n % sn == 0) { for (unsigned j = 0; j < sn; j++) emit(B_UNPACK, dw, d + j * (n / sn), lane(a, j), 0, 0, n / sn); return; }
    unsup(istr(I)); return; }
  case Instruction::AddrSpaceCast: case Instruction::Freeze: { i32 d = op(&I), a = op(I.getOperand(0)); for (unsigned j = 0; j < n; j++) emit(B_COPY, 64, d + j, lane(a, j)); return; }
  case Instruction::Load: {
    std::vector<Leaf> L; leaves(T, 0, DL, L); i32 d = op(&I), p = op(cast<LoadInst>(I).getPointerOperand());
    for (unsigned j = 0; j < L.size(); j++) { unsigned w = scalarw(L[j].t); if (w == 0 || w > 128) { unsup(istr(I)); return; } emit(B_LOAD, w, d + j, p, 0, 0, L[j].off, L[j].t->isPointerTy()); }
    return; }
  case Instruction::Store: {
    Value *v = cast<StoreInst>(I).getValueOperand(); std::vector<Leaf> L; leaves(v->getType(), 0, DL, L); i32 a = op(v), p = op(cast<StoreInst>(I).getPointerOperand());
    for (unsigned j = 0; j < L.size(); j++) { unsigned w = scalarw(L[j].t); if (w == 0 || w > 128) { unsup(istr(I)); return; } emit(B_STORE, w, 0, p, lane(a, j), 0, L[j].off); }
    return; }
  case Instruction::GetElementPtr: if (T->isVectorTy()) { unsup(istr(I)); return; } gep(cast<GEPOperator>(I), op(&I)); return;
  case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); u64 sz = DL.getTypeAllocSize(A.getAllocatedType()); i32 d = op(&I), c = op(A.getArraySize()); emit(B_ALLOCA, scalarw(A.getArraySize()->getType()), d, c, (i32)A.getAlign().value(), 0, sz); return; }
  case Instruction::ExtractValue: {
    auto &E = cast<ExtractValueInst>(I); Type *t = E.getAggregateOperand()->getType(); unsigned off = 0;
    for (unsigned ix : E.indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(s->getElementType(k)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * nslots(t); } }
    i32 a = op(E.getAggregateOperand()), d = op(&I); for (unsigned j = 0; j < n; j++) emit(B_COPY, 64, d + j, lane(a, off + j)); return; }
  case Instruction::InsertValue: {
    auto &E = cast<InsertValueInst>(I); Type *t = T; unsigned off = 0;
    for (unsigned ix : E.indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) off += nslots(s->getElementType(k)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); off += ix * nslots(t); } }
    i32 a = op(E.getAggregateOperand()), v = op(E.getInsertedValueOperand()), d = op(&I); unsigned m = nslots(t);
    for (unsigned j = 0; j < n; j++) emit(B_COPY, 64, d + j, j >= off && j < off + m ? lane(v, j - off) : lane(a, j)); return; }
  case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); i32 d = op(&I), a = op(I.getOperand(0)); unsigned sn = nslots(I.getOperand(0)->getType());
    if (ci) emit(B_COPY, 64, d, lane(a, std::min<u64>(ci->getZExtValue(), sn - 1))); else emit(B_EXTRACTEL, scalarw(T), d, a, op(I.getOperand(1)), 0, sn); return; }
  case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { unsup(istr(I)); return; } i32 d = op(&I), a = op(I.getOperand(0)), v = op(I.getOperand(1)); for (unsigned j = 0; j < n; j++) emit(B_COPY, 64, d + j, j == ci->getZExtValue() ? v : lane(a, j)); return; }
  case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); unsigned m = nslots(S.getOperand(0)->getType()); i32 d = op(&I), a = op(S.getOperand(0)), b = op(S.getOperand(1)); for (unsigned j = 0; j < n; j++) { int x = S.getMaskValue(j); if (x < 0) x = 0; emit(B_COPY, 64, d + j, (unsigned)x < m ? lane(a, x) : lane(b, x - m)); } return; }
  case Instruction::Br: {
    auto &B = cast<BranchInst>(I);
    if (B.isUnconditional()) { emit(B_BR, 0, 0); efix.push_back({0, (u32)fc.code.size() - 1, 0, BB, B.getSuccessor(0)}); }
    else { i32 c = op(B.getCondition()); emit(B_CBR, 1, 0, c); u32 x = fc.code.size() - 1; efix.push_back({0, x, 0, BB, B.getSuccessor(0)}); efix.push_back({0, x, 1, BB, B.getSuccessor(1)}); }
    return; }
  case Instruction::Switch: {
    auto &S = cast<SwitchInst>(I); SwitchInfo si; u32 ix = fc.sws.size(); unsigned k = 0; unsigned w = scalarw(S.getCondition()->getType()); if (w > 64) { unsup(istr(I)); return; }
    for (auto &c : S.cases()) { si.cases.push_back({c.getCaseValue()->getZExtValue(), 0}); efix.push_back({1, ix, (int)k++, BB, c.getCaseSuccessor()}); }
    efix.push_back({1, ix, -1, BB, S.getDefaultDest()}); fc.sws.push_back(si); emit(B_SWITCH, w, 0, op(S.getCondition()), 0, 0, ix); return; }
  case Instruction::Ret: { Value *v = cast<ReturnInst>(I).getReturnValue(); emit(B_RET, 0, 0, v ? op(v) : 0, v ? nslots(v->getType()) : 0); return; }
  case Instruction::Unreachable: emit(B_UNREACH, 0, 0); return;
  case Instruction::LandingPad: {
    auto &L = cast<LandingPadInst>(I); LPInfo lp; lp.cleanup = L.isCleanup();
    for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) lp.cl.push_back({false, (u64)ceval(L.getClause(i))}); else lp.cl.push_back({true, 0}); }
    fc.lps.push_back(lp); emit(B_LPAD, 0, op(&I), 0, 0, 0, fc.lps.size() - 1); return; }
  case Instruction::Resume: emit(B_RESUME, 0, 0, op(I.getOperand(0))); return;
  case Instruction::Fence: return;
  case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); emit(B_CMPXCHG, scalarw(A.getCompareOperand()->getType()), op(&I), op(A.getPointerOperand()), op(A.getCompareOperand()), op(A.getNewValOperand())); return; }
  case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); emit(B_RMW, scalarw(T), op(&I), op(A.getPointerOperand()), op(A.getValOperand()), 0, 0, (u8)A.getOperation()); return; }
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
  default: unsup(istr(I)); return;
  }
}
bool Tr::intrinsic(CallBase &I, Function *cf) {
  auto id = cf->getIntrinsicID(); Type *T = I.getType(); unsigned n = nslots(T); unsigned w = n ? scalarw(T->getScalarType()) : 0;
  auto per = [&](IntrinId k, unsigned nop) {
    i32 d = op(&I); i32 a = op(I.getArgOperand(0)), b = nop > 1 ? op(I.getArgOperand(1)) : 0, c = nop > 2 ? op(I.getArgOperand(2)) : 0;
    bool vb = nop > 1 && I.getArgOperand(1)->getType()->isVectorTy();
    unsigned ww = scalarw(I.getArgOperand(0)->getType()->getScalarType());
    for (unsigned j = 0; j < n; j++) emit(B_INTRIN, ww, d + j, lane(a, j), nop > 1 ? (n > 1 && !vb ? b : lane(b, j)) : 0, nop > 2 ? lane(c, j) : 0, (u64)id, (u8)k);
    return true;
  };
  auto ovf = [&](IntrinId k) { if (n != 2) { unsup(istr(I)); return true; } i32 d = op(&I); emit(B_INTRIN, scalarw(I.getArgOperand(0)->getType()), d, op(I.getArgOperand(0)), op(I.getArgOperand(1)), 0, 0, (u8)k); return true; };
  switch (id) {
  case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::var_annotation:
    if (n) { i32 d = op(&I); emit(B_COPY, 64, d, kconst(0)); } return true;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: { i32 d = op(&I), a = op(I.getArgOperand(0)); emit(B_COPY, 64, d, a); return true; }
  case Intrinsic::threadlocal_address: { i32 d = op(&I), a = op(I.getArgOperand(0)); emit(B_COPY, 64, d, a); return true; }
  case Intrinsic::objectsize: { emit(B_COPY, 64, op(&I), kconst(cast<ConstantInt>(I.getArgOperand(1))->isOne() ? 0 : ~0ull)); return true; }
  case Intrinsic::is_constant: emit(B_COPY, 1, op(&I), kconst(0)); return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: emit(B_MEMCPY, scalarw(I.getArgOperand(2)->getType()), 0, op(I.getArgOperand(0)), op(I.getArgOperand(1)), op(I.getArgOperand(2))); return true;
  case Intrinsic::memmove: emit(B_MEMMOVE, scalarw(I.getArgOperand(2)->getType()), 0, op(I.getArgOperand(0)), op(I.getArgOperand(1)), op(I.getArgOperand(2))); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: emit(B_MEMSET, scalarw(I.getArgOperand(2)->getType()), 0, op(I.getArgOperand(0)), op(I.getArgOperand(1)), op(I.getArgOperand(2))); return true;
  case Intrinsic::ctpop: return per(I_CTPOP, 1); case Intrinsic::ctlz: return per(I_CTLZ, 1); case Intrinsic::cttz: return per(I_CTTZ, 1); case Intrinsic::bswap: return per(I_BSWAP, 1); case Intrinsic::bitreverse: return per(I_BITREV, 1);
  case Intrinsic::fshl: return per(I_FSHL, 3); case Intrinsic::fshr: return per(I_FSHR, 3);
  case Intrinsic::umax: return per(I_UMAX, 2); case Intrinsic::umin: return per(I_UMIN, 2); case Intrinsic::smax: return per(I_SMAX, 2); case Intrinsic::smin: return per(I_SMIN, 2); case Intrinsic::abs: return per(I_ABS, 1);
  case Intrinsic::uadd_with_overflow: return ovf(I_UADDO); case Intrinsic::sadd_with_overflow: return ovf(I_SADDO); case Intrinsic::usub_with_overflow: return ovf(I_USUBO); case Intrinsic::ssub_with_overflow: return ovf(I_SSUBO); case Intrinsic::umul_with_overflow: return ovf(I_UMULO); case Intrinsic::smul_with_overflow: return ovf(I_SMULO);
  case Intrinsic::uadd_sat: return per(I_UADDSAT, 2); case Intrinsic::usub_sat: return per(I_USUBSAT, 2); case Intrinsic::sadd_sat: return per(I_SADDSAT, 2); case Intrinsic::ssub_sat: return per(I_SSUBSAT, 2);
  case Intrinsic::fabs: return per(I_FABS, 1); case Intrinsic::sqrt: return per(I_SQRT, 1); case Intrinsic::floor: return per(I_FLOOR, 1); case Intrinsic::ceil: return per(I_CEIL, 1); case Intrinsic::trunc: return per(I_TRUNCF, 1);
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return per(I_RINT, 1); case Intrinsic::round: return per(I_ROUND, 1);
  case Intrinsic::copysign: return per(I_COPYSIGN, 2); case Intrinsic::minnum: return per(I_MINNUM, 2); case Intrinsic::maxnum: return per(I_MAXNUM, 2); case Intrinsic::fma: return per(I_FMA, 3); case Intrinsic::fmuladd: return per(I_FMULADD, 3);
  case Intrinsic::is_fpclass: return per(I_ISFPCLASS, 2);
  case Intrinsic::eh_typeid_for: { emit(B_INTRIN, 32, op(&I), op(I.getArgOperand(0)), 0, 0, 0, I_TYPEID); return true; }
  case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: emit(B_INTRIN, 0, 0, 0, 0, 0, 0, I_TRAP); return true;
  case Intrinsic::stacksave: emit(B_INTRIN, 64, op(&I), 0, 0, 0, 0, I_STACKSAVE); return true;
  case Intrinsic::stackrestore: emit(B_INTRIN, 64, 0, 0, 0, 0, 0, I_STACKRESTORE); return true;
  case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::exp2: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::pow: {
    // libm call: handled as a native call by name
    const char *b = nullptr; switch (id) { case Intrinsic::sin: b = "sin"; break; case Intrinsic::cos: b = "cos"; break; case Intrinsic::exp: b = "exp"; break; case Intrinsic::exp2: b = "exp2"; break; case Intrinsic::log: b = "log"; break; case Intrinsic::log2: b = "log2"; break; case Intrinsic::log10: b = "log10"; break; default: b = "pow"; }
    if (n != 1 || (w != 32 && w != 64)) { unsup(istr(I)); return true; }
    CallInfo *ci = new CallInfo; ci->target = prog_func(std::string(b) + (w == 32 ? "f" : "")); ci->callee = 0; ci->dst = op(&I); ci->ndst = 1; ci->rk = {(u8)(w == 32 ? 1 : 2)}; ci->rw = {(u8)w}; ci->invoke = false; ci->vararg = false; ci->isptrret = false;
    for (unsigned i = 0; i < I.arg_size(); i++) ci->args.push_back({op(I.getArgOperand(i)), 1, (u8)(w == 32 ? 1 : 2), (u8)w, false, 0, 0});
    fc.calls.push_back(ci); emit(B_CALL, 0, 0, 0, 0, 0, fc.calls.size() - 1); return true; }
  default: return false;
  }
}
void Tr::call(CallBase &I) {
  Value *cv = I.getCalledOperand()->stripPointerCasts(); Function *cf = dyn_cast<Function>(cv);
  auto *inv = dyn_cast<InvokeInst>(&I);
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) { (void)ga; }
  if (cf && cf->isIntrinsic()) {
    if (!intrinsic(I, cf)) unsup("intrinsic " + istr(I));
    if (inv) { emit(B_BR, 0, 0); efix.push_back({0, (u32)fc.code.size() - 1, 0, I.getParent(), inv->getNormalDest()}); }
    return;
  }
  CallInfo *ci = new CallInfo; ci->target = nullptr; ci->callee = 0; ci->invoke = inv != nullptr; ci->normal = ci->unwind = -1;
  if (auto *ia = dyn_cast<InlineAsm>(cv)) { ci->asmtxt = ia->getAsmString(); if (ci->asmtxt.empty()) ci->asmtxt = " "; }
  else if (cf) ci->target = prog_func(cf->getName().str());
  else if (auto *ga = dyn_cast<GlobalAlias>(cv)) ci->target = prog_func(ga->getName().str());
  else ci->callee = op(I.getCalledOperand());
  FunctionType *FT = I.getFunctionType(); ci->vararg = FT->isVarArg(); ci->nfixed = FT->getNumParams();
  for (unsigned i = 0; i < I.arg_size(); i++) {
    Value *a = I.getArgOperand(i); ArgInfo ai; ai.op = op(a); ai.n = nslots(a->getType()); ai.kind = kindof(a->getType()); ai.w = scalarw(a->getType()->getScalarType());
    ai.byval = I.isByValArgument(i); ai.bysize = ai.byval ? DL.getTypeAllocSize(I.getParamByValType(i)) : 0; ai.byalign = 16; ci->args.push_back(ai);
  }
  Type *T = I.getType(); ci->ndst = nslots(T); ci->dst = op(&I); ci->isptrret = T->isPointerTy();
  std::vector<Leaf> L; if (ci->ndst) leaves(T, 0, DL, L);
  if (kindof(T) == 5) { ci->rk.push_back(5); ci->rw.push_back(64); } else for (auto &l : L) { ci->rk.push_back(kindof(l.t)); ci->rw.push_back(scalarw(l.t)); }
  u32 ix = fc.calls.size(); fc.calls.push_back(ci); emit(B_CALL, 0, 0, 0, 0, 0, ix);
  if (inv) { efix.push_back({2, ix, 0, I.getParent(), inv->getNormalDest()}); efix.push_back({2, ix, 1, I.getParent(), inv->getUnwindDest()}); }
}
FuncCode *prog_code(FuncRef *f) {
  if (f->code) return f->code;
  if (!ctx) ctx = new LLVMContext;
  Mod &M = mods[f->module];
  if (!M.m) {
    auto buf = MemoryBuffer::getFile(M.path); if (!buf) { fprintf(stderr, "cannot open %s\n", M.path.c_str()); _exit(3); }
    auto e = getOwningLazyBitcodeModule(std::move(*buf), *ctx); if (!e) { fprintf(stderr, "bad bitcode %s\n", M.path.c_str()); _exit(3); }
    M.m = std::move(*e);
  }
  std::string n = f->name; auto a = aliases.find(n); if (a != aliases.end() && !defmod.count(n)) n = a->second;
  Function *F = M.m->getFunction(n); if (!F) { fprintf(stderr, "no function %s in %s\n", n.c_str(), M.path.c_str()); _exit(3); }
  if (auto err = F->materialize()) { fprintf(stderr, "materialize failed\n"); _exit(3); }
  FuncCode *fc = new FuncCode; fc->name = f->name; fc->ref = f;
  Tr t(*F, *fc); t.run(); f->code = fc; g_translated++;
  return fc;
}
