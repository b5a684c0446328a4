// prep: make every internal symbol of a translation unit uniquely named and externally
// visible (so the native image and the interpreted bitcode agree on one address per symbol),
// and emit the bitcode plus a symbol index.
//   prep lib  in.bc out.bc out.idx TAG
//   prep harness in.bc out.bc out.idx TAG lib.defs    (drop linkonce definitions the library has)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <unordered_set>
#include <fstream>
#include <iostream>
using namespace llvm;
int main(int argc, char **argv) {
  std::string mode = argv[1], in = argv[2], out = argv[3], idx = argv[4], tag = argv[5];
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("prep", errs()); return 1; }
  std::unordered_set<std::string> lib;
  if (mode == "harness") { std::ifstream f(argv[6]); std::string l; while (std::getline(f, l)) lib.insert(l); }
  unsigned n = 0;
  std::vector<GlobalValue *> gvs;
  for (auto &G : M->globals())   // locale facet identities are unique to the shared library
    if (!G.isDeclaration() && G.getName().starts_with("_ZNSt") && G.getName().ends_with("2idE") && (G.hasLinkOnceLinkage() || G.hasWeakLinkage())) { G.setInitializer(nullptr); G.setComdat(nullptr); G.setLinkage(GlobalValue::ExternalLinkage); }
  for (auto &F : M->functions()) gvs.push_back(&F);
  for (auto &G : M->globals()) gvs.push_back(&G);
  for (auto &A : M->aliases()) gvs.push_back(&A);
  for (GlobalValue *g : gvs) {
    if (g->isDeclaration() && !g->hasLocalLinkage()) { if (g->getVisibility() != GlobalValue::DefaultVisibility) g->setVisibility(GlobalValue::DefaultVisibility); continue; }
    if (g->getName().starts_with("llvm.")) continue;
    if (g->hasLocalLinkage()) {
      std::string nm = g->getName().str(); if (nm.empty()) nm = "anon" + std::to_string(n);
      n++;
      g->setName(nm + ".i" + tag);
      g->setLinkage(GlobalValue::ExternalLinkage);
      if (auto *go = dyn_cast<GlobalObject>(g)) go->setComdat(nullptr);
    }
    g->setVisibility(GlobalValue::DefaultVisibility);
    g->setUnnamedAddr(GlobalValue::UnnamedAddr::None);
    g->setDSOLocal(false);
  }
  if (mode == "harness") {
    for (GlobalValue *&g : gvs) if (auto *A = dyn_cast<GlobalAlias>(g)) if (lib.count(A->getName().str())) {
      std::string nm = A->getName().str(); A->setName(nm + ".old");
      GlobalValue *d;
      if (auto *FT = dyn_cast<FunctionType>(A->getValueType())) d = Function::Create(FT, GlobalValue::ExternalLinkage, nm, M.get());
      else d = new GlobalVariable(*M, A->getValueType(), false, GlobalValue::ExternalLinkage, nullptr, nm);
      A->replaceAllUsesWith(d); A->eraseFromParent(); g = d;
    }
    for (GlobalValue *g : gvs) {
      if (g->isDeclaration() || !lib.count(g->getName().str())) continue;
      if (auto *F = dyn_cast<Function>(g)) { if (F->hasLinkOnceLinkage() || F->hasWeakLinkage()) { F->deleteBody(); F->setComdat(nullptr); F->setLinkage(GlobalValue::ExternalLinkage); } }
      else if (auto *G = dyn_cast<GlobalVariable>(g)) { if (G->hasLinkOnceLinkage() || G->hasWeakLinkage()) { G->setInitializer(nullptr); G->setComdat(nullptr); G->setLinkage(GlobalValue::ExternalLinkage); } }
    }
  }
  for (auto &F : M->functions()) {   // relative lookup tables: plain loads
    std::vector<IntrinsicInst *> w;
    for (auto &BB : F) for (auto &I : BB) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::load_relative) w.push_back(II);
    for (auto *II : w) {
      IRBuilder<> b(II); Value *p = II->getArgOperand(0), *o = II->getArgOperand(1);
      Value *v = b.CreateSExt(b.CreateAlignedLoad(b.getInt32Ty(), b.CreateGEP(b.getInt8Ty(), p, o), MaybeAlign(4)), b.getInt64Ty());
      II->replaceAllUsesWith(b.CreateGEP(b.getInt8Ty(), p, v)); II->eraseFromParent();
    }
  }
  std::error_code ec;
  raw_fd_ostream o(out, ec); WriteBitcodeToFile(*M, o); o.close();
  std::ofstream x(idx);
  for (auto &F : M->functions()) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage()) x << "F " << F.getName().str() << "\n";
  for (auto &A : M->aliases()) x << "A " << A.getName().str() << " " << A.getAliaseeObject()->getName().str() << "\n";
  for (auto &G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) x << "G " << G.getName().str() << "\n";
  return 0;
}
