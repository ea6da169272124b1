// P13: call graphs against executions (function pointers, direct calls), and their internal consistency.
#include "exec.h"
#include "irgen.h"
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
using namespace vf;
using CGT = psr::CallGraphAnalysisType;
using Fn = const llvm::Function *;
using In = const llvm::Instruction *;

void vfInit(Ctx &) { psr::Logger::disable(); }

struct Calls : Observer {
  std::set<std::pair<In, Fn>> Seen;
  std::set<Fn> Entered;
  std::set<In> Executed;
  int HeapN = 0;
  void before(Exec &, In I) override { if (llvm::isa<llvm::CallBase>(I)) Executed.insert(I); }
  void enter(Exec &, Fn F, const llvm::CallBase *CS) override { Entered.insert(F); if (CS) Seen.insert({CS, F}); }
  PVal external(Exec &E, const llvm::CallBase *CS, Fn F, std::vector<PVal> &A) override {
    Seen.insert({CS, F});
    PVal R;
    if (F->getName() == "malloc" || F->getName() == "_Znwm") { R.Kind = PVal::Ptr; R.Obj = E.newObj(CS); return R; }
    if (CS->getType()->isPointerTy() && !A.empty())
      for (auto &X : A)
        if (X.Kind == PVal::Ptr || X.Kind == PVal::Fun) return X; // hands back a pointer it was given
    R.Kind = CS->getType()->isIntegerTy() ? PVal::Int : PVal::Undef;
    return R;
  }
};

static std::vector<Fn> sv(llvm::ArrayRef<Fn> A) { std::vector<Fn> V(A.begin(), A.end()); std::sort(V.begin(), V.end()); return V; }

// function pointers that travel through calls: returned from functions with several returns, passed as arguments,
// through calls whose targets are a mix of functions with and without a body
static void addPointerFlow(Rng &R, IrMod &Mod) {
  auto &M = *Mod.M;
  auto &LC = M.getContext();
  auto *I32 = llvm::Type::getInt32Ty(LC);
  auto *Leaf = llvm::FunctionType::get(I32, {I32, I32, I32}, false); // a signature nothing else uses
  auto *PL = Leaf->getPointerTo();
  auto *Sel = llvm::FunctionType::get(PL, {PL, PL, I32}, false);
  auto *App = llvm::FunctionType::get(I32, {PL, I32}, false);
  const auto Ext = llvm::GlobalValue::ExternalLinkage, Int = llvm::GlobalValue::InternalLinkage;
  std::vector<llvm::Function *> Leaves, Sels, Apps;
  for (unsigned I = 0, N = 2 + R(4); I < N; ++I) {
    auto *F = llvm::Function::Create(Leaf, Int, "leaf" + std::to_string(I), M);
    llvm::ReturnInst::Create(LC, F->getArg(R(3)), llvm::BasicBlock::Create(LC, "", F));
    Leaves.push_back(F);
  }
  auto leaf = [&]() -> llvm::Value * { return R.pick(Leaves); };
  for (unsigned I = 0, N = 1 + R(3); I < N; ++I) {
    auto *F = llvm::Function::Create(Sel, R.chance(1, 2) ? Int : Ext, "sel" + std::to_string(I), M);
    Sels.push_back(F);
    if (R.chance(1, 4)) { F->setLinkage(Ext); continue; } // no body
    unsigned K = 1 + R(3);
    auto *E = llvm::BasicBlock::Create(LC, "", F);
    std::vector<llvm::BasicBlock *> Rs;
    for (unsigned J = 0; J < K; ++J) {
      auto *BB = llvm::BasicBlock::Create(LC, "", F);
      llvm::Value *V = R.chance(1, 3) ? leaf() : F->getArg(R(2));
      llvm::ReturnInst::Create(LC, V, BB);
      Rs.push_back(BB);
    }
    llvm::IRBuilder<> B(E);
    auto *S = B.CreateSwitch(F->getArg(2), Rs[0], K);
    for (unsigned J = 1; J < K; ++J) S->addCase(llvm::ConstantInt::get(LC, llvm::APInt(32, J)), Rs[J]);
  }
  for (unsigned I = 0, N = 1 + R(3); I < N; ++I) {
    auto *F = llvm::Function::Create(App, R.chance(1, 2) ? Int : Ext, "app" + std::to_string(I), M);
    Apps.push_back(F);
    if (R.chance(1, 4)) { F->setLinkage(Ext); continue; }
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(LC, "", F));
    B.CreateRet(B.CreateCall(Leaf, F->getArg(0), {F->getArg(1), F->getArg(1), F->getArg(1)}));
  }
  // variadic functions called through pointers of their type
  auto *Va = llvm::FunctionType::get(I32, {I32, Leaf->getPointerTo()}, true);
  std::vector<llvm::Function *> Vas;
  for (unsigned I = 0, N = R(3); I < N; ++I) {
    auto *F = llvm::Function::Create(Va, Int, "va" + std::to_string(I), M);
    llvm::ReturnInst::Create(LC, F->getArg(0), llvm::BasicBlock::Create(LC, "", F));
    Vas.push_back(F);
  }
  auto target = [&](llvm::IRBuilder<> &B, std::vector<llvm::Function *> &V, llvm::Value *Cond) -> llvm::Value * {
    if (R.chance(1, 3)) return R.pick(V);
    if (V.size() > 1 && R.chance(2, 3)) return B.CreateSelect(Cond, R.pick(V), R.pick(V));
    auto *A = B.CreateAlloca(R.pick(V)->getType());
    B.CreateStore(R.pick(V), A);
    return B.CreateLoad(A->getAllocatedType(), A);
  };
  for (auto *F : Mod.Funs) {
    if (F->isDeclaration() || !R.chance(1, 2)) continue;
    auto *BB = &*F->begin();
    if (llvm::isa<llvm::UnreachableInst>(BB->getTerminator())) continue;
    llvm::IRBuilder<> B(&*BB->getFirstInsertionPt());
    for (unsigned K = 0, N = 1 + R(3); K < N; ++K) {
      auto *In = B.CreateAlloca(I32);
      llvm::Value *Ch = B.CreateCall(M.getOrInsertFunction("ext_choice", llvm::FunctionType::get(I32, false)));
      auto *Cond = B.CreateICmpEQ(Ch, llvm::ConstantInt::get(I32, 1));
      B.CreateStore(Ch, In);
      if (!Vas.empty() && R.chance(1, 3)) {
        std::vector<llvm::Value *> A{Ch, leaf()};
        for (unsigned X = R(3); X--;) A.push_back(Ch);
        B.CreateCall(Va, target(B, Vas, Cond), A);
      } else if (R.chance(1, 2)) B.CreateCall(App, target(B, Apps, Cond), {leaf(), Ch});
      else {
        auto *P = B.CreateCall(Sel, target(B, Sels, Cond), {leaf(), leaf(), Ch});
        if (R.chance(1, 4)) B.CreateCall(App, target(B, Apps, Cond), {P, Ch});
        else B.CreateCall(Leaf, P, {Ch, Ch, Ch});
      }
    }
  }
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(13);
  IrOpts O;
  O.MaxBlocks = 2 + C.Case % 5;
  O.MaxFuns = 2 + C.Case % 7;
  O.MaxInsts = 9;
  O.Unreach = C.Case % 3 == 0;
  O.Dbg = C.Case % 4 == 0;
  auto Mod = genIr(R, O);
  auto &M = *Mod.M;
  if (C.Case % 2) addPointerFlow(R, Mod);
  for (auto *F : Mod.Funs) // direct calls through aliases
    for (auto &BB : *F)
      for (auto &I : BB)
        if (auto *CB = llvm::dyn_cast<llvm::CallInst>(&I)) {
          auto *T = CB->getCalledFunction();
          if (!T || T->isDeclaration() || !R.chance(1, 20)) continue;
          auto *A = llvm::GlobalAlias::create(T->getName() + ".alias", T);
          CB->setCalledOperand(R.chance(1, 3) ? llvm::GlobalAlias::create(T->getName() + ".alias", A) : A);
          C.count("calls_through_aliases");
        }
  C.Artifact = modStr(M);
  if (C.Case % 16 == 0) C.note();
  // executions
  Calls Ob;
  uint64_t Runs = 0;
  std::vector<Fn> Entries = {M.getFunction("main")};
  auto *GC = M.getFunction("_GLOBAL__sub_I_gen"), *GD = M.getFunction("gdtor");
  auto exec = [&](std::function<unsigned(unsigned)> Ch) {
    Exec E(M, Ob, Ch);
    E.MaxSteps = 700;
    if (GC) E.run(GC, {});
    if (!E.Stopped) E.run(M.getFunction("main"), {});
    if (!E.Stopped && GD) E.run(GD, {});
    ++Runs; C.count("stop_" + (E.Stopped ? E.Why : "none"));
  };
  Rng RR = C.rng(99);
  for (int K = 0; K < 25; ++K) exec([&](unsigned N) { return (unsigned)RR(N); });
  for (int K = 0; K < 2; ++K) exec([&](unsigned N) { return K ? N - 1 : 0u; });
  C.count("executions", Runs);

  uint64_t H = C.Seed;
  CGT Kinds[] = {CGT::CHA, CGT::RTA, CGT::DTA, CGT::OTF, CGT::NORESOLVE};
  const char *KN[] = {"CHA", "RTA", "DTA", "OTF", "NORESOLVE"};
  for (int K = 0; K < 5; ++K) {
    bool Glob = R.chance(1, 2);
    std::string Text = C.Artifact;
    // work on the original module: results are compared by identity; the model function is removed afterwards
    psr::LLVMProjectIRDB DB(&M, false);
    psr::LLVMTypeHierarchy TH(DB);
    std::vector<std::string> EPs = {"main"};
    if (!Glob) { if (GC) EPs.push_back(GC->getName().str()); if (GD) EPs.push_back(GD->getName().str()); }
    psr::LLVMBasedICFG ICF(&DB, Kinds[K], EPs, &TH, nullptr, R.chance(1, 4) ? psr::Soundness::Sound : psr::Soundness::Soundy, Glob);
    auto &CG = ICF.getCallGraph();
    auto bad = [&](const std::string &Key, In I, const std::string &D) { C.violation(std::string(KN[K]) + ":" + Key, (I ? "in " + I->getFunction()->getName().str() + ": " + instStr(I) + " " : "") + D); };
    std::set<Fn> Verts;
    for (auto *F : CG.getAllVertexFunctions()) Verts.insert(F);
    if (Verts.size() != CG.getNumVertexFunctions() || Verts.size() != ICF.getNumVertexFunctions()) bad("vertex-count", nullptr, "");
    // 1. soundness against executions
    for (auto &[CS, F] : Ob.Seen) {
      auto Cs = ICF.getCalleesOfCallAt(CS);
      ++C.Evaluations;
      auto *CB = llvm::cast<llvm::CallBase>(CS);
      if (F->getName().startswith("leaf")) C.count("calls_of_passed_functions");
      bool Direct = llvm::isa<llvm::Function>(CB->getCalledOperand()->stripPointerCastsAndAliases());
      if (!Direct && K == 4) continue;
      if (!Direct) C.count("dynamic_calls_observed");
      if (std::find(Cs.begin(), Cs.end(), F) == Cs.end()) {
        if (K == 4) { // callers may only be reachable through indirect calls
          if (!Verts.count(CS->getFunction())) continue;
        }
        bad("callee-missing", CS, "calls " + F->getName().str());
      }
      H = mixn(H, Cs.size(), K);
    }
    if (K != 4)
      for (auto *F : Ob.Entered)
        if (!Verts.count(F)) bad("function-missing", nullptr, F->getName().str());
    // 2. callers and callees are inverse; no duplicates; only reachable calls; direct calls exact
    std::map<Fn, std::set<In>> Inv;
    std::set<Fn> Reach;
    std::vector<Fn> WL;
    auto push = [&](Fn F) { if (Reach.insert(F).second) WL.push_back(F); };
    if (Glob) push(M.getFunction(psr::LLVMBasedICFG::GlobalCRuntimeModelName));
    else for (auto &E : EPs) push(M.getFunction(E));
    while (!WL.empty()) {
      Fn F = WL.back();
      WL.pop_back();
      std::vector<In> Within;
      for (auto &BB : *F)
        for (auto &I : BB) {
          if (!llvm::isa<llvm::CallBase>(I)) {
            if (!ICF.getCalleesOfCallAt(&I).empty()) bad("callees-at-non-call", &I, "");
            continue;
          }
          Within.push_back(&I);
          auto *CB = llvm::cast<llvm::CallBase>(&I);
          auto Cs = ICF.getCalleesOfCallAt(&I);
          std::set<Fn> U(Cs.begin(), Cs.end());
          if (U.size() != Cs.size()) bad("duplicate-callee", &I, "");
          auto *St = llvm::dyn_cast<llvm::Function>(CB->getCalledOperand()->stripPointerCastsAndAliases());
          if (St) {
            if (U != std::set<Fn>{St}) bad("direct-callee", &I, std::to_string(U.size()) + " callees");
          } else {
            for (auto *X : U) {
              bool Fits = (X->isVarArg() ? X->arg_size() <= CB->arg_size() : X->arg_size() == CB->arg_size()) && X->getReturnType() == CB->getType();
              if (!Fits) bad("callee-signature", &I, X->getName().str());
              if (!X->hasAddressTaken()) bad("callee-address-not-taken", &I, X->getName().str());
            }
            if (K == 4 && !U.empty()) bad("resolved", &I, "");
            if (K < 3) { // by signature: every address-taken function of the same type
              for (auto &X : M)
                if (X.hasAddressTaken() && X.getFunctionType() == CB->getFunctionType() && !U.count(&X)) bad("matching-callee-missing", &I, X.getName().str());
            }
          }
          if (ICF.isIndirectFunctionCall(&I) != CB->isIndirectCall()) bad("indirect-flag", &I, "");
          if (ICF.isVirtualFunctionCall(&I)) bad("virtual-flag", &I, "no vtables here");
          auto RS = ICF.getReturnSitesOfCallAt(&I);
          auto SS = ICF.getSuccsOf(&I);
          if (!std::equal(RS.begin(), RS.end(), SS.begin(), SS.end())) bad("return-sites", &I, "");
          for (auto *X : U) { Inv[X].insert(&I); push(X); }
        }
      auto W = ICF.getCallsFromWithin(F);
      if (std::vector<In>(W.begin(), W.end()) != Within) bad("calls-from-within", nullptr, F->getName().str());
    }
    for (auto &F : M) {
      auto Cl = ICF.getCallersOf(&F);
      std::set<In> U(Cl.begin(), Cl.end());
      if (U.size() != Cl.size()) bad("duplicate-caller", nullptr, F.getName().str());
      if (U != Inv[&F]) bad("callers-not-inverse", nullptr, F.getName().str() + ": " + std::to_string(U.size()) + " callers, " + std::to_string(Inv[&F].size()) + " call sites with it as callee");
      if ((Verts.count(&F) != 0) != (Reach.count(&F) != 0)) bad(Reach.count(&F) ? "reachable-function-missing" : "unreachable-function-present", nullptr, F.getName().str());
      if (!Reach.count(&F))
        for (auto &BB : F)
          for (auto &I : BB)
            if (!ICF.getCalleesOfCallAt(&I).empty()) bad("callees-in-unreachable-function", &I, "");
      if (ICF.getFunction(F.getName()) != &F) bad("get-function", nullptr, F.getName().str());
    }
    std::set<Fn> AllF;
    for (auto *F : ICF.getAllFunctions()) AllF.insert(F);
    for (auto &F : M) if (!AllF.count(&F)) bad("all-functions", nullptr, F.getName().str());
    { // instructions that are neither calls nor start points
      std::set<In> Want, Got;
      for (auto *I : ICF.allNonCallStartNodes()) Got.insert(I);
      for (auto &F : M)
        for (auto &BB : F)
          for (auto &I : BB)
            if (!llvm::isa<llvm::CallBase>(I) && !ICF.isStartPoint(&I)) Want.insert(&I);
      if (Got != Want) bad("non-call-start-nodes", nullptr, std::to_string(Got.size()) + " expected " + std::to_string(Want.size()));
    }
    if (K < 2) { // the backward view shares the call graph
      psr::LLVMBasedBackwardICFG BI(&ICF);
      for (auto &F : M) {
        auto A = ICF.getCallersOf(&F), B = BI.getCallersOf(&F);
        if (!std::equal(A.begin(), A.end(), B.begin(), B.end())) bad("backward-callers", nullptr, F.getName().str());
        for (auto &BB : F)
          for (auto &I : BB)
            if (llvm::isa<llvm::CallBase>(I)) {
              if (sv(ICF.getCalleesOfCallAt(&I)) != sv(BI.getCalleesOfCallAt(&I))) bad("backward-callees", &I, "");
              auto RS = BI.getReturnSitesOfCallAt(&I);
              auto SS = BI.getSuccsOf(&I);
              if (!std::equal(RS.begin(), RS.end(), SS.begin(), SS.end())) bad("backward-return-sites", &I, "");
              if (BI.isIndirectFunctionCall(&I) != ICF.isIndirectFunctionCall(&I)) bad("backward-indirect-flag", &I, "");
            }
        auto W = BI.getCallsFromWithin(&F);
        auto W2 = ICF.getCallsFromWithin(&F);
        if (!std::equal(W.begin(), W.end(), W2.begin(), W2.end())) bad("backward-calls-from-within", nullptr, "");
      }
    }
    C.count("reachable_functions", Reach.size());
    if (!Glob) { // the other ways to build a call graph yield the same one
      psr::LLVMVFTableProvider VTP(DB);
      auto same = [&](auto &&CG2, const char *What) {
        std::set<Fn> V2;
        for (auto *F : CG2.getAllVertexFunctions()) V2.insert(F);
        if (V2 != Verts) bad(std::string(What) + "-functions", nullptr, std::to_string(V2.size()) + " / " + std::to_string(Verts.size()));
        for (auto &F : M)
          for (auto &BB : F)
            for (auto &I : BB)
              if (llvm::isa<llvm::CallBase>(I) && sv(CG2.getCalleesOfCallAt(&I)) != sv(ICF.getCalleesOfCallAt(&I))) bad(std::string(What) + "-callees", &I, "");
        C.count("other_construction");
      };
      same(psr::buildLLVMBasedCallGraph(DB, Kinds[K], EPs, TH, VTP, nullptr, psr::Soundness::Soundy), "built");
      psr::LLVMAliasSet AS(&DB, R.chance(1, 2));
      auto Res = psr::Resolver::create(Kinds[K], &DB, &VTP, &TH, &AS);
      psr::LLVMBasedICFG ICF2(&DB, *Res, EPs, psr::Soundness::Soundy, false);
      same(ICF2, "resolver");
    }
    // remove what the runtime model added
    std::vector<llvm::Function *> Rm;
    for (auto &F : M)
      if (F.getName().startswith("__psr")) Rm.push_back(&F);
    for (auto *F : Rm) F->dropAllReferences();
    for (auto *F : Rm) F->eraseFromParent();
  }
  C.count("observed_call_edges", Ob.Seen.size());
  if (Ob.Seen.size() > 2) C.nontrivial(H);
  C.sample(std::to_string(Mod.Funs.size()) + " functions, " + std::to_string(Ob.Seen.size()) + " call edges observed in " + std::to_string(Runs) + " executions");
}
