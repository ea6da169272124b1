// P12: intra-procedural control flow, forward and backward, against LLVM's own block structure.
#include "irgen.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/ControlFlow/SpecialMemberFunctionType.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/CFG.h"
using namespace vf;
using I_t = const llvm::Instruction *;
using Edge = std::pair<I_t, I_t>;

void vfInit(Ctx &) { psr::Logger::disable(); }

static bool dbg(I_t I) {
  if (auto *C = llvm::dyn_cast<llvm::CallInst>(I))
    if (auto *F = C->getCalledFunction()) return F->getName().startswith("llvm.dbg.");
  return false;
}
// An independent reading of the guard pattern the code documents: the branch on the guard variable of a static local.
static bool guardBranch(I_t I) {
  auto *Br = llvm::dyn_cast<llvm::BranchInst>(I);
  if (!Br || !Br->isConditional()) return false;
  auto *C = llvm::dyn_cast<llvm::ICmpInst>(Br->getCondition());
  if (!C || !(C->getPredicate() == llvm::CmpInst::ICMP_EQ || C->getPredicate() == llvm::CmpInst::ICMP_NE)) return false;
  for (unsigned K = 0; K < 2; ++K) {
    auto *Op = C->getOperand(K);
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(Op)) {
      auto *P = L->getPointerOperand()->stripPointerCasts();
      if (L->isAtomic() && llvm::isa<llvm::GlobalVariable>(P) && P->getName().startswith("_ZGV")) return true;
    } else if (auto *CB = llvm::dyn_cast<llvm::CallBase>(Op)) {
      if (CB->getCalledFunction() && CB->getCalledFunction()->getName() == "__cxa_guard_acquire") return true;
    }
  }
  return false;
}
static I_t firstOf(const llvm::BasicBlock *BB, bool Ign) {
  for (auto &I : *BB)
    if (!Ign || !dbg(&I)) return &I;
  return nullptr;
}
static I_t nextIn(I_t I, bool Ign) {
  for (I = I->getNextNode(); I; I = I->getNextNode())
    if (!Ign || !dbg(I)) return I;
  return nullptr;
}
static std::string show(const std::vector<I_t> &V) {
  std::string S = "[";
  for (auto *I : V) S += instStr(I) + "; ";
  return S + "]";
}
template <typename R> static std::vector<I_t> vec(const R &X) { return std::vector<I_t>(X.begin(), X.end()); }
static std::vector<I_t> sorted(std::vector<I_t> V) { std::sort(V.begin(), V.end()); return V; }

// Special member functions are recognised by their mangled names.
static void specialMembers(Ctx &C, Rng &R) {
  using SM = psr::SpecialMemberFunctionType;
  llvm::LLVMContext LC;
  llvm::Module M("m", LC);
  psr::LLVMBasedCFG G;
  auto *FT = llvm::FunctionType::get(llvm::Type::getVoidTy(LC), false);
  auto ident = [&] {
    static const char *Parts[] = {"C1", "C2", "D0", "D1", "D2", "a", "Foo", "x", "Bar_", "S", "C", "D", "aSERKS_", "aSEOS_", "q", "C3"};
    std::string S = R.chance(1, 2) ? "" : "K";
    for (unsigned N = R.chance(1, 12) ? 30 + R(40) : 1 + R(4); N--;) S += Parts[R(16)]; // also longer than 99 characters
    return S;
  };
  for (int K = 0; K < 12; ++K) {
    std::vector<std::string> Path;
    for (unsigned N = 1 + R(3); N--;) Path.push_back(ident());
    auto enc = [](const std::string &S) { return std::to_string(S.size()) + S; };
    std::string Pre = "_ZN", Nm, Last = Path.back();
    for (auto &S : Path) Pre += enc(S);
    SM Want = SM::None;
    switch (R(7)) {
    case 6: Nm = "_ZN" + enc(Last) + (R.chance(1, 2) ? "aSERK" + enc(ident()) : R.chance(1, 2) ? "aSEO" + enc(ident()) : std::string("aSEi")); break; // assignment from another type
    case 0: Nm = Pre + (R.chance(1, 2) ? "C1Ev" : "C2Ei"); Want = SM::Constructor; break;
    case 1: Nm = Pre + (R.chance(1, 3) ? "D0Ev" : R.chance(1, 2) ? "D1Ev" : "D2Ev"); Want = SM::Destructor; break;
    case 2: Nm = "_ZN" + enc(Last) + "aSERKS_"; Want = SM::CopyAssignment; break;
    case 3: Nm = "_ZN" + enc(Last) + "aSEOS_"; Want = SM::MoveAssignment; break;
    case 4: Nm = Pre + enc(ident()) + "Ev"; break;                          // member function
    case 5: Nm = "_Z" + enc(ident()) + (R.chance(1, 2) ? "v" : "ii"); break; // free function
    }
    auto *F = llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage, Nm, M);
    ++C.Evaluations;
    auto Got = G.getSpecialMemberFunctionType(F);
    if (Got != Want) C.violation("special-member", Nm + ": expected " + std::to_string((int)Want) + " got " + std::to_string((int)Got));
    if (G.isSpecialMemberFunction(F) != (Want != SM::None)) C.violation("special-member-flag", Nm);
    C.count("special_member_names");
    F->eraseFromParent();
  }
  auto *F = llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage, ident(), M); // a C name; must not hang
  (void)G.getSpecialMemberFunctionType(F);
  static const char *Heap[] = {"_Znwm", "_Znam", "_ZnwPv", "malloc", "calloc", "realloc", "free", "mallocx", "_Znw", "_ZdlPv", "alloca"};
  unsigned K = R(11);
  auto *HF = llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage, Heap[K], M);
  if (G.isHeapAllocatingFunction(HF) != (K < 6)) C.violation("heap-function", Heap[K]);
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(12);
  {
    Rng R2 = C.rng(77);
    specialMembers(C, R2);
  }
  IrOpts O;
  O.MaxBlocks = 2 + C.Case % 9;
  auto Mod = genIr(R, O);
  for (auto &F : *Mod.M) // runs of several debug intrinsics
    for (auto &BB : F)
      for (auto It = BB.begin(); It != BB.end(); ++It)
        if (dbg(&*It) && R.chance(1, 4)) { It->clone()->insertBefore(&*It); C.count("debug_runs"); }
  C.Artifact = modStr(*Mod.M);
  if (C.Case % 16 == 0) C.note();
  psr::LLVMProjectIRDB DB(Mod.M.get());
  uint64_t H = C.Seed, NE = 0;
  for (int Ign = 0; Ign < 2; ++Ign) {
    psr::LLVMBasedCFG G(Ign != 0);
    psr::LLVMBasedBackwardCFG BP(Ign != 0);           // without artificial exits
    psr::LLVMBasedBackwardCFG BG(DB, Ign != 0);       // with them
    if (G.getIgnoreDbgInstructions() != (Ign != 0) || BG.getIgnoreDbgInstructions() != (Ign != 0)) C.violation("flag", "");
    for (auto &F : *Mod.M) {
      auto bad = [&](const char *K, I_t I, const std::string &D) { C.violation(K, F.getName().str() + (I ? " at " + instStr(I) : "") + " ign=" + std::to_string(Ign) + ": " + D); };
      if (F.isDeclaration()) {
        if (!vec(G.getStartPointsOf(&F)).empty() || !vec(G.getExitPointsOf(&F)).empty()) bad("decl-points", nullptr, "");
        continue;
      }
      if (G.getFunctionName(&F) != F.getName()) bad("function-name", nullptr, "");
      // reference successor lists (with multiplicity) and everything derived from them
      std::map<I_t, std::vector<I_t>> Succ, Full; // Full: without the guard exception
      std::vector<I_t> All, Exits;
      for (auto &BB : F)
        for (auto &I : BB) {
          All.push_back(&I);
          if (llvm::isa<llvm::ReturnInst>(I) || llvm::isa<llvm::ResumeInst>(I)) Exits.push_back(&I);
          std::vector<I_t> S;
          if (auto *N = nextIn(&I, Ign)) S = {N};
          else if (I.isTerminator())
            for (unsigned K = 0; K < I.getNumSuccessors(); ++K) S.push_back(firstOf(I.getSuccessor(K), Ign));
          Full[&I] = S;
          if (guardBranch(&I)) { S.resize(1); C.count("static_guards"); }
          Succ[&I] = S;
        }
      std::map<I_t, std::vector<I_t>> FullPred;
      for (auto *I : All)
        if (!Ign || !dbg(I))
          for (auto *S : Full[I]) FullPred[S].push_back(I);
      if (vec(G.getAllInstructionsOf(&F)) != All) bad("all-instructions", nullptr, "");
      // start and exit points
      I_t Start = firstOf(&F.getEntryBlock(), Ign);
      if (vec(G.getStartPointsOf(&F)) != std::vector<I_t>{Start}) bad("start-points", nullptr, show(vec(G.getStartPointsOf(&F))));
      if (sorted(vec(G.getExitPointsOf(&F))) != sorted(Exits)) bad("exit-points", nullptr, show(vec(G.getExitPointsOf(&F))));
      if (sorted(vec(BG.getStartPointsOf(&F))) != sorted(Exits) || sorted(vec(BP.getStartPointsOf(&F))) != sorted(Exits)) bad("backward-start-points", nullptr, "");
      if (vec(BP.getExitPointsOf(&F)) != std::vector<I_t>{Start}) bad("backward-exit-points", nullptr, "without artificial exits");
      auto BE = vec(BG.getExitPointsOf(&F));
      I_t BRet = BE.size() == 1 ? BE[0] : nullptr;
      if (!BRet || BRet->getParent() || !llvm::isa<llvm::ReturnInst>(BRet)) { bad("backward-exit-points", nullptr, "artificial exit missing"); continue; }
      if (BG.getFunctionOf(BRet) != &F) bad("backward-exit-function", nullptr, "");
      if (!BG.isExitInst(BRet)) bad("backward-exit-flag", nullptr, "");
      if (!vec(BG.getSuccsOf(BRet)).empty()) bad("backward-exit-succs", nullptr, "");
      std::vector<I_t> Heads; // instructions with no predecessor at all
      for (auto *I : All) {
        auto GS = vec(G.getSuccsOf(I)), GP = vec(G.getPredsOf(I));
        C.Evaluations += 6;
        H = mixn(H, GS.size(), GP.size());
        if (sorted(GS) != sorted(Succ[I])) bad("succs", I, "expected " + show(Succ[I]) + " got " + show(GS));
        else if (GS != Succ[I]) bad("succ-order", I, "expected " + show(Succ[I]) + " got " + show(GS));
        NE += GS.size();
        // predecessors: exactly the statements control comes from (a guard branch stays a predecessor of both targets)
        std::vector<I_t> EP;
        if (Ign && dbg(I)) { // a skipped statement: whatever precedes its position
          I_t Pv = nullptr;
          for (I_t J = I->getPrevNode(); J && !Pv; J = J->getPrevNode()) if (!dbg(J)) Pv = J;
          if (Pv) EP = {Pv};
          else for (auto *PB : llvm::predecessors(I->getParent())) EP.push_back(PB->getTerminator());
        } else
          EP = FullPred[I];
        if (sorted(GP) != sorted(EP)) bad("preds", I, "expected " + show(EP) + " got " + show(GP));
        if (G.getFunctionOf(I) != &F || BG.getFunctionOf(I) != &F || BP.getFunctionOf(I) != &F) bad("function-of", I, "");
        // backward is the mirror image
        auto BS = vec(BP.getSuccsOf(I)), BPr = vec(BP.getPredsOf(I)), XS = vec(BG.getSuccsOf(I)), XP = vec(BG.getPredsOf(I));
        if (sorted(BS) != sorted(EP)) bad("backward-succs", I, show(BS));
        if (sorted(BPr) != sorted(Succ[I])) bad("backward-preds", I, show(BPr));
        if (sorted(XP) != sorted(Succ[I])) bad("backward-preds", I, show(XP));
        if (EP.empty()) {
          Heads.push_back(I);
          if (XS != std::vector<I_t>{BRet}) bad("backward-last-succ", I, show(XS));
        } else if (sorted(XS) != sorted(EP)) bad("backward-succs", I, show(XS));
        // classification
        bool Ret = llvm::isa<llvm::ReturnInst>(I);
        if (G.isExitInst(I) != Ret) bad("exit-flag", I, "");
        if (BG.isStartPoint(I) != Ret || BP.isStartPoint(I) != Ret) bad("backward-start-flag", I, "");
        if (BG.isExitInst(I)) bad("backward-exit-flag", I, "");
        bool IsSt = I == Start || I == &F.front().front() || (dbg(&F.front().front()) && I == firstOf(&F.getEntryBlock(), true));
        if (I == Start && !G.isStartPoint(I)) bad("start-flag", I, "");
        if (!IsSt && G.isStartPoint(I)) bad("start-flag", I, "");
        if ((I == Start && !BP.isExitInst(I)) || (!IsSt && BP.isExitInst(I))) bad("backward-exit-flag", I, "");
        if (G.isCallSite(I) != (llvm::isa<llvm::CallInst>(I) || llvm::isa<llvm::InvokeInst>(I)) || BG.isCallSite(I) != G.isCallSite(I)) bad("call-flag", I, "");
        auto gep = [](const llvm::Value *P) { return llvm::isa<llvm::GetElementPtrInst>(P); };
        auto *L = llvm::dyn_cast<llvm::LoadInst>(I);
        auto *St = llvm::dyn_cast<llvm::StoreInst>(I);
        if (G.isFieldLoad(I) != (L && gep(L->getPointerOperand()))) bad("field-load", I, "");
        if (G.isFieldStore(I) != (St && gep(St->getPointerOperand()))) bad("field-store", I, "");
        if (G.getStatementId(I) != psr::getMetaDataID(I)) bad("statement-id", I, "");
        if (!(Ign && dbg(I))) {
          bool Term = I->isTerminator();
          for (auto *S : GS) {
            if (G.isBranchTarget(I, S) != Term) bad("branch-target", I, "successor " + instStr(S));
            if (llvm::isa<llvm::BranchInst>(I) && BG.isBranchTarget(S, I) != Term) bad("backward-branch-target", I, "successor " + instStr(S));
          }
          if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(I)) {
            I_t FT = firstOf(Br->getSuccessor(Br->isConditional() ? 1 : 0), Ign);
            for (auto *S : Full[I])
              if (G.isFallThroughSuccessor(I, S) != (S == FT)) bad("fall-through", I, "successor " + instStr(S));
          } else
            for (auto *S : GS)
              if (G.isFallThroughSuccessor(I, S)) bad("fall-through", I, "");
          auto *Other = All[R(All.size())];
          if (std::find(Full[I].begin(), Full[I].end(), Other) == Full[I].end()) {
            if (G.isBranchTarget(I, Other) && !(dbg(Other) || dbg(I))) bad("branch-target", I, "not a successor: " + instStr(Other));
            if (G.isFallThroughSuccessor(I, Other) && !dbg(Other)) bad("fall-through", I, "not a successor");
          }
        }
      }
      { // the artificial exit is preceded by the function's start
        auto P = vec(BG.getPredsOf(BRet));
        if (std::find(P.begin(), P.end(), Start) == P.end()) bad("backward-exit-preds", nullptr, show(P));
        for (auto *I : P)
          if (std::find(Heads.begin(), Heads.end(), I) == Heads.end()) bad("backward-exit-preds", nullptr, show(P));
      }
      { // edge lists
        std::vector<Edge> Want, Got;
        for (auto *I : All)
          if (!Ign || !dbg(I))
            for (auto *S : Succ[I]) Want.push_back({I, S});
        for (auto &E : G.getAllControlFlowEdges(&F)) Got.push_back(E);
        if (Got != Want) bad("edges", nullptr, std::to_string(Got.size()) + " edges, expected " + std::to_string(Want.size()));
        auto und = [](std::vector<Edge> V) { for (auto &E : V) if (std::less<I_t>{}(E.second, E.first)) std::swap(E.first, E.second); std::sort(V.begin(), V.end()); return V; };
        std::vector<Edge> BWant, BGot;
        for (auto *I : All)
          if (!Ign || !dbg(I))
            for (auto *S : FullPred[I]) BWant.push_back({S, I});
        for (auto &E : BP.getAllControlFlowEdges(&F)) BGot.push_back(E);
        if (und(BGot) != und(BWant)) bad("backward-edges", nullptr, std::to_string(BGot.size()) + " edges, expected " + std::to_string(BWant.size()));
        // the JSON export lists the same edges in the same order
        auto J = G.exportCFGAsJson(&F);
        std::vector<std::pair<std::string, std::string>> JW, JG;
        for (auto &[A, S] : Want) JW.push_back({psr::llvmIRToString(A), psr::llvmIRToString(S)});
        for (auto &E : J) JG.push_back({E["from"].get<std::string>(), E["to"].get<std::string>()});
        if (JW != JG) bad("json-edges", nullptr, std::to_string(JG.size()) + " edges, expected " + std::to_string(JW.size()));
      }
      std::string S;
      llvm::raw_string_ostream OS(S);
      G.print(&F, OS);
      if (OS.str().empty()) bad("print", nullptr, "");
    }
  }
  C.count("edges", NE);
  if (Mod.M->getFunction("llvm.dbg.value")) C.count("modules_with_debug_intrinsics");
  if (NE > 10) C.nontrivial(H);
  C.sample(std::to_string(Mod.Funs.size()) + " functions, " + std::to_string(NE) + " edges");
}
