// P08: taint analysis against the taint that concrete executions carry.
#include "refgen.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }

// The library functions may have bodies; the analysis must go by the configuration.
static const std::set<std::string> Lib = {"source", "source64", "sourceptr", "sink", "sink2", "sinkptr", "both", "sanitize"};
struct TaintObs : Observer {
  using Key = std::pair<const llvm::Instruction *, const llvm::Value *>;
  std::set<Key> Leaks, Facts;
  uint64_t Events = 0;
  bool Arith = false; // arithmetic on tainted values is tainted
  static bool ptrTainted(Exec &E, const PVal &P) {
    if (P.Kind != PVal::Ptr || P.Obj < 0) return false;
    auto It = E.Mem[P.Obj].Slots.find(P.Off);
    return It != E.Mem[P.Obj].Slots.end() && It->second.S.Taint;
  }
  void binop(const llvm::Instruction *, const PVal &, const PVal &, PVal &R) override { if (!Arith) R.S.Taint = 0; }
  void enter(Exec &E, const llvm::Function *F, const llvm::CallBase *) override {
    if (F->hasStructRetAttr()) // the memory of the result is undefined before the call
      for (auto &[O, V] : E.Mem[E.get(F->getArg(0)).Obj].Slots) V.S.Taint = 0;
  }
  void before(Exec &E, const llvm::Instruction *I) override {
    ++Events;
    const llvm::Value *V = nullptr;
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) {
      V = L->getPointerOperand();
      if (V->getType()->getPointerElementType()->isIntegerTy() && ptrTainted(E, E.get(V))) Facts.insert({I, V});
      return;
    }
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I)) V = S->getValueOperand();
    else if (llvm::isa<llvm::CastInst>(I) || llvm::isa<llvm::ReturnInst>(I)) V = I->getNumOperands() ? I->getOperand(0) : nullptr;
    else if (auto *CS = llvm::dyn_cast<llvm::CallBase>(I)) {
      if (!CS->getCalledFunction() || CS->getCalledFunction()->isDeclaration() || isExternal(CS->getCalledFunction())) return;
      for (auto &A : CS->args())
        if (!llvm::isa<llvm::Constant>(A) && A->getType()->isIntegerTy() && E.get(A).S.Taint) Facts.insert({I, A});
      return;
    }
    if (V && !llvm::isa<llvm::Constant>(V) && V->getType()->isIntegerTy() && E.get(V).S.Taint) Facts.insert({I, V});
  }
  bool isExternal(const llvm::Function *F) override { return F->isDeclaration() || Lib.count(F->getName().str()); }
  PVal external(Exec &E, const llvm::CallBase *CS, const llvm::Function *F, std::vector<PVal> &A) override {
    PVal R;
    auto N = F->getName();
    if (CS->getType()->isIntegerTy()) R.Kind = PVal::Int;
    auto leak = [&](unsigned I) {
      if (A[I].Kind == PVal::Ptr ? ptrTainted(E, A[I]) : A[I].S.Taint != 0) Leaks.insert({CS, CS->getArgOperand(I)});
    };
    if (N == "source" || N == "source64") R.S.Taint = 1;
    else if (N == "sourceptr") {
      PVal X;
      X.Kind = PVal::Int;
      X.S.Taint = 1;
      E.Mem[A[0].Obj].Slots[A[0].Off] = X;
    } else if (N == "sink") leak(0);
    else if (N == "sink2") leak(1);
    else if (N == "sinkptr") leak(0);
    else if (N == "both") {
      leak(2);
      E.Mem[A[1].Obj].Slots[A[1].Off].S.Taint = 0;
      PVal X;
      X.Kind = PVal::Int;
      X.S.Taint = 1;
      E.Mem[A[0].Obj].Slots[A[0].Off] = X;
    } else if (N == "sanitize") E.Mem[A[0].Obj].Slots[A[0].Off].S.Taint = 0;
    else if (N == "malloc") { R.Kind = PVal::Ptr; R.Obj = E.newObj(CS); }
    return R;
  }
};

static void defineLib(Rng &R, llvm::Module &M, bool Pointers) { // bodies with pointer parameters make the arguments of all calls alias
  for (auto &N : Lib) {
    if (!R.chance(1, 2)) continue;
    auto *F = M.getFunction(N);
    if (!Pointers && F->arg_size() && F->getArg(0)->getType()->isPointerTy()) continue;
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(M.getContext(), "", F));
    auto *I32 = B.getInt32Ty();
    if (N == "source") B.CreateRet(B.getInt32(1));
    else if (N == "source64") B.CreateRet(B.CreateZExt(F->getArg(0), B.getInt64Ty()));
    else if (N == "sourceptr") { B.CreateStore(F->getArg(1), F->getArg(0)); B.CreateRetVoid(); }
    else if (N == "sink2") B.CreateRet(F->getArg(R(2)));
    else if (N == "sinkptr") { if (R(2)) B.CreateLoad(I32, F->getArg(0)); B.CreateRetVoid(); }
    else if (N == "both") { if (R(2)) B.CreateStore(F->getArg(2), F->getArg(1)); B.CreateRetVoid(); }
    else if (N == "sanitize") { if (R(2)) B.CreateStore(B.getInt32(0), F->getArg(0)); B.CreateRetVoid(); }
    else B.CreateRetVoid();
  }
}
// Calls whose target is one of two functions, only one of which matters. (Return-value sources are configured per direct call site.)
static unsigned twoTargets(Rng &R, llvm::Module &M) {
  auto &LC = M.getContext();
  std::vector<llvm::CallInst *> Cs;
  auto Skip = R(2) ? "sanitize" : "sinkptr"; // functions of one type become one another's callees
  for (auto &F : M)
    for (auto &I : llvm::instructions(F))
      if (auto *CI = llvm::dyn_cast<llvm::CallInst>(&I); CI && CI->getCalledFunction() && Lib.count(CI->getCalledFunction()->getName().str()) && CI->getCalledFunction()->getName() != "both" && CI->getCalledFunction()->getName() != Skip && CI->getType()->isVoidTy() && R.chance(CI->getCalledFunction()->getName() == "sanitize" ? 2 : 1, 3)) Cs.push_back(CI);
  unsigned N = 0;
  for (auto *CI : Cs) {
    auto *F = CI->getCalledFunction();
    auto *Alt = M.getFunction("not" + F->getName().str());
    if (!Alt) Alt = llvm::Function::Create(F->getFunctionType(), llvm::GlobalValue::ExternalLinkage, "not" + F->getName().str(), M);
    llvm::IRBuilder<> B(CI);
    auto *Ext = M.getFunction("ext");
    auto *Cond = B.CreateICmpEQ(B.CreateCall(Ext, {B.getInt32(3)}), B.getInt32(0));
    bool Sw = R(2);
    CI->setCalledOperand(B.CreateSelect(Cond, Sw ? F : Alt, Sw ? Alt : F));
    ++N;
  }
  return N;
}

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  RefOpts O;
  unsigned Mode = C.Case % 5;
  O.Loops = R.chance(1, 4);
  O.Rec = R.chance(1, 6);
  if (Mode == 0) O.Refs = O.Globals = false;
  if (Mode == 2 || Mode == 4) O.Slots = true;
  if (Mode >= 3) O.Aggs = O.SRet = true;
  if (Mode == 4) O.Heap = R.chance(1, 2);
  auto P = genRef(R, O);
  unsigned CK = R(3);
  if (R.chance(1, 3)) { defineLib(R, *P.M, Mode != 0); C.count("programs_with_library_bodies"); }
  if (CK == 0 && R.chance(1, 2)) C.count("calls_with_two_targets", twoTargets(R, *P.M));
  C.Artifact = modStr(*P.M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  if (llvm::verifyModule(*P.M, &EO)) { fprintf(stderr, "generator: %s\n%s", EO.str().c_str(), C.Artifact.c_str()); abort(); }
  C.note();
  TaintObs Ob;
  Paths Pa;
  unsigned Runs = 0;
  bool Complete = true;
  const auto *Main = P.M->getFunction("main");
  bool TaintArgs = R.chance(1, 2) && !getenv("VF_X");
  auto args = [&] {
    std::vector<PVal> A(Main->arg_size());
    if (!A.empty()) { A[0].Kind = PVal::Int; A[0].S.Taint = TaintArgs; }
    return A;
  };
  do {
    Exec E(*P.M, Ob, [&](unsigned N) { return Pa.choose(N); });
    E.run(Main, args());
    if (E.Stopped) Complete = false;
    ++Runs;
  } while (Runs < 150 && Pa.next());
  if (!Pa.Exhausted) {
    Complete = false;
    Rng Q(R.next());
    for (int I = 0; I < 100; ++I) {
      Exec E(*P.M, Ob, [&](unsigned N) { return (unsigned)Q(N); });
      E.run(Main, args());
      ++Runs;
    }
  }
  C.count("paths", Runs);
  if (Complete) C.count("programs_with_all_paths");
  // ---- the analysis
  psr::LLVMProjectIRDB IRDB(P.M.get());
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  psr::LLVMBasedICFG ICF(&IRDB, psr::CallGraphAnalysisType::OTF, {"main"}, &TH, &PT, psr::Soundness::Soundy, false);
  auto fn = [&](const char *N) { return P.M->getFunction(N); };
  std::unique_ptr<psr::LLVMTaintConfig> TC;
  if (CK == 0) {
    psr::TaintConfigData D;
    auto add = [&](const char *N, std::vector<uint32_t> S, std::vector<uint32_t> K, std::vector<uint32_t> Z, bool Ret) {
      psr::FunctionData FD;
      FD.Name = N;
      FD.SourceValues = S;
      FD.SinkValues = K;
      FD.SanitizerValues = Z;
      if (Ret) FD.ReturnCat = psr::TaintCategory::Source;
      D.Functions.push_back(FD);
    };
    add("source", {}, {}, {}, true);
    add("source64", {}, {}, {}, true);
    add("sourceptr", {0}, {}, {}, false);
    add("sink", {}, {0}, {}, false);
    add("sink2", {}, {1}, {}, false);
    add("sinkptr", {}, {0}, {}, false);
    add("both", {0}, {2}, {1}, false);
    add("sanitize", {}, {}, {0}, false);
    TC = std::make_unique<psr::LLVMTaintConfig>(IRDB, D);
  } else if (CK == 1) {
    auto argAt = [](const llvm::Instruction *I, const char *N, unsigned A, std::set<const llvm::Value *> &S) {
      auto *CS = llvm::dyn_cast<llvm::CallBase>(I);
      if (CS && CS->getCalledFunction() && CS->getCalledFunction()->getName() == N) S.insert(A == 99 ? (const llvm::Value *)CS : CS->getArgOperand(A));
    };
    TC = std::make_unique<psr::LLVMTaintConfig>(
        [=](const llvm::Instruction *I) { std::set<const llvm::Value *> S; argAt(I, "source", 99, S); argAt(I, "source64", 99, S); argAt(I, "sourceptr", 0, S); argAt(I, "both", 0, S); return S; },
        [=](const llvm::Instruction *I) { std::set<const llvm::Value *> S; argAt(I, "sink", 0, S); argAt(I, "sink2", 1, S); argAt(I, "sinkptr", 0, S); argAt(I, "both", 2, S); return S; },
        [=](const llvm::Instruction *I) { std::set<const llvm::Value *> S; argAt(I, "sanitize", 0, S); argAt(I, "both", 1, S); return S; });
  } else {
    TC = std::make_unique<psr::LLVMTaintConfig>(IRDB, psr::TaintConfigData{});
    for (auto *N : {"source", "source64"}) for (auto *U : fn(N)->users()) TC->addSourceValue(U);
    TC->addSourceValue(fn("sourceptr")->getArg(0));
    TC->addTaintCategory(fn("sink")->getArg(0), "sink");
    TC->addTaintCategory(fn("sink2")->getArg(1), psr::TaintCategory::Sink);
    TC->addSinkValue(fn("sinkptr")->getArg(0));
    TC->addSourceValue(fn("both")->getArg(0));
    TC->addSinkValue(fn("both")->getArg(2));
    TC->addSanitizerValue(fn("both")->getArg(1));
    TC->addSanitizerValue(fn("sanitize")->getArg(0));
  }
  psr::IFDSTaintAnalysis Prob(&IRDB, &PT, TC.get(), {"main"}, TaintArgs);
  psr::IFDSSolver Solver(Prob, &ICF);
  Solver.solve();
  if (C.Verbose && getenv("VF_DUMP")) TC->print(llvm::errs());
  if (C.Verbose && getenv("VF_DUMP"))
    for (auto &F : *P.M)
      for (auto &I : llvm::instructions(F)) {
        std::string S;
        for (auto *V : Solver.ifdsResultsAt(&I)) if (!psr::LLVMZeroValue::isLLVMZeroValue(V)) S += instStr(V) + " ; ";
        if (llvm::isa<llvm::CallBase>(I)) { S += " callees"; for (auto *Cl : ICF.getCalleesOfCallAt(&I)) S += " " + Cl->getName().str(); }
        fprintf(stderr, "%-60s | %s\n", instStr(&I).c_str(), S.c_str());
      }
  static const char *Names[] = {"values", "references", "slots", "aggregates", "mixed"};
  std::string Pre = Names[Mode];
  auto where = [&](TaintObs::Key K) { return "at '" + instStr(K.first) + "' in " + K.first->getFunction()->getName().str() + " value '" + instStr(K.second) + "'"; };
  uint64_t H = 0;
  for (auto K : Ob.Leaks) {
    auto It = Prob.Leaks.find(K.first);
    C.count("leaks_observed");
    H = mixn(H, hstr(instStr(K.first)));
    if (It == Prob.Leaks.end() || !It->second.count(K.second)) C.violation(Pre + ":missed-leak", where(K));
  }
  for (auto K : Ob.Facts) {
    C.count("facts_observed");
    if (!Solver.ifdsResultsAt(K.first).count(K.second)) C.violation(Pre + ":missed-fact", where(K));
  }
  if (Mode == 0 && Complete) {
    for (auto &[I, Vs] : Prob.Leaks)
      for (auto *V : Vs)
        if (!Ob.Leaks.count({I, V})) C.violation(Pre + ":false-leak", where({I, V}));
        else C.count("leaks_exact");
  }
  if (getenv("VF_X")) {
    psr::IDEExtendedTaintAnalysis<> XP(&IRDB, &ICF, &PT, *TC, {"main"});
    psr::IDESolver XS(XP, &ICF);
    XS.solve();
    auto XL = XP.getAllLeaks(XS.getSolverResults());
    for (auto K : Ob.Leaks) {
      auto It = XL.find(K.first);
      if (It == XL.end() || !It->second.count(K.second)) C.violation("x-" + Pre + ":missed-leak", where(K));
    }
    if (Mode == 0 && Complete)
    for (auto &[I, Vs] : XL)
      for (auto *V : Vs)
        if (!Ob.Leaks.count({I, V})) C.violation("x-" + Pre + ":false-leak", where({I, V}));
  }
  C.count("events", Ob.Events);
  if (!Ob.Leaks.empty()) C.nontrivial(H);
  C.sample(C.Artifact);
}
