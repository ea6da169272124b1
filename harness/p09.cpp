// P09: the uninitialised-variables analysis against the uninitialised reads of concrete executions.
#include "refgen.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }
using Key = std::pair<const llvm::Instruction *, const llvm::Value *>;

struct UninitObs : Observer {
  std::set<Key> Uses, Facts;
  uint64_t Events = 0;
  bool Sel = false;
  static bool memUninit(Exec &E, const PVal &P) {
    if (P.Kind != PVal::Ptr || P.Obj < 0) return false;
    auto It = E.Mem[P.Obj].Slots.find(P.Off);
    return It == E.Mem[P.Obj].Slots.end() || It->second.S.Uninit;
  }
  void constant(const llvm::Constant *C, PVal &R) override {
    if (llvm::isa<llvm::UndefValue>(C)) { R.Kind = C->getType()->isIntegerTy() ? PVal::Int : PVal::Undef; R.S.Uninit = true; }
  }
  void cast(const llvm::Instruction *I, const PVal &, PVal &R) override { if (llvm::isa<llvm::SelectInst>(I)) R.S.Uninit = Sel; }
  void before(Exec &E, const llvm::Instruction *I) override {
    ++Events;
    if (llvm::isa<llvm::AllocaInst>(I)) return;
    Sel = false;
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) {
      auto *P = L->getPointerOperand();
      if (L->getType()->isIntegerTy() && memUninit(E, E.get(P))) { Uses.insert({I, P}); }
      return;
    }
    for (auto &Op : I->operands()) {
      if (!Op->getType()->isIntegerTy()) continue;
      if (!E.get(Op).S.Uninit) continue;
      Sel = true;
      Facts.insert({I, Op});
      if (llvm::isa<llvm::BinaryOperator>(I) || llvm::isa<llvm::CmpInst>(I) || llvm::isa<llvm::BranchInst>(I) || llvm::isa<llvm::SelectInst>(I)) Uses.insert({I, Op});
    }
  }
};

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  RefOpts O;
  unsigned Mode = C.Case % 3;
  O.Taint = false;
  O.Phi = true;
  O.InitNum = 1;
  O.InitDen = 2;
  O.Globals = false;
  O.Undef = R.chance(1, 2);
  O.Rec = R.chance(1, 6);
  if (Mode >= 1) { O.Loops = R.chance(1, 2); O.Indirect = R.chance(1, 2); O.Invoke = R.chance(1, 3); }
  if (Mode == 2) O.Globals = true;
  auto P = genRef(R, O);
  C.Artifact = modStr(*P.M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  if (llvm::verifyModule(*P.M, &EO)) { fprintf(stderr, "generator: %s\n%s", EO.str().c_str(), C.Artifact.c_str()); abort(); }
  C.note();
  UninitObs Ob;
  Paths Pa;
  unsigned Runs = 0;
  bool Complete = true;
  const auto *Main = P.M->getFunction("main");
  auto args = [&] {
    std::vector<PVal> A(Main->arg_size());
    if (!A.empty()) A[0].Kind = PVal::Int;
    return A;
  };
  do {
    Exec E(*P.M, Ob, [&](unsigned N) { return Pa.choose(N); });
    E.run(Main, args());
    if (E.Stopped) Complete = false;
    ++Runs;
  } while (Runs < 300 && Pa.next());
  if (!Pa.Exhausted) {
    Complete = false;
    Rng Q(R.next());
    for (int I = 0; I < 100; ++I) {
      Exec E(*P.M, Ob, [&](unsigned N) { return (unsigned)Q(N); });
      E.run(Main, args());
      ++Runs;
    }
  }
  C.count("paths", Runs);
  if (Complete) C.count("programs_with_all_paths");
  psr::LLVMProjectIRDB IRDB(P.M.get());
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  psr::LLVMBasedICFG ICF(&IRDB, psr::CallGraphAnalysisType::OTF, {"main"}, &TH, &PT, psr::Soundness::Soundy, false);
  psr::IFDSUninitializedVariables Prob(&IRDB, {"main"});
  psr::IFDSSolver Solver(Prob, &ICF);
  Solver.solve();
  auto &Rep = Prob.getAllUndefUses();
  static const char *Names[] = {"exact", "control", "globals"};
  std::string Pre = Names[Mode];
  auto where = [&](Key K) { return "at '" + instStr(K.first) + "' in " + K.first->getFunction()->getName().str() + " value '" + instStr(K.second) + "'"; };
  uint64_t H = 0;
  for (auto K : Ob.Uses) {
    auto It = Rep.find(K.first);
    C.count("uses_observed");
    H = mixn(H, hstr(instStr(K.first)));
    bool Lit = false; // the analysis attributes a use to the undef literal if there is one
    for (auto &Op : K.first->operands()) Lit |= llvm::isa<llvm::UndefValue>(Op.get());
    if (It == Rep.end() || (!Lit && !It->second.count(K.second))) C.violation(Pre + ":missed-use", where(K));
  }
  for (auto K : Ob.Facts) {
    if (llvm::isa<llvm::Constant>(K.second)) continue;
    C.count("facts_observed");
    if (!Solver.ifdsResultsAt(K.first).count(K.second)) C.violation(Pre + ":missed-fact", where(K));
  }
  if (Mode == 0 && Complete)
    for (auto &[I, Vs] : Rep)
      for (auto *V : Vs)
        if (!Ob.Uses.count({I, V})) C.violation(Pre + ":false-use", where({I, V}));
        else C.count("uses_exact");
  C.count("events", Ob.Events);
  if (!Ob.Uses.empty()) C.nontrivial(H);
  C.sample(C.Artifact);
}
