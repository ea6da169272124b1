// P31: every shipped analysis copes with every valid module, and reports the same for a second, separately
// built copy of the module.
#include "irgen.h"
#include "refgen.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEExtendedTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEProtoAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDESolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSConstAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSProtoAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSSignAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSSolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTypeAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLEVPKDFDescription.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/OpenSSLSecureMemoryDescription.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoSolverTest.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoUninitVariables.h"
#include "phasar/PhasarLLVM/HelperAnalyses.h"
#include "phasar/PhasarLLVM/Passes/GeneralStatisticsAnalysis.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/SimpleAnalysisConstructor.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Utils/Logger.h"
#include "phasar/Utils/Printer.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/Support/SourceMgr.h"
using namespace vf;
void vfInit(Ctx &C) { psr::Logger::disable(); if (!C.Verbose) { (void)!freopen("/dev/null", "w", stdout); } }

using Lines = std::vector<std::string>;
using EPs = std::vector<std::string>;

// Results do not fix an order within a set: sort the elements.
static std::string canon(const std::string &S) {
  std::vector<std::string> T;
  std::string Cur;
  for (char Ch : S)
    if (strchr(",{}<>[] \n", Ch)) { if (!Cur.empty()) T.push_back(Cur); Cur.clear(); }
    else Cur += Ch;
  if (!Cur.empty()) T.push_back(Cur);
  std::sort(T.begin(), T.end());
  std::string O;
  for (auto &X : T) O += X + " ";
  return O;
}

static std::string tos(std::string S) { return S; }
static std::string tos(llvm::StringRef S) { return S.str(); }
struct Run {
  Ctx &C;
  psr::HelperAnalyses HA;
  EPs Ep;
  uint64_t Seed;
  std::unique_ptr<psr::LLVMTaintConfig> TC;
  std::map<std::string, Lines> Out;
  std::map<const llvm::Instruction *, std::string> Id;
  uint64_t NumFacts = 0;

  Run(Ctx &C, llvm::Module *M, EPs Ep, psr::HelperAnalysisConfig Cfg, uint64_t Seed) : C(C), HA(M, Ep, std::move(Cfg)), Ep(Ep), Seed(Seed) {
    Rng R(Seed);
    psr::TaintConfigData D;
    for (auto &F : *M) {
      if (F.isIntrinsic() || !F.hasName()) continue;
      psr::FunctionData FD;
      FD.Name = F.getName().str();
      for (unsigned I = 0; I < F.arg_size(); ++I)
        switch (R(8)) {
        case 0: FD.SourceValues.push_back(I); break;
        case 1: FD.SinkValues.push_back(I); break;
        case 2: FD.SanitizerValues.push_back(I); break;
        default: break;
        }
      if (R(4) == 0) FD.ReturnCat = psr::TaintCategory::Source;
      D.Functions.push_back(FD);
    }
    TC = std::make_unique<psr::LLVMTaintConfig>(HA.getProjectIRDB(), D);
    unsigned N = 0;
    for (auto &F : *M)
      for (auto &BB : F)
        for (auto &I : BB) Id[&I] = std::to_string(N++);
  }
  void begin(const char *N) {
    C.count(std::string("ran_") + N);
    fprintf(C.Out, "{\"t\":\"info\",\"x\":\"%s\"}\n", N);
    fflush(C.Out);
  }
  template <typename RT> Lines dump(const RT &Res) {
    Lines L;
    for (const auto &Cell : Res.getAllResultEntries()) {
      L.push_back(Id[Cell.getRowKey()] + " | " + canon(tos(psr::DToString(Cell.getColumnKey()))) + " | " + canon(tos(psr::LToString(Cell.getValue()))));
      ++NumFacts;
    }
    std::sort(L.begin(), L.end());
    return L;
  }
  template <typename P, typename... A> void ide(const char *N, A &&...Args) {
    begin(N);
    auto Pr = psr::createAnalysisProblem<P>(HA, std::forward<A>(Args)...);
    psr::IDESolver S(Pr, &HA.getICFG());
    auto Res = S.solve();
    Out[N] = dump(Res);
    std::string Rep;
    llvm::raw_string_ostream OS(Rep);
    S.dumpResults(OS);
    Pr.emitTextReport(Res, OS);
  }
  template <typename P, typename... A> void ifds(const char *N, A &&...Args) {
    begin(N);
    auto Pr = psr::createAnalysisProblem<P>(HA, std::forward<A>(Args)...);
    psr::IFDSSolver S(Pr, &HA.getICFG());
    auto Res = S.solve();
    Out[N] = dump(Res);
    std::string Rep;
    llvm::raw_string_ostream OS(Rep);
    S.dumpResults(OS);
    Pr.emitTextReport(Res, OS);
  }
  template <typename P> void mono(const char *N) {
    begin(N);
    EPs E2 = Ep;
    if (Ep[0] == "__ALL__") {
      E2.clear();
      for (auto *F : HA.getProjectIRDB().getAllFunctions()) if (!F->isDeclaration()) E2.push_back(F->getName().str());
    }
    P Pr(&HA.getProjectIRDB(), &HA.getTypeHierarchy(), &HA.getCFG(), &HA.getAliasInfo(), E2);
    psr::IntraMonoSolver S(Pr);
    S.solve();
    std::string Rep;
    llvm::raw_string_ostream OS(Rep);
    S.dumpResults(OS);
    ++NumFacts;
  }
  void all(uint64_t Mask) {
    using namespace psr;
    auto on = [&](int I) { return Mask >> I & 1; };
    if (on(0)) ifds<IFDSConstAnalysis>("IFDSConst", Ep);
    if (on(1)) ifds<IFDSTypeAnalysis>("IFDSType", Ep);
    if (on(2)) ifds<IFDSSignAnalysis>("IFDSSign", Ep);
    if (on(3)) ifds<IFDSProtoAnalysis>("IFDSProto", Ep);
    if (on(4)) ifds<IFDSSolverTest>("IFDSSolverTest", Ep);
    if (on(5)) ifds<IFDSUninitializedVariables>("IFDSUninit", Ep);
    if (on(6)) ifds<IFDSTaintAnalysis>("IFDSTaint", TC.get(), Ep);
    if (on(7)) ide<IDELinearConstantAnalysis>("IDELinearConstant", Ep);
    if (on(8)) ide<IDEProtoAnalysis>("IDEProto", Ep);
    if (on(10)) ide<IDESolverTest>("IDESolverTest", Ep);
    if (on(11)) { CSTDFILEIOTypeStateDescription D; ide<IDETypeStateAnalysis<CSTDFILEIOTypeStateDescription>>("IDETypeStateFile", &D, Ep); }
    if (on(12)) { OpenSSLEVPKDFDescription D; ide<IDETypeStateAnalysis<OpenSSLEVPKDFDescription>>("IDETypeStateKDF", &D, Ep); }
    if (on(13)) { OpenSSLSecureMemoryDescription D; ide<IDETypeStateAnalysis<OpenSSLSecureMemoryDescription>>("IDETypeStateSecMem", &D, Ep); }
    if (on(14)) {
      auto Gen = [this](std::variant<const llvm::Instruction *, const llvm::GlobalVariable *> Cur) {
        std::set<std::string> L;
        if (auto *I = std::get_if<const llvm::Instruction *>(&Cur)) L.insert("i" + Id[*I]);
        else L.insert("g" + std::get<const llvm::GlobalVariable *>(Cur)->getName().str());
        return L;
      };
      ide<IDEInstInteractionAnalysis>("IDEInstInteraction", Ep, Gen);
    }
    if (on(15)) {
      ide<IDEExtendedTaintAnalysis<>>("IDEExtendedTaint", *TC, Ep);
      Out.erase("IDEExtendedTaint"); // which of several sanitizers an edge function names depends on the order of the joins
    }
    if (on(17)) mono<IntraMonoFullConstantPropagation>("IntraMonoFullConstant");
    if (on(18)) mono<IntraMonoSolverTest>("IntraMonoSolverTest");
    if (on(19)) mono<IntraMonoUninitVariables>("IntraMonoUninit");
    if (on(20)) {
      begin("Statistics");
      GeneralStatisticsAnalysis G;
      auto S = G.runOnModule(*HA.getProjectIRDB().getModule());
      std::string X;
      llvm::raw_string_ostream OS(X);
      OS << S;
      Out["Statistics"] = {OS.str().substr(0, 0)};
    }
  }
};

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  std::string Text;
  bool XTaint = false;
  if (R(3)) {
    IrOpts O;
    O.Dbg = R(2);
    if (C.Case % 8) { O.MaxFuns = 4; O.MaxBlocks = 5; O.MaxInsts = 5; }
    auto P = genIr(R, O);
    Text = modStr(*P.M);
  } else {
    RefOpts O;
    O.Loops = R(2); O.Rec = R(2); O.Aggs = R(2); O.Slots = R(2); O.SRet = R(2); O.Undef = R(2); O.Phi = R(2); O.Heap = R(2); O.Invoke = R(2); O.Indirect = R(2);
    // the extended taint analysis enumerates access paths without a bound in cyclic programs
    XTaint = !O.Loops && !O.Rec && !O.Indirect;
    auto P = genRef(R, O);
    Text = modStr(*P.M);
  }
  C.Artifact = Text;
  C.note();
  uint64_t Mask = 0;
  for (int I = 0; I < 6; ++I) Mask |= 1ull << R(21);
  if (getenv("VF_MASK")) Mask = strtoull(getenv("VF_MASK"), 0, 16);
  if (!XTaint) Mask &= ~(1ull << 15);
  EPs Ep = R(5) == 0 ? EPs{"__ALL__"} : EPs{"main"};
  auto mkCfg = [&](Rng Q) {
    psr::HelperAnalysisConfig Cfg;
    Cfg.CGTy = std::array{psr::CallGraphAnalysisType::OTF, psr::CallGraphAnalysisType::CHA, psr::CallGraphAnalysisType::RTA, psr::CallGraphAnalysisType::OTF, psr::CallGraphAnalysisType::NORESOLVE}[Q(5)];
    Cfg.PTATy = Q(2) ? psr::AliasAnalysisType::CFLAnders : psr::AliasAnalysisType::CFLSteens;
    Cfg.AllowLazyPTS = Q(2);
    Cfg.AutoGlobalSupport = Q(3) != 0;
    return Cfg;
  };
  uint64_t S2 = R.next();
  std::map<std::string, Lines> First;
  std::vector<void *> Junk;
  std::unique_ptr<llvm::LLVMContext> LC[2];
  std::unique_ptr<llvm::Module> M[2];
  for (int I = 0; I < 2; ++I) {
    LC[I] = std::make_unique<llvm::LLVMContext>();
    llvm::SMDiagnostic D;
    M[I] = llvm::parseAssemblyString(Text, D, *LC[I]);
    if (!M[I]) { fprintf(stderr, "parse: %s\n", D.getMessage().str().c_str()); abort(); }
    Run X(C, M[I].get(), Ep, mkCfg(Rng(S2)), S2);
    X.all(Mask);
    C.count("results", X.NumFacts);
    if (!I) {
      First = std::move(X.Out);
      for (unsigned J = R(200); J--;) Junk.push_back(malloc(16 + R(300))); // other addresses the second time
      for (auto *&J : Junk) if (R(2)) { free(J); J = nullptr; }
      continue;
    }
    uint64_t H = 0;
    for (auto &[N, L] : X.Out) {
      C.count("analyses_compared");
      for (auto &S : L) H = mixn(H, hstr(S));
      auto &L0 = First[N];
      if (L0 == L) continue;
      std::string Why;
      Lines A, B;
      std::set_difference(L0.begin(), L0.end(), L.begin(), L.end(), std::back_inserter(A));
      std::set_difference(L.begin(), L.end(), L0.begin(), L0.end(), std::back_inserter(B));
      for (unsigned K = 0; K < A.size() && K < 3; ++K) Why += "first only: " + A[K] + "\n";
      for (unsigned K = 0; K < B.size() && K < 3; ++K) Why += "second only: " + B[K] + "\n";
      C.violation("differs:" + N, Why);
    }
    if (H) C.nontrivial(H);
  }
  for (auto *J : Junk) free(J);
}
