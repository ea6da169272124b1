// P03: every way of driving the solver gives the same results as solve(), and every way of
// reading the results gives the same answer.
#include "idegen.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMSolverResults.h"
#include <thread>
using namespace vf;
using Tab = std::map<std::pair<N, D>, uint8_t>;
void vfInit(Ctx &) { initPhasarQuiet(); }

template <typename R> Tab tabOf(const R &Res) {
  Tab T;
  for (auto &Cell : Res.getAllResultEntries()) T[{Cell.getRowKey(), Cell.getColumnKey()}] = Cell.getValue().V;
  return T;
}
static void diff(Ctx &C, const std::string &Mode, const Tab &Exp, const Tab &Got) {
  ++C.Evaluations;
  C.count("mode_" + Mode);
  if (Exp == Got) return;
  for (auto &[K, V] : Exp)
    if (!Got.count(K)) { C.violation("mode:" + Mode, "missing fact " + instStr(K.second) + " at " + instStr(K.first)); return; }
    else if (Got.at(K) != V) { C.violation("mode:" + Mode, "value of " + instStr(K.second) + " at " + instStr(K.first)); return; }
  C.violation("mode:" + Mode, "additional facts");
}

template <typename Res> static void queries(Ctx &C, const IdeCase &IC, const Tab &T, const Res &R, const char *What) {
  std::map<N, std::unordered_map<D, BV>> Rows;
  for (auto &[K, V] : T) Rows[K.first][K.second] = BV{V};
  for (auto &F : *IC.P.M)
    for (auto &I : llvm::instructions(F)) {
      std::unordered_map<D, BV> Row = Rows.count(&I) ? Rows[&I] : std::unordered_map<D, BV>{};
      auto NoZ = Row;
      NoZ.erase(IC.Mo.FactV[0]);
      C.Evaluations += 4;
      if (R.resultsAt(&I) != Row) C.violation(std::string("query:resultsAt:") + What, instStr(&I));
      if (R.resultsAt(&I, false) != Row) C.violation(std::string("query:resultsAt-keep:") + What, instStr(&I));
      if (R.resultsAt(&I, true) != NoZ) C.violation(std::string("query:resultsAt-strip:") + What, instStr(&I));
      for (auto *X : IC.Mo.FactV) {
        BV E = Row.count(X) ? Row[X] : BV{};
        if (R.resultAt(&I, X) != E) C.violation(std::string("query:resultAt:") + What, instStr(&I) + " " + instStr(X));
      }
      if (I.getType()->isVoidTy() || I.getNextNode()) {
        const llvm::Instruction *Q = I.getType()->isVoidTy() ? &I : I.getNextNode();
        auto Row2 = Rows.count(Q) ? Rows[Q] : std::unordered_map<D, BV>{};
        auto NoZ2 = Row2;
        NoZ2.erase(IC.Mo.FactV[0]);
        if (R.resultsAtInLLVMSSA(&I) != Row2) C.violation(std::string("query:resultsAtInLLVMSSA:") + What, instStr(&I));
        if (R.resultsAtInLLVMSSA(&I, true, true) != NoZ2) C.violation(std::string("query:resultsAtInLLVMSSA-strip:") + What, instStr(&I));
        for (auto *X : IC.Mo.FactV)
          if (R.resultAtInLLVMSSA(&I, X) != (Row2.count(X) ? Row2[X] : BV{})) C.violation(std::string("query:resultAtInLLVMSSA:") + What, instStr(&I) + " " + instStr(X));
      } else {
        // a value-producing terminator (invoke): what holds behind it, which is what holds at a successor that has
        // no other predecessor, or else everything that holds at any successor, with the joined values
        std::unordered_map<D, BV> Any;
        std::vector<std::unordered_map<D, BV>> Single;
        for (N S : llvmSuccs(&I)) {
          auto RowS = Rows.count(S) ? Rows[S] : std::unordered_map<D, BV>{};
          for (auto &[X, V] : RowS) Any[X] = BV::join(Any.count(X) ? Any[X] : BV{}, V);
          if (S->getParent()->hasNPredecessors(1)) Single.push_back(RowS);
        }
        if (Single.empty()) Single.push_back(Any), C.count("invoke_ssa_merges");
        bool Ok = false;
        for (auto &E : Single) {
          bool Same = R.resultsAtInLLVMSSA(&I, true) == E;
          auto NoZ2 = E;
          NoZ2.erase(IC.Mo.FactV[0]);
          Same &= R.resultsAtInLLVMSSA(&I, true, true) == NoZ2;
          for (auto *X : IC.Mo.FactV) Same &= R.resultAtInLLVMSSA(&I, X, true) == (E.count(X) ? E[X] : BV{});
          Ok |= Same;
        }
        if (!Ok) C.violation(std::string("query:resultsAtInLLVMSSA-invoke:") + What, instStr(&I));
        C.count("invoke_ssa_queries");
      }
    }
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(3);
  IdeCase IC = genIdeCase(R, C.Case % 8 == 7, 3 + C.Case % 4);
  C.Artifact = modStr(*IC.P.M);
  StepHook Total;
  auto P0 = mkProblem<RandIDE>(IC);
  P0->Steps = &Total;
  psr::IDESolver S0(*P0, IC.ICF.get());
  auto R0 = S0.solve();
  Tab T0 = tabOf(R0);
  uint64_t H = C.Seed;
  for (auto &[K, V] : T0) H = mixn(H, IC.Mo.Id[K.first], IC.Mo.FactI[K.second], V);
  if (T0.size() > 10) C.nontrivial(H);
  queries(C, IC, T0, R0, "view");
  {
    for (auto &F : *IC.P.M)
      for (auto &I : llvm::instructions(F)) {
        if (S0.resultsAt(&I, true) != R0.resultsAt(&I, true)) C.violation("query:solver.resultsAt", instStr(&I));
        for (auto *X : IC.Mo.FactV)
          if (S0.resultAt(&I, X) != R0.resultAt(&I, X)) C.violation("query:solver.resultAt", instStr(&I));
      }
    std::string Dump;
    llvm::raw_string_ostream OS(Dump);
    S0.dumpResults(OS);
    OS.flush();
    size_t NL = 0;
    for (size_t P = Dump.find("\tD: "); P != std::string::npos; P = Dump.find("\tD: ", P + 1)) ++NL;
    ++C.Evaluations;
    if (NL != T0.size()) C.violation("query:dumpResults", std::to_string(NL) + " facts printed, " + std::to_string(T0.size()) + " held");
  }
  {
    auto O = S0.consumeSolverResults();
    diff(C, "consume", T0, tabOf(O));
    queries(C, IC, T0, O, "owning");
    diff(C, "owning.get", T0, tabOf(O.get()));
  }
  auto mk = [&] { return mkProblem<RandIDE>(IC); };
  uint64_t NSteps = Total.Steps + 2;
  { // rvalue solve
    auto P = mk();
    auto O = psr::IDESolver(*P, IC.ICF.get()).solve();
    diff(C, "solve-rvalue", T0, tabOf(O));
  }
  {
    auto P = mk();
    auto O = psr::solveIDEProblem(*P, *IC.ICF);
    diff(C, "solveIDEProblem", T0, tabOf(O));
  }
  uint64_t NextSteps = 0;
  { // single steps
    auto P = mk();
    psr::IDESolver S(*P, IC.ICF.get());
    if (S.initialize()) do ++NextSteps; while (S.next());
    diff(C, "next", T0, tabOf(S.finalize()));
    C.count("next_steps", NextSteps);
  }
  { // chunks
    auto P = mk();
    psr::IDESolver S(*P, IC.ICF.get());
    if (S.initialize()) while (S.nextN(R(1 + NextSteps / 2) + (R.chance(1, 8) ? 0 : 1))) ;
    diff(C, "nextN", T0, tabOf(S.finalize()));
  }
  { // cancelled at random points by a predicate, then continued in a random way
    auto P = mk();
    psr::IDESolver S(*P, IC.ICF.get());
    int Budget = R(5), Asked = 0;
    unsigned Iv = R(4) ? R(2) : 1;
    auto Pred = [&] { ++Asked; if (Budget > 0 && R.chance(2, 3)) { --Budget; return true; } return false; };
    C.Artifact = modStr(*IC.P.M) + "\n; interval=" + std::to_string(Iv);
    bool O = S.solveUntil(Pred, std::chrono::milliseconds(Iv)).has_value();
    unsigned Intr = 0;
    while (!O) {
      ++Intr;
      if (R.chance(1, 3)) { diff(C, "continueSolving", T0, tabOf(S.continueSolving())); break; }
      O = S.continueUntil(Pred, std::chrono::milliseconds(Iv)).has_value();
    }
    C.count("interruptions", Intr);
    if (O) diff(C, Intr ? "continueUntil" : "solveUntil", T0, tabOf(S.getSolverResults()));
  }
  { // cancellation flag raised inside the analysis at a chosen step; or from another thread
    StepHook HK;
    HK.CancelAt = 1 + R(NSteps + 2);
    auto P = mk();
    P->Steps = &HK;
    psr::IDESolver S(*P, IC.ICF.get());
    std::thread T;
    bool Thr = R.chance(1, 4);
    if (Thr) T = std::thread([&, N = R(20000)] { for (volatile uint64_t I = 0; I < N; I = I + 1) ; HK.Cancel = true; });
    if (R.chance(1, 3)) HK.Cancel = true; // requested before the run starts
    bool O = S.solveWithAsyncCancellation(HK.Cancel).has_value();
    if (Thr) T.join();
    unsigned Intr = 0;
    while (!O) {
      ++Intr;
      HK.Cancel = false;
      HK.CancelAt = HK.Steps + 1 + R(NSteps);
      if (R.chance(1, 4)) HK.Cancel = true;
      if (Intr > 20) HK.CancelAt = 0, HK.Cancel = false;
      if (R.chance(1, 4)) { diff(C, "continueSolving", T0, tabOf(S.continueSolving())); break; }
      O = S.continueWithAsyncCancellation(HK.Cancel).has_value();
    }
    C.count("interruptions", Intr);
    if (O) diff(C, Intr ? "continueAsync" : "solveAsync", T0, tabOf(S.getSolverResults()));
  }
  { // timeouts
    auto P = mk();
    psr::IDESolver S(*P, IC.ICF.get());
    auto O = S.solveWithTimeout(std::chrono::milliseconds(R.chance(1, 2) ? 0 : 1000000), std::chrono::milliseconds(1 + R(3)));
    if (O) diff(C, "solveWithTimeout", T0, tabOf(*O));
    else if (R.chance(1, 2)) { auto Q = S.continueWithTimeout(std::chrono::hours(10), std::chrono::milliseconds(1)); if (Q) diff(C, "continueWithTimeout", T0, tabOf(*Q)); else C.violation("mode:continueWithTimeout", "no result after a 10h timeout"); }
    else diff(C, "continueSolving", T0, tabOf(std::move(S).continueSolving()));
  }
  { // the same on temporaries, returning owned results
    auto P = mk();
    psr::IDESolver S(*P, IC.ICF.get());
    int Budget = R(4);
    auto Pred = [&] { return Budget > 0 && R.chance(2, 3) ? (--Budget, true) : false; };
    auto PredT = [&](std::chrono::steady_clock::time_point) { return Pred(); };
    std::atomic_bool Flag{R.chance(1, 2)};
    auto Iv = std::chrono::milliseconds(R(2));
    std::optional<psr::OwningSolverResults<N, D, BV>> O;
    unsigned How = R(4);
    if (How == 0) O = std::move(S).solveUntil(Pred, Iv);
    else if (How == 1) O = std::move(S).solveUntil(PredT, Iv);
    else if (How == 2) O = std::move(S).solveWithAsyncCancellation(Flag);
    else O = std::move(S).solveWithTimeout(std::chrono::milliseconds(R.chance(1, 2) ? 0 : 1000000), std::chrono::milliseconds(1 + R(2)));
    unsigned Intr = 0;
    while (!O) {
      ++Intr;
      How = R(5);
      Flag = Intr < 5 && R.chance(1, 2);
      if (How == 0) O = std::move(S).continueUntil(Pred, Iv);
      else if (How == 1) O = std::move(S).continueUntil(PredT, Iv);
      else if (How == 2) O = std::move(S).continueWithAsyncCancellation(Flag);
      else if (How == 3) O = std::move(S).continueWithTimeout(std::chrono::hours(10), std::chrono::milliseconds(1));
      else O = std::move(S).continueSolving();
    }
    C.count("interruptions", Intr);
    diff(C, "rvalue-interrupted", T0, tabOf(*O));
  }
  { // options
    auto P = mk();
    P->getIFDSIDESolverConfig().setRecordEdges(R.chance(1, 2));
    P->getIFDSIDESolverConfig().setComputePersistedSummaries(R.chance(1, 2));
    P->getIFDSIDESolverConfig().setEmitESG(R.chance(1, 3));
    psr::IDESolver S(*P, IC.ICF.get());
    diff(C, "options", T0, tabOf(S.solve()));
  }
  { // path-aware solver
    auto P = mk();
    psr::PathAwareIDESolver<Domain> S(*P, IC.ICF.get());
    diff(C, "path-aware", T0, tabOf(S.solve()));
    // every reported non-zero-only fact has a node in the explicit supergraph
  }
  { // IFDS
    auto P = mkProblem<RandIFDS>(IC);
    psr::IFDSSolver S(*P, IC.ICF.get());
    auto RR = S.solve();
    for (auto &F : *IC.P.M)
      for (auto &I : llvm::instructions(F)) {
        std::set<D> E;
        for (auto &[X, V] : RR.resultsAt(&I)) E.insert(X);
        C.Evaluations += 2;
        if (RR.ifdsResultsAt(&I) != E) C.violation("query:ifdsResultsAt", instStr(&I));
        if (S.ifdsResultsAt(&I) != E) C.violation("query:solver.ifdsResultsAt", instStr(&I));
      }
  }
  C.sample(progSummary(IC) + "; " + std::to_string(T0.size()) + " result entries, " + std::to_string(NextSteps) + " solver steps");
}
