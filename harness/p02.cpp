// P02: IFDS solver == facts reachable along interprocedurally realizable paths.
#include "idegen.h"
using namespace vf;
void vfInit(Ctx &) { initPhasarQuiet(); }
void vfRunCase(Ctx &C) {
  Rng R = C.rng(2);
  IdeCase IC = genIdeCase(R, false, 3 + C.Case % 5);
  C.Artifact = modStr(*IC.P.M);
  // Reachability reference: identity values only
  auto Ref = refSolve(IC.Mo, *IC.P.M, IC.Callees, IC.Seeds, false);
  auto Prob = mkProblem<RandIFDS>(IC);
  uint64_t NFacts = 0, NonZero = 0, H = C.Seed, Calls = 0;
  auto Check = [&](auto &&Get, const char *Via) {
    for (auto &F : *IC.P.M)
      for (auto &I : llvm::instructions(F)) {
        std::set<D> Got = Get(&I);
        auto It = Ref.Val.find(&I);
        if (It != Ref.Val.end() && IC.Callees.count(&I)) ++Calls;
        std::set<D> Exp;
        if (It != Ref.Val.end())
          for (auto &[X, V] : It->second) {
            Exp.insert(IC.Mo.FactV[X]);
            if (X) ++NonZero, H = mixn(H, IC.Mo.Id[&I], X);
          }
        NFacts += IC.Mo.FactV.size();
        for (auto *X : Exp)
          if (!Got.count(X))
            C.violation("fact-missing", std::string(Via) + " in " + F.getName().str() + " at " + instStr(&I) + " fact " + instStr(X));
        for (auto *X : Got)
          if (!Exp.count(X))
            C.violation("fact-spurious", std::string(Via) + " in " + F.getName().str() + " at " + instStr(&I) + " fact " + instStr(X));
      }
  };
  if (C.Case % 2) {
    psr::IFDSSolver Solver(*Prob, IC.ICF.get());
    auto Res = Solver.solve();
    Check([&](N I) { return Res.ifdsResultsAt(I); }, "solve()");
    Check([&](N I) { return Solver.ifdsResultsAt(I); }, "solver.ifdsResultsAt");
  } else {
    auto Res = psr::solveIFDSProblem(*Prob, *IC.ICF);
    Check([&](N I) { return Res.ifdsResultsAt(I); }, "solveIFDSProblem");
  }
  C.Evaluations += NFacts;
  C.count("fact_checks", NFacts);
  C.count("facts_holding", NonZero);
  C.count("reached_calls", Calls);
  C.count("programs_with_several_callee_contexts", Ref.MaxCtx > 1);
  if (NonZero && Calls) C.nontrivial(H);
  C.sample(progSummary(IC));
}
