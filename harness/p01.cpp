// P01: IDE solver == reference solution, on random distributive IDE problems.
#include "idegen.h"
using namespace vf;
void vfInit(Ctx &) { initPhasarQuiet(); }
void vfRunCase(Ctx &C) {
  Rng R = C.rng();
  IdeCase IC = genIdeCase(R, false, 3 + C.Case % 4);
  auto Ref = refSolve(IC.Mo, *IC.P.M, IC.Callees, IC.Seeds, false);
  C.Artifact = modStr(*IC.P.M);
  auto Prob = mkProblem<RandIDE>(IC);
  psr::IDESolver Solver(*Prob, IC.ICF.get());
  auto Res = Solver.solve();
  uint64_t NFacts = 0, H = C.Seed;
  unsigned Calls = 0, MultiTarget = 0, Summ = 0, NonId = 0, NonZero = 0, Unreached = 0;
  for (auto &F : *IC.P.M)
    for (auto &I : llvm::instructions(F)) {
      auto CI = IC.Callees.find(&I);
      if (CI != IC.Callees.end() && Ref.Val.count(&I)) {
        ++Calls;
        MultiTarget += CI->second.size() > 1;
        for (auto *Cal : CI->second) Summ += IC.Mo.hasSummary(Cal);
      }
      auto Got = Res.resultsAt(&I);
      auto It = Ref.Val.find(&I);
      if (It == Ref.Val.end()) ++Unreached;
      for (unsigned X = 0; X < IC.Mo.FactV.size(); ++X) {
        bool RefHas = It != Ref.Val.end() && It->second.count(X);
        auto GI = Got.find(IC.Mo.FactV[X]);
        bool Has = GI != Got.end();
        ++NFacts;
        if (RefHas && X) ++NonZero, NonId += It->second[X] != BV::bot();
        if (RefHas) H = mixn(H, IC.Mo.Id[&I], X, It->second[X].V);
        if (RefHas != Has || (Has && GI->second != It->second[X]))
          C.violation(RefHas && !Has ? "fact-missing" : Has && !RefHas ? "fact-spurious" : "wrong-value",
                      "in " + F.getName().str() + " at " + instStr(&I) + " fact " + std::to_string(X) + " expected " +
                          (RefHas ? str(It->second[X]) : "-") + " got " + (Has ? str(GI->second) : "-"));
      }
    }
  C.Evaluations += NFacts;
  C.count("fact_checks", NFacts);
  C.count("facts_holding", NonZero);
  C.count("values_below_bottom", NonId);
  C.count("reached_calls", Calls);
  C.count("reached_multi_target_calls", MultiTarget);
  C.count("reached_summary_calls", Summ);
  C.count("unreached_statements", Unreached);
  C.count("programs_with_several_callee_contexts", Ref.MaxCtx > 1);
  C.count("edge_function_queries", Prob->Queries);
  if (NonZero && Calls) C.nontrivial(H);
  C.sample(progSummary(IC) + "; reference: " + std::to_string(NonZero) + " non-zero facts, " + std::to_string(Ref.MaxCtx) + " contexts");
}
