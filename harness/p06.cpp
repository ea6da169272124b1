// P06: unbalanced returns (followReturnsPastSeeds): facts leave the functions they were seeded in
// towards every caller, and only then.
#include "idegen.h"
using namespace vf;
void vfInit(Ctx &) { initPhasarQuiet(); }
void vfRunCase(Ctx &C) {
  Rng R = C.rng(6);
  IdeCase IC = genIdeCase(R, true, 3 + C.Case % 4);
  C.Artifact = modStr(*IC.P.M);
  IC.Follow = C.Case % 5 != 0;
  // seeds may be anywhere in a function; the values of facts from seeds inside of functions are not specified
  bool Inside = C.Case % 3 == 1;
  if (Inside) {
    auto *F = IC.SeedMap.begin()->first->getFunction();
    std::vector<N> Is;
    for (auto &I : llvm::instructions(*F)) Is.push_back(&I);
    if (R.chance(1, 2)) IC.SeedMap.clear();
    for (unsigned K = 0, NS = 1 + R(3); K < NS; ++K) IC.SeedMap[R.pick(Is)][IC.Mo.FactV[R(IC.Mo.NF + 1)]] = BV{(uint8_t)R(16)};
    IC.Seeds.clear();
    for (auto &[Nd, Fs] : IC.SeedMap) {
      for (auto &[X, V] : Fs) IC.Seeds[Nd][IC.Mo.FactI[X]] = V;
      if (!IC.Seeds[Nd].count(0)) IC.Seeds[Nd][0] = BV::bot();
    }
    C.count("programs_seeded_inside");
  }
  auto Ref = refSolve(IC.Mo, *IC.P.M, IC.Callees, IC.Seeds, IC.Follow);
  auto Prob = mkProblem<RandIDE>(IC);
  psr::IDESolver Solver(*Prob, IC.ICF.get());
  auto Res = Solver.solve();
  uint64_t NFacts = 0, H = C.Seed, NonZero = 0, OutSide = 0;
  auto *SeedF = IC.SeedMap.begin()->first->getFunction();
  for (auto &F : *IC.P.M)
    for (auto &I : llvm::instructions(F)) {
      auto Got = Res.resultsAt(&I);
      auto It = Ref.Val.find(&I);
      for (unsigned X = 1; X < IC.Mo.FactV.size(); ++X) {
        bool RefHas = It != Ref.Val.end() && It->second.count(X);
        auto GI = Got.find(IC.Mo.FactV[X]);
        bool Has = GI != Got.end();
        ++NFacts;
        if (RefHas) { H = mixn(H, IC.Mo.Id[&I], X, It->second[X].V); NonZero += X != 0; OutSide += &F != SeedF; }
        if (RefHas != Has)
          C.violation(RefHas ? "fact-missing" : "fact-spurious", "in " + F.getName().str() + " at " + instStr(&I) + " fact " + std::to_string(X));
        else if (Has && !Inside && GI->second != It->second[X])
          C.violation("wrong-value", "in " + F.getName().str() + " at " + instStr(&I) + " fact " + std::to_string(X) + " expected " + str(It->second[X]) + " got " + str(GI->second));
      }
    }
  { // the IFDS view of the same problem
    auto P2 = mkProblem<RandIFDS>(IC);
    psr::IFDSSolver S2(*P2, IC.ICF.get());
    auto R2 = S2.solve();
    for (auto &F : *IC.P.M)
      for (auto &I : llvm::instructions(F)) {
        auto Got = R2.ifdsResultsAt(&I);
        auto It = Ref.Val.find(&I);
        for (unsigned X = 1; X < IC.Mo.FactV.size(); ++X) {
          bool RefHas = It != Ref.Val.end() && It->second.count(X);
          ++NFacts;
          if (RefHas != (Got.count(IC.Mo.FactV[X]) != 0))
            C.violation(RefHas ? "ifds-fact-missing" : "ifds-fact-spurious", "in " + F.getName().str() + " at " + instStr(&I) + " fact " + std::to_string(X));
        }
      }
  }
  C.Evaluations += NFacts;
  C.count("facts_holding", NonZero);
  C.count("facts_outside_the_seed_function", OutSide);
  C.count("unbalanced_returns", Ref.Unbalanced);
  C.count(IC.Follow ? "programs_following" : "programs_not_following");
  if (NonZero && (OutSide || !IC.Follow)) C.nontrivial(H);
  C.sample(progSummary(IC) + "; seed in " + SeedF->getName().str());
}
