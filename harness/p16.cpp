// P16: alias sets against executions, against the pairwise LLVM alias analysis, and as an equivalence relation under queries in any order, introduced aliases and merges.
#include "exec.h"
#include "irgen.h"
#include "llvm/IR/Dominators.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasInfo.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMBasedAliasAnalysis.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Pointer/AliasAnalysisType.h"
#include "phasar/Utils/Logger.h"
#include "llvm/Analysis/AliasAnalysis.h"
using namespace vf;
using Va = const llvm::Value *;
using AS = psr::LLVMAliasSet;
using Part = std::map<Va, std::set<Va>>;
void vfInit(Ctx &) { psr::Logger::disable(); }

static bool interesting(Va V) { return V->getType()->isPointerTy() && !llvm::isa<llvm::ConstantPointerNull>(V); }
static bool heapFn(const llvm::Function *F) { // the documented allocation functions
  static const std::set<std::string> S = {"_Znwm", "_Znam", "_ZnwPv", "malloc", "calloc", "realloc"};
  return F && S.count(F->getName().str());
}
static const llvm::Function *funOf(Va V) {
  if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) return I->getFunction();
  if (auto *A = llvm::dyn_cast<llvm::Argument>(V)) return A->getParent();
  return nullptr;
}
static std::string nm(Va V) {
  if (llvm::isa<llvm::Function>(V)) return "@" + V->getName().str();
  auto S = instStr(V).substr(0, 90);
  if (auto *F = funOf(V)) S = F->getName().str() + ": " + S;
  return S;
}

struct Obs : Observer {
  std::map<const llvm::Function *, std::unique_ptr<llvm::DominatorTree>> DT;
  std::set<std::pair<Va, Va>> Same; // pointers of one activation, both in scope, same address, one of them being accessed
  std::set<std::pair<Va, Va>> Site; // pointer and the local allocation its address is
  uint64_t Accesses = 0, FunPtrs = 0;
  void access(Exec &E, const llvm::Instruction *I, Va P) {
    auto A = E.get(P);
    if (A.Kind != PVal::Ptr || A.Obj < 0) return;
    ++Accesses;
    auto *F = I->getFunction();
    auto &D = DT[F];
    if (!D) D = std::make_unique<llvm::DominatorTree>(*const_cast<llvm::Function *>(F));
    if (!D->isReachableFromEntry(I->getParent())) return;
    auto cmp = [&](Va Q, const PVal &B) {
      if (Q != P && B.Kind == PVal::Ptr && B.Obj == A.Obj && B.Off == A.Off) Same.insert({P, Q});
    };
    if (auto *PI = llvm::dyn_cast<llvm::Instruction>(P); PI && !D->dominates(PI, I)) return;
    for (auto &[Q, B] : E.Stack.back().Regs) {
      if (!Q->getType()->isPointerTy()) continue;
      if (auto *QI = llvm::dyn_cast<llvm::Instruction>(Q); QI && !D->dominates(QI, I)) continue;
      cmp(Q, B);
      if (B.Kind == PVal::Ptr && B.Obj == A.Obj && B.Off == A.Off && B.Off == 0)
        if (auto *S = E.Mem[A.Obj].Site; S && llvm::isa<llvm::Instruction>(S) && funOf(S) == F && D->dominates(llvm::cast<llvm::Instruction>(S), I) && E.has(S)) {
          auto SV = E.get(S);
          if (SV.Kind == PVal::Ptr && SV.Obj == A.Obj) Site.insert({Q, S});
        }
    }
    if (A.Off == 0)
      if (auto *G = llvm::dyn_cast_or_null<llvm::GlobalVariable>(E.Mem[A.Obj].Site))
        if (P != G && used(F).count(G)) Same.insert({P, G});
  }
  // the globals and functions that are reachable from the operands of a function through initialisers
  std::map<const llvm::Function *, std::set<Va>> UsedC;
  const std::set<Va> &used(const llvm::Function *F) {
    auto [It, New] = UsedC.try_emplace(F);
    if (!New) return It->second;
    std::vector<Va> W;
    std::set<Va> Seen;
    for (auto &BB : *F)
      for (auto &I : BB) {
        auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
        for (auto &Op : I.operands())
          if (!CB || CB->isDataOperand(&Op)) if (llvm::isa<llvm::Constant>(Op)) W.push_back(Op);
      }
    while (!W.empty()) {
      Va V = W.back();
      W.pop_back();
      if (!Seen.insert(V).second) continue;
      if (llvm::isa<llvm::GlobalObject>(V)) It->second.insert(V);
      if (llvm::isa<llvm::Function>(V)) continue;
      if (auto *U = llvm::dyn_cast<llvm::User>(V)) for (auto &Op : U->operands()) W.push_back(Op);
    }
    return It->second;
  }
  void before(Exec &E, const llvm::Instruction *I) override {
    if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) access(E, I, L->getPointerOperand());
    if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I)) access(E, I, S->getPointerOperand());
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(I); CB && !CB->getCalledFunction()) {
      auto A = E.get(CB->getCalledOperand());
      if (A.Kind == PVal::Fun && llvm::isa<llvm::Instruction>(CB->getCalledOperand()) && used(I->getFunction()).count(A.F)) { ++FunPtrs; Same.insert({CB->getCalledOperand(), A.F}); }
    }
  }
  PVal external(Exec &E, const llvm::CallBase *CS, const llvm::Function *F, std::vector<PVal> &A) override {
    PVal R;
    if (heapFn(F)) { R.Kind = PVal::Ptr; R.Obj = E.newObj(CS); return R; }
    if (CS->getType()->isPointerTy() && !A.empty())
      for (auto &X : A) if (X.Kind == PVal::Ptr) return X;
    R.Kind = CS->getType()->isIntegerTy() ? PVal::Int : PVal::Undef;
    return R;
  }
};

static Part partition(AS &S, const std::vector<Va> &Vs) {
  Part P;
  for (auto *V : Vs) { auto X = S.getAliasSet(V); P[V] = {X->begin(), X->end()}; }
  return P;
}
// twice: globals may join sets computed earlier
static Part settle(AS &S, const std::vector<Va> &Vs) { partition(S, Vs); return partition(S, Vs); }

// constant tables of functions and of pointers to globals, possibly behind another global, and uses of their elements
static void addTables(Rng &R, IrMod &Mod) {
  auto &M = *Mod.M;
  auto &LC = M.getContext();
  auto *I32 = llvm::Type::getInt32Ty(LC);
  auto *I64 = llvm::Type::getInt64Ty(LC);
  auto *FT = llvm::FunctionType::get(llvm::Type::getVoidTy(LC), false);
  std::vector<llvm::Constant *> Fs, Gs;
  for (unsigned I = 0, N = 1 + R(3); I < N; ++I) {
    auto *F = llvm::Function::Create(FT, llvm::GlobalValue::InternalLinkage, "tabfun" + std::to_string(I), M);
    llvm::ReturnInst::Create(LC, llvm::BasicBlock::Create(LC, "", F));
    Fs.push_back(F);
    Gs.push_back(new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage, llvm::ConstantInt::get(I32, I), "tabglob" + std::to_string(I)));
  }
  auto table = [&](std::vector<llvm::Constant *> E, const char *N) {
    auto *T = llvm::ArrayType::get(E[0]->getType(), E.size());
    return new llvm::GlobalVariable(M, T, R.chance(2, 3), llvm::GlobalValue::InternalLinkage, llvm::ConstantArray::get(T, E), N);
  };
  auto *TF = table(Fs, "funtab"), *TG = table(Gs, "globtab");
  auto *PF = new llvm::GlobalVariable(M, TF->getType(), R.chance(1, 2), llvm::GlobalValue::InternalLinkage, TF, "funtabptr");
  for (auto *F : Mod.Funs) {
    if (F->isDeclaration() || !R.chance(1, 2)) continue;
    auto *BB = &*std::next(F->begin(), R(F->size()));
    llvm::IRBuilder<> B(BB->getTerminator());
    if (!BB->getTerminator() || llvm::isa<llvm::UnreachableInst>(BB->getTerminator())) continue;
    if (R.chance(2, 3)) {
      llvm::Value *Tab = R.chance(1, 3) ? (llvm::Value *)B.CreateLoad(TF->getType(), PF) : TF;
      auto *E = B.CreateInBoundsGEP(TF->getValueType(), Tab, {llvm::ConstantInt::get(I64, 0), llvm::ConstantInt::get(I64, R(Fs.size()))});
      B.CreateCall(FT, B.CreateLoad(Fs[0]->getType(), E));
    }
    if (R.chance(2, 3)) {
      auto *E = B.CreateInBoundsGEP(TG->getValueType(), TG, {llvm::ConstantInt::get(I64, 0), llvm::ConstantInt::get(I64, R(Gs.size()))});
      B.CreateStore(B.CreateLoad(I32, B.CreateLoad(Gs[0]->getType(), E)), Gs[R(Gs.size())]);
    }
  }
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(16);
  IrOpts O;
  O.MaxBlocks = 1 + C.Case % 5;
  O.MaxFuns = 1 + C.Case % 4;
  O.MaxInsts = 9;
  O.Unreach = C.Case % 4 == 0;
  O.Dbg = C.Case % 4 == 1;
  O.InitAll = C.Case % 5 != 0;
  auto Mod = genIr(R, O);
  auto &M = *Mod.M;
  if (C.Case % 2) addTables(R, Mod);
  C.Artifact = modStr(M);
  if (C.Case % 16 == 0) C.note();
  std::vector<Va> Vs, Globs;
  std::set<Va> VSet;
  auto add = [&](Va V) { if (interesting(V) && VSet.insert(V).second) Vs.push_back(V); };
  for (auto &G : M.globals()) { add(&G); Globs.push_back(&G); }
  for (auto &F : M) { add(&F); if (!F.isDeclaration()) for (auto &A : F.args()) add(&A); for (auto &BB : F) for (auto &I : BB) add(&I); }
  auto bad = [&](const std::string &K, const std::string &D) { C.violation(K, D); };
  uint64_t H = C.Seed;
  psr::AliasAnalysisType Ty[] = {psr::AliasAnalysisType::CFLAnders, psr::AliasAnalysisType::CFLSteens, psr::AliasAnalysisType::Basic};
  const char *TN[] = {"CFLAnders", "CFLSteens", "Basic"};
  int T = C.Case % 3;
  auto shuffle = [&](std::vector<Va> V) { for (size_t I = V.size(); I > 1; --I) std::swap(V[I - 1], V[R(I)]); return V; };
  std::string Pre = std::string(TN[T]) + ":";

  psr::LLVMProjectIRDB DB(&M, true);
  AS Eager(&DB, false, Ty[T]);
  if (Eager.getAliasAnalysisType() != Ty[T]) bad(Pre + "analysis-type", "");
  if (Eager.isInterProcedural()) bad(Pre + "interprocedural", "");
  // queries through the type-erased view
  psr::LLVMAliasInfoRef Ref = &Eager;
  Part PE = settle(Eager, Vs);

  // 1. equivalence relation, sets and pairwise answers agree
  for (auto *V : Vs) {
    auto &S = PE[V];
    ++C.Evaluations;
    if (!S.count(V)) bad(Pre + "self-missing", nm(V));
    for (auto *W : S) {
      if (!interesting(W)) bad(Pre + "non-pointer-member", nm(W));
      auto It = PE.find(W);
      if (It != PE.end() && It->second != S) { bad(Pre + "sets-differ", nm(V) + " | " + nm(W)); }
    }
    H = mixn(H, S.size());
  }
  for (unsigned K = 0; K < 300 && Vs.size() > 1; ++K) {
    auto *V = Vs[R(Vs.size())], *W = Vs[R(Vs.size())];
    auto A = Ref.alias(V, W), B = Ref.alias(W, V);
    bool In = PE[V].count(W);
    if (A != B) bad(Pre + "asymmetric", nm(V) + " | " + nm(W));
    if ((A != psr::AliasResult::NoAlias) != In) bad(Pre + "alias-vs-set", nm(V) + " | " + nm(W));
    auto X = Ref.getAliasSet(V, llvm::dyn_cast<llvm::Instruction>(W));
    if (std::set<Va>(X->begin(), X->end()) != PE[V]) bad(Pre + "set-at-instruction", nm(V));
  }
  { // non-pointers and null alias nothing
    for (auto &F : M)
      for (auto &BB : F)
        for (auto &I : BB)
          if (!I.getType()->isPointerTy() && R.chance(1, 20)) {
            if (!Eager.getAliasSet(&I)->empty() || Eager.alias(&I, Vs[0]) != psr::AliasResult::NoAlias || !Eager.getReachableAllocationSites(&I)->empty()) bad(Pre + "non-pointer", nm(&I));
          }
    auto *N = llvm::ConstantPointerNull::get(llvm::Type::getInt32PtrTy(M.getContext()));
    if (!Eager.getAliasSet(N)->empty() || Eager.alias(N, Vs[0]) != psr::AliasResult::NoAlias || Eager.alias(N, N) != psr::AliasResult::NoAlias) bad(Pre + "null", "");
  }

  // 2. lazy evaluation, in any order of queries, ends in the same sets
  {
    AS Lazy(&DB, true, Ty[T]);
    for (auto *V : shuffle(Vs)) {
      if (R.chance(1, 3)) (void)Lazy.alias(V, Vs[R(Vs.size())]);
      else if (R.chance(1, 3)) (void)Lazy.getReachableAllocationSites(V, R.chance(1, 2));
      else (void)Lazy.getAliasSet(V);
    }
    Part PL = settle(Lazy, Vs);
    for (auto *V : Vs)
      if (PL[V] != PE[V]) {
        std::string D;
        for (auto *X : PE[V]) if (!PL[V].count(X)) D += " eager only: " + nm(X);
        for (auto *X : PL[V]) if (!PE[V].count(X)) D += " lazy only: " + nm(X);
        bad(Pre + "lazy-differs", nm(V) + D);
        break;
      }
    C.count("lazy_orders");
  }

  // 3. every pair the underlying LLVM alias analysis may alias is in one set
  {
    psr::LLVMBasedAliasAnalysis AA(DB, true, Ty[T]);
    auto &DL = M.getDataLayout();
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      auto *Res = AA.getAAResults(&F);
      std::vector<Va> Ps;
      for (auto &A : F.args()) if (interesting(&A)) Ps.push_back(&A);
      for (auto &BB : F) for (auto &I : BB) if (interesting(&I)) Ps.push_back(&I);
      for (auto &BB : F) for (auto &I : BB) for (auto &Op : I.operands()) if (llvm::isa<llvm::GlobalVariable>(Op)) Ps.push_back(Op);
      auto sz = [&](Va V) { auto *E = V->getType()->getNonOpaquePointerElementType(); return E->isSized() ? llvm::LocationSize::precise(DL.getTypeStoreSize(E)) : llvm::LocationSize::beforeOrAfterPointer(); };
      for (auto *P : Ps)
        for (auto *Q : Ps) {
          if (P == Q || (Ps.size() > 40 && R.chance(1, 2))) continue;
          ++C.Evaluations;
          if (Res->alias(P, sz(P), Q, sz(Q)) != llvm::AliasResult::NoAlias && !PE[P].count(Q)) { bad(Pre + "may-alias-missing", nm(P) + " | " + nm(Q)); }
          C.count("pairs");
        }
    }
  }

  // 4. executions
  Obs Ob;
  auto *GC = M.getFunction("_GLOBAL__sub_I_gen");
  Rng RR = C.rng(99);
  for (int K = 0; K < 25; ++K) {
    Exec E(M, Ob, [&](unsigned N) { return (unsigned)RR(N); });
    E.MaxSteps = 700;
    if (GC) E.run(GC, {});
    if (!E.Stopped) E.run(M.getFunction("main"), {});
    C.count("executions");
    C.count("stop_" + (E.Stopped ? E.Why : "none"));
  }
  C.count("accesses", Ob.Accesses);
  C.count("called_function_pointers", Ob.FunPtrs);
  C.count("same_address_pairs", Ob.Same.size());
  C.count("allocation_sites_observed", Ob.Site.size());
  for (auto &[P, Q] : Ob.Same) {
    if (llvm::isa<llvm::Constant>(P) && !llvm::isa<llvm::GlobalObject>(P)) continue;
    auto S = PE.count(P) ? PE[P] : std::set<Va>{};
    ++C.Evaluations;
    if (!S.count(Q)) bad(Pre + "same-address", nm(P) + " | " + nm(Q));
  }

  // 5. allocation sites
  auto sites = [&](const std::set<Va> &S, Va V, bool Intra) {
    std::set<Va> W;
    auto *F = funOf(V);
    bool G = llvm::isa<llvm::GlobalObject>(V);
    if (llvm::isa<llvm::Function>(V)) F = nullptr;
    for (auto *P : S) {
      auto *CB = llvm::dyn_cast<llvm::CallBase>(P);
      bool Al = llvm::isa<llvm::AllocaInst>(P) || (CB && heapFn(CB->getCalledFunction()));
      if (Al && (!Intra || G || funOf(P) == F)) W.insert(P);
      if (Intra && llvm::isa<llvm::Argument>(P) && funOf(P) == F && F) W.insert(P);
    }
    return W;
  };
  for (auto *V : Vs)
    for (bool Intra : {false, true}) {
      if (llvm::isa<llvm::Function>(V) && Intra) continue;
      auto X = Ref.getReachableAllocationSites(V, Intra);
      std::set<Va> Got(X->begin(), X->end()), Want = sites(PE[V], V, Intra);
      if (Got != Want) bad(Pre + (Intra ? "allocation-sites-intra" : "allocation-sites"), nm(V) + ": " + std::to_string(Got.size()) + " expected " + std::to_string(Want.size()));
      for (auto *W : PE[V])
        if (Ref.isInReachableAllocationSites(V, W, Intra) != (Want.count(W) != 0)) bad(Pre + "is-in-allocation-sites", nm(V) + " | " + nm(W));
      auto *W = Vs[R(Vs.size())];
      if (!PE[V].count(W) && Ref.isInReachableAllocationSites(V, W, Intra)) bad(Pre + "is-in-allocation-sites", nm(V) + " | " + nm(W));
      ++C.Evaluations;
    }
  for (auto &[P, S] : Ob.Site)
    if (!Eager.isInReachableAllocationSites(P, S, true)) bad(Pre + "site-missing", nm(P) + " | " + nm(S));

  // 6. introduced aliases merge exactly the two sets; sets handed out before stay valid and follow
  Part Cur = PE;
  auto join = [](Part &P, Va V, Va W) {
    auto S = P[V];
    S.insert(P[W].begin(), P[W].end());
    for (auto *X : S) P[X] = S;
  };
  auto same = [&](AS &S, Part &P, const char *K) {
    for (auto *V : Vs) {
      auto X = S.getAliasSet(V);
      if (std::set<Va>(X->begin(), X->end()) != P[V]) {
        std::string D;
        for (auto *Y : *X) if (!P[V].count(Y)) D += " unexpected: " + nm(Y);
        std::set<Va> G(X->begin(), X->end());
        for (auto *Y : P[V]) if (!G.count(Y)) D += " missing: " + nm(Y);
        bad(Pre + K, nm(V) + D.substr(0, 600));
        return;
      }
    }
    ++C.Evaluations;
  };
  std::vector<std::pair<Va, AS::AliasSetPtrTy>> Handles;
  for (unsigned K = 0; K < 6; ++K) { auto *V = Vs[R(Vs.size())]; Handles.push_back({V, Eager.getAliasSet(V)}); }
  auto intro = [&](AS &S, Part &P, unsigned N) {
    for (unsigned K = 0; K < N; ++K) {
      auto *V = Vs[R(Vs.size())], *W = Vs[R(Vs.size())];
      S.introduceAlias(V, W, nullptr, K % 2 ? psr::AliasResult::MayAlias : psr::AliasResult::MustAlias);
      join(P, V, W);
      if (S.alias(V, W) == psr::AliasResult::NoAlias) bad(Pre + "introduced-not-aliased", nm(V) + " | " + nm(W));
    }
  };
  AS Second(&DB, R.chance(1, 2), Ty[T]);
  Part PS = settle(Second, Vs);
  intro(Eager, Cur, 1 + R(8));
  same(Eager, Cur, "introduce");
  for (auto &[V, Hd] : Handles)
    if (std::set<Va>(Hd->begin(), Hd->end()) != Cur[V]) bad(Pre + "handle-stale", nm(V));
  // 7. merging two results gives the finest relation that contains both
  intro(Second, PS, 1 + R(8));
  same(Second, PS, "introduce");
  for (auto &[V, S] : PS) for (auto *W : S) if (VSet.count(W) && VSet.count(V)) join(Cur, V, W);
  if (R.chance(1, 2)) Eager.mergeWith(Second);
  else { psr::LLVMAliasInfoRef R2 = &Second; Ref.mergeWith(R2); }
  same(Eager, Cur, "merge");
  same(Second, PS, "merge-source-changed");
  for (auto &[V, Hd] : Handles)
    if (std::set<Va>(Hd->begin(), Hd->end()) != Cur[V]) bad(Pre + "handle-stale-after-merge", nm(V));
  intro(Eager, Cur, 1 + R(4));
  same(Eager, Cur, "introduce-after-merge");
  if (R.chance(1, 3)) { // merge into a result that has not computed anything for most functions
    AS Lz(&DB, true, Ty[T]);
    Lz.mergeWith(Second);
    settle(Lz, Vs);
    Part PL = PE;
    for (auto &[V, S] : PS) for (auto *W : S) if (VSet.count(W) && VSet.count(V)) join(PL, V, W);
    same(Lz, PL, "merge-into-lazy");
  }
  // 8. while an OTF call graph is built, the pointers exchanged over each call edge become aliases
  if (T == 0) {
    AS Otf(&DB, true);
    psr::LLVMTypeHierarchy TH(DB);
    psr::LLVMBasedICFG ICF(&DB, psr::CallGraphAnalysisType::OTF, {"main"}, &TH, &Otf, psr::Soundness::Soundy, false);
    for (auto *F : ICF.getAllVertexFunctions())
      for (auto *CS : ICF.getCallersOf(F)) {
        if (F->isDeclaration()) continue;
        auto *CB = llvm::cast<llvm::CallBase>(CS);
        for (unsigned I = 0; I < CB->arg_size() && I < F->arg_size(); ++I) {
          if (!interesting(CB->getArgOperand(I)) || !interesting(F->getArg(I))) continue;
          C.count("call_edge_pointers");
          if (Otf.alias(CB->getArgOperand(I), F->getArg(I)) == psr::AliasResult::NoAlias) bad("otf:argument", nm(CS) + " -> " + F->getName().str());
        }
        if (CB->getType()->isPointerTy())
          for (auto &BB : *F)
            if (auto *Rt = llvm::dyn_cast<llvm::ReturnInst>(BB.getTerminator()))
              if (interesting(Rt->getReturnValue()) && Otf.alias(CS, Rt->getReturnValue()) == psr::AliasResult::NoAlias) bad("otf:return", nm(CS) + " -> " + F->getName().str());
      }
  }
  size_t NT = 0;
  for (auto &[V, S] : PE) NT += S.size() > 1;
  if (NT > 2 && Ob.Same.size() > 2) C.nontrivial(H);
  C.sample(std::to_string(Vs.size()) + " pointers, " + std::to_string(NT) + " in proper alias sets, " + std::to_string(Ob.Same.size()) + " same-address pairs observed");
}
