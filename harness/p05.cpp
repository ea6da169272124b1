// P05: the flow-function building blocks compute the documented sets.
#include "common.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Verifier.h"
#include <unordered_set>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
using namespace vf;

template <typename T> static std::string show(const std::set<T> &S) {
  std::string R = "{";
  for (auto &X : S) { if constexpr (std::is_same_v<T, int>) R += std::to_string(X) + " "; else R += X.substr(X.size() > 3 ? X.size() - 3 : 0) + " "; }
  return R + "}";
}

template <typename D, typename Cont> struct Tpl : psr::FlowFunctionTemplates<D, Cont> {
  using B = psr::FlowFunctionTemplates<D, Cont>;
};

// The reference: a function from facts to sets.
template <typename D> using Ref = std::function<std::set<D>(const D &)>;

template <typename D, typename Cont> static void templates(Ctx &C, Rng &R, const std::vector<D> &U, const char *Nm) {
  using F = psr::FlowFunction<D, Cont>;
  using FP = std::shared_ptr<F>;
  using T = psr::FlowFunctionTemplates<D, Cont>;
  struct E { FP Fn; Ref<D> Rf; std::string How; };
  std::vector<E> Es;
  auto pick = [&] { return U[R(U.size())]; };
  auto pickSet = [&] { std::set<D> S; for (unsigned N = R(4); N--;) S.insert(pick()); return S; };
  auto idx = [&](const D &X) { return std::find(U.begin(), U.end(), X) - U.begin(); };
  for (int I = 0; I < 22; ++I) {
    D G = pick(), W = pick();
    std::set<D> S = pickSet();
    Cont SC(S.begin(), S.end());
    unsigned Msk = R(1u << U.size());
    auto Pred = [idx, Msk](const D &X) -> bool { return (Msk >> idx(X)) & 1; };
    // The pred must not dangle; U outlives the functions.
    Ref<D> Id = [](const D &X) { return std::set<D>{X}; };
    switch (I) {
    case 0: Es.push_back({T::identityFlow(), Id, "identityFlow"}); break;
    case 1: Es.push_back({T::generateFlow(G, W), [=](const D &X) { return X == W ? std::set<D>{X, G} : std::set<D>{X}; }, "generateFlow"}); break;
    case 2: Es.push_back({T::generateFlowIf(G, Pred), [=](const D &X) { return Pred(X) ? std::set<D>{X, G} : std::set<D>{X}; }, "generateFlowIf"}); break;
    case 3: { // by range type
      FP P;
      if (R.chance(1, 3)) P = T::generateManyFlows(SC, W);
      else if (R.chance(1, 2)) P = T::generateManyFlows(std::vector<D>(S.begin(), S.end()), W);
      else { S = {G, W}; P = T::generateManyFlows({G, W}, W); }
      Es.push_back({P, [=](const D &X) { auto Q = X == W ? S : std::set<D>{}; Q.insert(X); return Q; }, "generateManyFlows"}); break;
    }
    case 4: Es.push_back({T::killFlow(G), [=](const D &X) { return X == G ? std::set<D>{} : std::set<D>{X}; }, "killFlow"}); break;
    case 5: Es.push_back({T::killFlowIf(Pred), [=](const D &X) { return Pred(X) ? std::set<D>{} : std::set<D>{X}; }, "killFlowIf"}); break;
    case 6: {
      FP P;
      if (R.chance(1, 2)) P = T::killManyFlows(SC); else P = T::killManyFlows(std::vector<D>(S.begin(), S.end()));
      Es.push_back({P, [=](const D &X) { return S.count(X) ? std::set<D>{} : std::set<D>{X}; }, "killManyFlows"}); break;
    }
    case 7: Es.push_back({T::killAllFlows(), [](const D &) { return std::set<D>{}; }, "killAllFlows"}); break;
    case 8: Es.push_back({T::generateFlowAndKillAllOthers(G, W), [=](const D &X) { return X == W ? std::set<D>{X, G} : std::set<D>{}; }, "generateFlowAndKillAllOthers"}); break;
    case 9: {
      FP P;
      if (R.chance(1, 2)) P = T::generateManyFlowsAndKillAllOthers(SC, W); else P = T::generateManyFlowsAndKillAllOthers(std::vector<D>(S.begin(), S.end()), W);
      Es.push_back({P, [=](const D &X) { auto Q = X == W ? S : std::set<D>{}; if (X == W) Q.insert(X); return Q; }, "generateManyFlowsAndKillAllOthers"}); break;
    }
    case 10: Es.push_back({T::transferFlow(G, W), [=](const D &X) { return X == W ? std::set<D>{X, G} : X == G ? std::set<D>{} : std::set<D>{X}; }, "transferFlow"}); break;
    case 11: {
      auto L = [=](D X) { Cont Q; if (Pred(X)) Q.insert(X); Q.insert(S.begin(), S.end()); return Q; };
      Es.push_back({T::lambdaFlow(L), [=](const D &X) { auto Q = S; if (Pred(X)) Q.insert(X); return Q; }, "lambdaFlow"}); break;
    }
    case 12: case 13: {
      Tpl<D, Cont> O;
      auto A = Es[R(Es.size())], B = Es[R(Es.size())];
      FP PA = A.Fn, PB = B.Fn;
      FP Un = O.template unionFlows<F, F>(PA, PB);
      Es.push_back({Un, [A, B](const D &X) { auto Q = A.Rf(X); auto Q2 = B.Rf(X); Q.insert(Q2.begin(), Q2.end()); return Q; }, "unionFlows(" + A.How + "," + B.How + ")"}); break;
    }
    case 14: { auto A = Es[R(Es.size())];
      Es.push_back({std::make_shared<psr::ZeroedFlowFunction<D, Cont>>(A.Fn, W), [A, W](const D &X) { auto Q = A.Rf(X); if (X == W) Q.insert(W); return Q; }, "Zeroed(" + A.How + ")"}); break; }
    // the legacy classes
    case 15: { auto A = Es[R(Es.size())], B = Es[R(Es.size())], Z = Es[R(Es.size())];
      std::vector<FP> V{A.Fn, B.Fn, Z.Fn};
      bool Raw = R.chance(1, 2);
      FP P = Raw ? FP(std::make_shared<psr::Compose<D, Cont>>(V)) : psr::Compose<D, Cont>::compose(V);
      Es.push_back({P, [A, B, Z](const D &X) { std::set<D> Q, Q2; for (auto &Y : A.Rf(X)) for (auto &W : B.Rf(Y)) Q.insert(W); for (auto &Y : Q) for (auto &W : Z.Rf(Y)) Q2.insert(W); return Q2; }, "Compose(" + A.How + "," + B.How + "," + Z.How + ")"}); break; }
    case 16: { auto A = Es[R(Es.size())], B = Es[R(Es.size())];
      std::vector<FP> V{A.Fn, B.Fn};
      Es.push_back({std::make_shared<psr::Union<D, Cont>>(V), [A, B](const D &X) { auto Q = A.Rf(X); auto Q2 = B.Rf(X); Q.insert(Q2.begin(), Q2.end()); return Q; }, "Union"}); break; }
    case 17: Es.push_back({std::make_shared<psr::Gen<D, Cont>>(G, W), [=](const D &X) { return X == W ? std::set<D>{X, G} : std::set<D>{X}; }, "Gen"}); break;
    case 18: Es.push_back({std::make_shared<psr::GenIf<D, Cont>>(SC, Pred), [=](const D &X) { auto Q = Pred(X) ? S : std::set<D>{}; Q.insert(X); return Q; }, "GenIf"}); break;
    case 19: Es.push_back({std::make_shared<psr::GenAll<D, Cont>>(SC, W), [=](const D &X) { auto Q = X == W ? S : std::set<D>{}; Q.insert(X); return Q; }, "GenAll"}); break;
    case 20: Es.push_back({std::make_shared<psr::GenAllAndKillAllOthers<D, Cont>>(SC, W), [=](const D &X) { if (X != W) return std::set<D>{}; auto Q = S; Q.insert(X); return Q; }, "GenAllAndKillAllOthers"}); break;
    case 21: Es.push_back({std::make_shared<psr::Transfer<D, Cont>>(G, W), [=](const D &X) { return X == W ? std::set<D>{X, G} : X == G ? std::set<D>{} : std::set<D>{X}; }, "Transfer"}); break;
    }
  }
  uint64_t H = 0;
  for (int Round = 0; Round < 2; ++Round) // flow functions have no memory: every application gives the same
    for (auto &X : Es)
      for (unsigned K = 0; K < U.size(); ++K) {
        const D &In = U[R.chance(1, 2) ? K : R(U.size())];
        auto Got = X.Fn->computeTargets(In);
        std::set<D> GS(Got.begin(), Got.end());
        auto Exp = X.Rf(In);
        C.count("applications");
        if (Exp.size() > 1) C.count("generating_applications");
        if (Exp.empty()) C.count("killing_applications");
        H = mixn(H, Exp.size(), idx(In));
        if (GS != Exp || Got.size() != Exp.size())
          C.violation("flow:" + X.How.substr(0, X.How.find('(')), std::string(Nm) + " " + X.How + " on " + show(std::set<D>{In}) + " gives " + show(GS) + " expected " + show(Exp));
      }
  C.nontrivial(H);
}

// ------------------------------------------------------------------ LLVM mappers
using D = const llvm::Value *;
using VS = std::set<D>;
static void mappers(Ctx &C, Rng &R) {
  llvm::LLVMContext LC;
  llvm::Module M("m", LC);
  llvm::IRBuilder<> B(LC);
  auto *I32 = B.getInt32Ty();
  auto *P32 = I32->getPointerTo();
  auto *I8P = B.getInt8PtrTy();
  auto *STy = llvm::StructType::create(LC, {I32, I32}, "struct.S");
  auto *VaTag = llvm::StructType::create(LC, {I32, I32, I8P, I8P}, "struct.__va_list_tag");
  auto *VaArr = llvm::ArrayType::get(VaTag, 1);
  bool SRet = R.chance(1, 3), Var = R.chance(1, 2), Decl = R.chance(1, 6);
  unsigned NP = R(4), NVar = Var ? R(4) : 0;
  std::vector<llvm::Type *> PT;
  if (SRet) PT.push_back(STy->getPointerTo());
  for (unsigned I = 0; I < NP; ++I) PT.push_back(R.chance(1, 2) ? (llvm::Type *)P32 : I32);
  bool Void = SRet || R.chance(1, 4);
  auto *Callee = llvm::Function::Create(llvm::FunctionType::get(Void ? B.getVoidTy() : (llvm::Type *)P32, PT, Var), llvm::GlobalValue::ExternalLinkage, "callee", M);
  if (SRet) Callee->addParamAttr(0, llvm::Attribute::getWithStructRetType(LC, STy));
  auto *G1 = new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage, B.getInt32(0), "g1");
  auto *G2 = new llvm::GlobalVariable(M, STy, false, llvm::GlobalValue::InternalLinkage, llvm::ConstantAggregateZero::get(STy), "g2");
  auto *GE = llvm::ConstantExpr::getInBoundsGetElementPtr(STy, G2, llvm::ArrayRef<llvm::Constant *>{B.getInt32(0), B.getInt32(1)});
  auto *Caller = llvm::Function::Create(llvm::FunctionType::get(B.getVoidTy(), {P32, I32}, false), llvm::GlobalValue::ExternalLinkage, "caller", M);
  B.SetInsertPoint(llvm::BasicBlock::Create(LC, "e", Caller));
  auto *A1 = B.CreateAlloca(I32), *A2 = B.CreateAlloca(I32), *AS = B.CreateAlloca(STy);
  auto *L1 = B.CreateLoad(I32, A1), *L2 = B.CreateLoad(I32, A2);
  std::vector<llvm::Value *> Ptrs{A1, A2, Caller->getArg(0), G1, GE}, Ints{L1, L2, Caller->getArg(1), B.getInt32(5)}, Args;
  for (auto *T : PT) Args.push_back(T == I32 ? R.pick(Ints) : T == P32 ? R.pick(Ptrs) : AS);
  for (unsigned I = 0; I < NVar; ++I) Args.push_back(R.chance(1, 2) ? R.pick(Ptrs) : R.pick(Ints));
  bool Ind = R.chance(1, 3); // through a pointer
  llvm::Value *Fp = Callee;
  if (Ind) { auto *Sl = B.CreateAlloca(Callee->getType()); B.CreateStore(Callee, Sl); Fp = B.CreateLoad(Callee->getType(), Sl); }
  llvm::CallBase *CS = B.CreateCall(Callee->getFunctionType(), Fp, Args);
  if (SRet && R.chance(2, 3)) CS->addParamAttr(0, llvm::Attribute::getWithStructRetType(LC, STy));
  B.CreateRetVoid();
  std::vector<llvm::Value *> VaAllocas;
  llvm::Instruction *Exit = nullptr;
  llvm::Value *RV = nullptr;
  std::vector<D> Inside;
  std::vector<llvm::StoreInst *> Stores;
  if (!Decl) {
    B.SetInsertPoint(llvm::BasicBlock::Create(LC, "e", Callee));
    for (unsigned I = 0, N = Var ? R(3) : 0; I < N; ++I) VaAllocas.push_back(B.CreateAlloca(VaArr));
    auto *X = B.CreateAlloca(I32);
    auto *Y = B.CreateAlloca(STy);
    auto *Bc = B.CreateBitCast(Y, P32);
    auto *Gp = B.CreateConstInBoundsGEP2_32(STy, Y, 0, 0);
    auto *Gp1 = B.CreateConstInBoundsGEP2_32(STy, Y, 0, 1);
    auto *Ld = B.CreateLoad(I32, X);
    Inside = {X, Y, Bc, Gp, Gp1, Ld};
    for (auto *P : std::vector<llvm::Value *>{X, Bc, Gp, Gp1, G1}) Stores.push_back(B.CreateStore(Ld, P));
    for (unsigned I = R(3); I--;) { // no va_lists
      llvm::Type *El[] = {STy, I32, llvm::StructType::get(LC, {I32, I8P}), VaTag};
      unsigned K = R(4);
      Inside.push_back(B.CreateAlloca(llvm::ArrayType::get(El[K], K == 3 ? 0 : 1 + R(2))));
      C.count("array_decoys");
    }
    for (unsigned I = 0, N = Var && R.chance(1, 2) ? 1 + R(2) : 0; I < N; ++I) { // va_lists outside the entry block
      auto *Nx = llvm::BasicBlock::Create(LC, "", Callee);
      B.CreateBr(Nx);
      B.SetInsertPoint(Nx);
      if (R.chance(2, 3)) VaAllocas.push_back(B.CreateAlloca(VaArr));
    }
    std::vector<llvm::Value *> RVs{X, Bc, G1};
    for (auto &A : Callee->args()) if (A.getType() == P32) RVs.push_back(&A);
    if (Void) Exit = B.CreateRetVoid();
    else { RV = R.pick(RVs); Exit = B.CreateRet(RV); }
  }
  C.Artifact = modStr(M);
  D Zero = psr::LLVMZeroValue::getInstance();
  std::vector<D> U{Zero, G1, GE, G2, A1, A2, AS, L1, L2, B.getInt32(5), CS};
  for (auto &A : Callee->args()) U.push_back(&A);
  for (auto &A : Caller->args()) U.push_back(&A);
  for (auto *V : Inside) U.push_back(V);
  for (auto *V : VaAllocas) U.push_back(V);
  std::map<D, unsigned> Ix;
  for (unsigned I = 0; I < U.size(); ++I) Ix[U[I]] = I;
  auto nm = [&](const VS &S) { std::string Q; for (auto *V : S) Q += (V == Zero ? "ZERO" : instStr(V)) + "; "; return Q; };
  uint64_t H = 0;
  auto Cmp = [&](const char *Key, psr::FlowFunction<D> &F, const std::function<VS(D)> &Rf) {
    for (auto *S : U) {
      auto Got = F.computeTargets(S);
      auto Exp = Rf(S);
      C.count("mapper_applications");
      if (!Exp.empty() && Exp != VS{S}) C.count("mapper_mappings");
      H = mixn(H, Ix[S], Exp.size());
      if (Got != Exp) C.violation(Key, "on " + nm({S}) + " gives [" + nm(Got) + "] expected [" + nm(Exp) + "]; call " + instStr(CS));
    }
  };
  auto isConst = [&](D V) { return V != Zero && llvm::isa<llvm::Constant>(V); };
  uint64_t Salt = R.next();
  bool Glob = R.chance(1, 2), PZ = R.chance(1, 2);
  auto RndArg = [&](D V) { return mixn(Salt, Ix.count(V) ? Ix[V] : 99) & 1; };
  auto RndRel = [&](D V, D S) -> bool { return mixn(Salt, Ix.count(V) ? Ix[V] : 99, Ix.count(S) ? Ix[S] : 98) % 3 == 0; };
  bool Perm = R.chance(1, 2); // facts other than the values themselves
  unsigned Stp = 1 + R(U.size() - 1);
  auto FC = [&](D V) -> D { auto It = Ix.find(V); return !Perm || It == Ix.end() || V == Zero ? V : U[(It->second + Stp) % U.size()]; };
  auto FCs = [&](std::initializer_list<D> L) { VS Q; for (auto *V : L) Q.insert(FC(V)); return Q; };
  { // call-to-return
    auto F1 = psr::mapFactsAlongsideCallSite<>(CS, RndArg, Glob, FC);
    Cmp("alongside", *F1, [&](D S) -> VS {
      if (S == Zero) return {S};
      if (isConst(S)) return Glob ? VS{S} : VS{};
      if (llvm::is_contained(Args, S)) return RndArg(S) ? FCs({S}) : VS{};
      return {S};
    });
    auto F2 = psr::mapFactsAlongsideCallSite<>(CS);
    Cmp("alongside-default", *F2, [&](D S) -> VS { return {S}; });
  }
  auto IdC = [](D V) { return V; };
  auto CalleeRef = [&](D S, const std::function<bool(D, D)> &Rel, bool Gl, bool Z, const std::function<D(D)> &FC) -> VS {
    if (Decl) return {};
    VS Q;
    if (S == Zero ? Z : (Gl && isConst(S))) Q.insert(S);
    for (unsigned I = SRet; I < PT.size(); ++I) if (Rel(Args[I], S)) Q.insert(FC(Callee->getArg(I)));
    bool VarHit = false;
    for (unsigned I = PT.size(); I < Args.size(); ++I) VarHit |= Rel(Args[I], S);
    if (VarHit) for (auto *V : VaAllocas) Q.insert(FC(V));
    return Q;
  };
  auto Eq = [](D A, D B) { return A == B; };
  {
    auto F1 = psr::mapFactsToCallee<D>(CS, Callee, RndRel, FC, Glob, PZ);
    Cmp("to-callee", *F1, [&](D S) { return CalleeRef(S, RndRel, Glob, PZ, FC); });
    auto F2 = psr::mapFactsToCallee<>(CS, Callee);
    Cmp("to-callee-default", *F2, [&](D S) { return CalleeRef(S, Eq, true, true, IdC); });
  }
  if (!Decl) {
    auto RetRef = [&](D S, const std::function<bool(D, D)> &RelP, const std::function<bool(D, D)> &RelR, bool Gl, bool Z, const std::function<D(D)> &FC) -> VS {
      VS Q;
      if (S == Zero ? Z : (Gl && isConst(S))) Q.insert(S);
      for (unsigned I = 0; I < PT.size(); ++I) if (RelP(Callee->getArg(I), S)) Q.insert(FC(Args[I]));
      bool Hit = false;
      for (auto *V : VaAllocas) Hit |= RelP(V, S);
      if (Hit) for (unsigned I = PT.size(); I < Args.size(); ++I) Q.insert(FC(Args[I]));
      if (RV && RelR(RV, S)) Q.insert(FC(CS));
      return Q;
    };
    auto RelR = [&](D V, D S) { return RndRel(S, V); };
    unsigned Post = 0;
    auto PP = [&](VS &Res) { ++Post; if (Post % 3 == 0) Res.insert(AS); };
    unsigned Post2 = 0;
    auto F1 = psr::mapFactsToCaller<D>(CS, Exit, RndRel, RelR, FC, Glob, PZ, PP);
    Cmp("to-caller", *F1, [&](D S) { auto Q = RetRef(S, RndRel, RelR, Glob, PZ, FC); if (++Post2 % 3 == 0) Q.insert(AS); return Q; });
    auto F2 = psr::mapFactsToCaller<>(CS, Exit);
    Cmp("to-caller-default", *F2, [&](D S) { return RetRef(S, Eq, Eq, true, true, IdC); });
    for (auto *St : Stores) {
      D P = St->getPointerOperand(), Bs = P->stripPointerCasts(), V = St->getValueOperand();
      auto F3 = psr::strongUpdateStore<>(St);
      Cmp("store", *F3, [&](D S) -> VS { if (S == P || S == Bs) return {}; if (S == V) return {S, P, Bs}; return {S}; });
      auto F4 = psr::strongUpdateStore(St, RndArg);
      Cmp("store-if", *F4, [&](D S) -> VS { if (S == P || S == Bs) return {}; if (RndArg(S)) return {S, P, Bs}; return {S}; });
    }
  }
  C.nontrivial(H);
  C.sample(instStr(CS));
}

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  std::vector<int> UI;
  std::vector<std::string> US;
  for (int I = 0; I < 6; ++I) { UI.push_back(I * 7 - 3); US.push_back(std::string(40, 'x') + "f" + std::to_string(I)); }
  switch (C.Case % 4) {
  case 0: templates<int, std::set<int>>(C, R, UI, "int/set"); break;
  case 1: templates<std::string, std::set<std::string>>(C, R, US, "string/set"); break;
  case 2: templates<std::string, std::unordered_set<std::string>>(C, R, US, "string/unordered_set"); break;
  case 3: for (int I = 0; I < 4; ++I) mappers(C, R); break;
  }
}
