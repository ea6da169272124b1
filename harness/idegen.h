// Random distributive IDE/IFDS problems over random interprocedural programs, plus an
// independent reference solution (naive chaotic iteration of the meet-over-valid-paths
// equations over explicit tables; shares no code with the solver).
#pragma once
#include "common.h"

#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/DataFlow/IfdsIde/DefaultEdgeFunctionSingletonCache.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctionUtils.h"
#include "phasar/DataFlow/IfdsIde/EdgeFunctions.h"
#include "phasar/DataFlow/IfdsIde/FlowFunctions.h"
#include "phasar/DataFlow/IfdsIde/IDETabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/IFDSTabulationProblem.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/IFDSSolver.h"
#include "phasar/DataFlow/IfdsIde/Solver/PathAwareIDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/JoinLattice.h"
#include "phasar/Utils/Logger.h"

#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"

#include <algorithm>
#include <atomic>
#include <memory>
#include <optional>

namespace vf {

// ---------------------------------------------------------------- the value lattice
// Powersets of {0..3} under union (bottom = all), plus a strict "no path" top.
struct BV {
  uint8_t V = 0x80; // 0x80: top
  bool isTop() const { return V & 0x80; }
  friend bool operator==(BV A, BV B) { return A.V == B.V; }
  friend bool operator!=(BV A, BV B) { return A.V != B.V; }
  static BV top() { return {0x80}; }
  static BV bot() { return {0x0f}; }
  static BV join(BV A, BV B) {
    if (A.isTop()) return B;
    if (B.isTop()) return A;
    return {(uint8_t)(A.V | B.V)};
  }
};
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, BV B) {
  if (B.isTop()) return OS << "TOP";
  return OS << "{" << (unsigned)B.V << "}";
}
inline std::string to_string(BV B) { return str(B); }

// f(l) = (l & ~K) | G, strict in top.  Canonical: G subset of K.
struct KGv {
  uint8_t K = 0, G = 0;
  static KGv mk(unsigned K, unsigned G) {
    return {(uint8_t)((K | G) & 15), (uint8_t)(G & 15)};
  }
  // constants yield their value even for an unreached source
  BV operator()(BV L) const { return L.isTop() && K != 15 ? L : BV{(uint8_t)((L.V & ~K & 15) | G)}; }
  friend bool operator==(KGv A, KGv B) { return A.K == B.K && A.G == B.G; }
  // first *this, then B
  KGv then(KGv B) const { return mk(K | B.K, (G & ~B.K) | B.G); }
  KGv join(KGv B) const {
    // (l&~K1|G1)|(l&~K2|G2)
    unsigned G2 = G | B.G;
    return mk((K & B.K) | G2, G2);
  }
  bool isId() const { return K == 0 && G == 0; }
};
} // namespace vf

namespace psr {
template <> struct JoinLatticeTraits<vf::BV> {
  static constexpr vf::BV top() noexcept { return {0x80}; }
  static constexpr vf::BV bottom() noexcept { return {0x0f}; }
  static constexpr vf::BV join(vf::BV A, vf::BV B) noexcept {
    return (A.V & 0x80) ? B : (B.V & 0x80) ? A : vf::BV{(uint8_t)(A.V | B.V)};
  }
};
} // namespace psr
namespace std {
template <> struct hash<vf::BV> {
  size_t operator()(vf::BV B) const noexcept { return B.V; }
};
} // namespace std

namespace vf {
using psr::EdgeFunction;
using psr::EdgeFunctionRef;
using psr::EdgeIdentity;

inline std::atomic<long> LiveHeapEFs{0};

struct HeapKG;
struct SmallKG;
EdgeFunction<BV> makeKG(KGv F, int Flavor);
// semantic view of any edge function occurring in our problems
std::optional<KGv> viewKG(const EdgeFunction<BV> &EF);

struct SmallKG {
  using l_t = BV;
  KGv F;
  BV computeTarget(psr::ByConstRef<BV> S) const { return F(S); }
  static EdgeFunction<BV> compose(EdgeFunctionRef<SmallKG> This, const EdgeFunction<BV> &Second);
  static EdgeFunction<BV> join(EdgeFunctionRef<SmallKG> This, const EdgeFunction<BV> &Other);
  friend bool operator==(SmallKG A, SmallKG B) { return A.F == B.F; }
};
struct HeapKG {
  using l_t = BV;
  KGv F;
  std::string Payload; // makes it non-trivial => heap-allocated and ref-counted
  explicit HeapKG(KGv F) : F(F), Payload("payload-" + std::to_string(F.K * 16 + F.G)) { ++LiveHeapEFs; }
  HeapKG(const HeapKG &O) : F(O.F), Payload(O.Payload) { ++LiveHeapEFs; }
  HeapKG(HeapKG &&O) noexcept : F(O.F), Payload(std::move(O.Payload)) { ++LiveHeapEFs; }
  ~HeapKG() { --LiveHeapEFs; }
  BV computeTarget(psr::ByConstRef<BV> S) const { return F(S); }
  static EdgeFunction<BV> compose(EdgeFunctionRef<HeapKG> This, const EdgeFunction<BV> &Second);
  static EdgeFunction<BV> join(EdgeFunctionRef<HeapKG> This, const EdgeFunction<BV> &Other);
  friend bool operator==(const HeapKG &A, const HeapKG &B) { return A.F == B.F; }
  friend llvm::hash_code hash_value(const HeapKG &A) { return llvm::hash_code(A.F.K * 16 + A.F.G); }
};
inline psr::DefaultEdgeFunctionSingletonCache<HeapKG> *TheCache = nullptr;

inline EdgeFunction<BV> makeKG(KGv F, int Flavor) {
  if (F.isId()) return EdgeIdentity<BV>{};
  if (Flavor == 0) return SmallKG{F};
  if (Flavor == 2 && TheCache) return TheCache->createEdgeFunction(F);
  return HeapKG{F};
}
inline std::optional<KGv> viewKG(const EdgeFunction<BV> &EF) {
  if (llvm::isa<EdgeIdentity<BV>>(EF)) return KGv{0, 0};
  if (const auto *S = llvm::dyn_cast<SmallKG>(EF)) return S->F;
  if (const auto *S = llvm::dyn_cast<HeapKG>(EF)) return S->F;
  return std::nullopt;
}
template <typename T> EdgeFunction<BV> kgCompose(EdgeFunctionRef<T> This, const EdgeFunction<BV> &Second, int Fl) {
  if (llvm::isa<EdgeIdentity<BV>>(Second)) return This;
  if (llvm::isa<psr::AllTop<BV>>(Second) || llvm::isa<psr::AllBottom<BV>>(Second)) return Second;
  auto V = viewKG(Second);
  return makeKG(This->F.then(*V), Fl);
}
template <typename T> EdgeFunction<BV> kgJoin(EdgeFunctionRef<T> This, const EdgeFunction<BV> &Other, int Fl) {
  if (llvm::isa<psr::AllTop<BV>>(Other)) return This;
  if (llvm::isa<psr::AllBottom<BV>>(Other)) return Other;
  auto V = viewKG(Other);
  return makeKG(This->F.join(*V), Fl);
}
inline EdgeFunction<BV> SmallKG::compose(EdgeFunctionRef<SmallKG> T, const EdgeFunction<BV> &S) { return kgCompose(T, S, 0); }
inline EdgeFunction<BV> SmallKG::join(EdgeFunctionRef<SmallKG> T, const EdgeFunction<BV> &S) { return kgJoin(T, S, 0); }
inline EdgeFunction<BV> HeapKG::compose(EdgeFunctionRef<HeapKG> T, const EdgeFunction<BV> &S) { return kgCompose(T, S, T.isCached() ? 2 : 1); }
inline EdgeFunction<BV> HeapKG::join(EdgeFunctionRef<HeapKG> T, const EdgeFunction<BV> &S) { return kgJoin(T, S, T.isCached() ? 2 : 1); }

// ---------------------------------------------------------------- random programs
struct ProgOpts {
  unsigned MaxFuns = 5, MaxBlocks = 5, MaxInsts = 4, NumFacts = 5;
  bool Indirect = true, Acyclic = false, Invoke = true, Decls = true;
};
struct Prog {
  std::unique_ptr<llvm::LLVMContext> LC;
  std::unique_ptr<llvm::Module> M;
  std::vector<llvm::Function *> Funs; // defined, Funs[0] is main
  std::vector<llvm::GlobalVariable *> Facts;
};

inline Prog genProg(Rng &R, const ProgOpts &O) {
  Prog P;
  P.LC = std::make_unique<llvm::LLVMContext>();
  auto &LC = *P.LC;
  P.M = std::make_unique<llvm::Module>("gen", LC);
  auto &M = *P.M;
  llvm::IRBuilder<> B(LC);
  auto *I32 = B.getInt32Ty();
  auto *FT = llvm::FunctionType::get(I32, {I32}, false);
  unsigned NF = 1 + R(O.MaxFuns);
  for (unsigned I = 0; I < O.NumFacts; ++I)
    P.Facts.push_back(new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage,
                                               B.getInt32(I), "fact" + std::to_string(I)));
  auto *Pad = new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage, B.getInt32(0), "pad");
  std::vector<llvm::Function *> Decls;
  if (O.Decls)
    for (int I = 0; I < 2; ++I)
      Decls.push_back(llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage, "ext" + std::to_string(I), M));
  for (unsigned I = 0; I < NF; ++I)
    P.Funs.push_back(llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage,
                                            I == 0 ? "main" : "f" + std::to_string(I), M));
  // A function-pointer slot; taking the addresses of some functions.
  auto *FPT = FT->getPointerTo();
  auto *Slot = new llvm::GlobalVariable(M, FPT, false, llvm::GlobalValue::InternalLinkage,
                                        P.Funs[R(NF)], "fp");
  llvm::Function *Pers = nullptr;
  for (unsigned FI = 0; FI < NF; ++FI) {
    auto *F = P.Funs[FI];
    unsigned NB = 1 + R(O.MaxBlocks);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I)
      BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    std::vector<llvm::BasicBlock *> Pads; // landing pads
    auto callee = [&]() -> llvm::Value * {
      if (O.Acyclic) {
        if (FI + 1 < NF) return P.Funs[FI + 1 + R(NF - FI - 1)];
        return Decls.empty() ? nullptr : (llvm::Value *)Decls[0];
      }
      unsigned K = R(10);
      if (K < 7 || Decls.empty()) return P.Funs[R(NF)];
      return Decls[R(Decls.size())];
    };
    for (unsigned BI = 0; BI < NB; ++BI) {
      B.SetInsertPoint(BBs[BI]);
      unsigned NI = R(O.MaxInsts + 1);
      llvm::Value *Last = F->getArg(0);
      for (unsigned II = 0; II < NI; ++II) {
        unsigned K = R(10);
        if (K < 4) {
          llvm::Value *C = nullptr;
          if (O.Indirect && R.chance(1, 4)) {
            if (R.chance(1, 3)) B.CreateStore(P.Funs[R(NF)], Slot);
            C = B.CreateLoad(FPT, Slot);
          } else
            C = callee();
          if (C) Last = B.CreateCall(FT, C, {Last});
        } else if (K < 7) {
          B.CreateStore(Last, Pad);
        } else {
          Last = B.CreateLoad(I32, Pad);
        }
      }
      auto *T1 = BBs[NB == 1 ? 0 : 1 + R(NB - 1)];
      auto *T2 = BBs[NB == 1 ? 0 : 1 + R(NB - 1)];
      unsigned K = R(12);
      if (NB == 1 || BI + 1 == NB || K < 2) {
        B.CreateRet(B.getInt32(1));
      } else if (K < 5) {
        B.CreateBr(BBs[BI + 1]);
      } else if (K < 9) {
        B.CreateCondBr(B.CreateICmpSGT(F->getArg(0), B.getInt32(R(9))), BBs[BI + 1], T1);
      } else if (K == 9 && !(O.Invoke && R.chance(1, 2))) {
        auto *SW = B.CreateSwitch(F->getArg(0), BBs[BI + 1], 2);
        SW->addCase(B.getInt32(1), T1);
        SW->addCase(B.getInt32(2), T2);
      } else if ((K == 9 || K == 10) && O.Invoke) {
        if (!Pers)
          Pers = llvm::Function::Create(llvm::FunctionType::get(I32, true), llvm::GlobalValue::ExternalLinkage,
                                        "__gxx_personality_v0", M);
        F->setPersonalityFn(Pers);
        auto *C = callee();
        if (!C) { B.CreateBr(BBs[BI + 1]); continue; }
        auto *Normal = R.chance(1, 3) ? T1 : BBs[BI + 1];
        if (!Pads.empty() && R.chance(1, 2)) { // several invokes share a landing pad
          B.CreateInvoke(FT, C, R.chance(1, 2) ? T1 : Normal, Pads[R(Pads.size())], {F->getArg(0)});
          continue;
        }
        auto *LP = llvm::BasicBlock::Create(LC, "lpad", F);
        Pads.push_back(LP);
        B.CreateInvoke(FT, C, Normal, LP, {F->getArg(0)});
        llvm::IRBuilder<> B2(LP);
        auto *L = B2.CreateLandingPad(llvm::StructType::get(B.getInt8PtrTy(), I32), 0);
        L->setCleanup(true);
        B2.CreateStore(B2.getInt32(3), Pad);
        if (R.chance(1, 2)) B2.CreateResume(L);
        else if (R.chance(1, 2)) B2.CreateBr(BBs[BI + 1]);
        else B2.CreateUnreachable();
        // an invoke edge and the landing pad share BBs[BI+1]; no phis, so that is fine
      } else if (K == 11) {
        B.CreateUnreachable();
      } else {
        B.CreateBr(T1);
      }
    }
  }
  return P;
}

// Programs for unbalanced problems: Funs[0] is the seed function; every other non-helper function
// calls exactly one earlier non-helper function, at most once per execution (forward branches
// only), so that no seeded context is ever re-entered by a balanced call.  Helpers are leaves.
inline Prog genUpProg(Rng &R, const ProgOpts &O) {
  Prog P;
  P.LC = std::make_unique<llvm::LLVMContext>();
  auto &LC = *P.LC;
  P.M = std::make_unique<llvm::Module>("gen", LC);
  auto &M = *P.M;
  llvm::IRBuilder<> B(LC);
  auto *I32 = B.getInt32Ty();
  auto *FT = llvm::FunctionType::get(I32, {I32}, false);
  unsigned NF = 2 + R(O.MaxFuns), NH = R(3);
  for (unsigned I = 0; I < O.NumFacts; ++I)
    P.Facts.push_back(new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage,
                                               B.getInt32(I), "fact" + std::to_string(I)));
  auto *Pad = new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage, B.getInt32(0), "pad");
  std::vector<llvm::Function *> Help;
  for (unsigned I = 0; I < NF; ++I)
    P.Funs.push_back(llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage,
                                            I + 1 == NF ? "main" : "f" + std::to_string(I), M));
  for (unsigned I = 0; I < NH; ++I)
    Help.push_back(llvm::Function::Create(FT, llvm::GlobalValue::ExternalLinkage, "h" + std::to_string(I), M));
  for (unsigned FI = 0; FI < NF + NH; ++FI) {
    bool IsHelp = FI >= NF;
    auto *F = IsHelp ? Help[FI - NF] : P.Funs[FI];
    unsigned NB = 1 + R(O.MaxBlocks);
    unsigned UpB = R(NB);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    for (unsigned BI = 0; BI < NB; ++BI) {
      B.SetInsertPoint(BBs[BI]);
      llvm::Value *Last = F->getArg(0);
      auto Fill = [&] {
        for (unsigned N = R(3); N--;) {
          unsigned K = R(3);
          if (K == 0) B.CreateStore(Last, Pad);
          else if (K == 1) Last = B.CreateLoad(I32, Pad);
          else if (!IsHelp && NH) Last = B.CreateCall(FT, Help[R(NH)], {Last});
        }
      };
      Fill();
      if (!IsHelp && FI && BI == UpB) Last = B.CreateCall(FT, P.Funs[R(FI)], {Last});
      Fill();
      if (BI + 1 == NB || R.chance(1, 8)) { B.CreateRet(Last); continue; }
      auto *Fwd = BBs[BI + 1 + R(NB - BI - 1)];
      if (IsHelp && NB > 1 && R.chance(1, 3)) Fwd = BBs[1 + R(NB - 1)];
      if (R.chance(1, 3)) B.CreateBr(BBs[BI + 1]);
      else B.CreateCondBr(B.CreateICmpSGT(F->getArg(0), B.getInt32(R(9))), BBs[BI + 1], Fwd);
    }
  }
  return P;
}

// ---------------------------------------------------------------- the random problem
struct Domain : psr::LLVMAnalysisDomainDefault {
  using l_t = BV;
};
using N = const llvm::Instruction *;
using D = const llvm::Value *;
using Fn = const llvm::Function *;

enum Kind { KNormal = 1, KCall, KRet, KC2R, KSum };

// Everything about the random problem is a pure function of (seed, node ids, fact ids).
struct Model {
  uint64_t Seed = 0;
  unsigned NF = 0;                        // facts 1..NF; 0 is zero
  std::vector<D> FactV;                   // index -> value (0: zero)
  std::map<D, unsigned> FactI;
  std::map<const llvm::Value *, unsigned> Id; // instructions and functions
  bool AutoZero = true;
  int Flavor = 0;
  unsigned SummaryMod = 0; // functions f with hash%SummaryMod==0 have special summaries
  bool ConstFromZero = false; // zero -> d edges are constants

  bool hasSummary(Fn F) const { return SummaryMod && mixn(Seed, 77, Id.at(F)) % SummaryMod == 0 && F->getName() != "main"; }
  uint64_t ekey(Kind K, const llvm::Value *A, const llvm::Value *B, const llvm::Value *C, const llvm::Value *E) const {
    auto G = [&](const llvm::Value *V) { return V ? Id.at(V) + 1 : 0; };
    return mixn(Seed, (uint64_t)K, G(A), G(B), G(C), G(E));
  }
  // targets of fact S along the edge
  std::set<unsigned> targets(uint64_t EK, unsigned S) const {
    std::set<unsigned> T;
    uint64_t H = mixn(EK, S, 5);
    if (S == 0) {
      if (!AutoZero) T.insert(0); // otherwise the solver has to add it
      if (H % 4 == 0) T.insert(1 + (H >> 8) % NF);
      return T;
    }
    unsigned Sel = H % 16;
    if (Sel < 8) T.insert(S);                                        // identity
    else if (Sel < 10) ;                                             // kill
    else if (Sel < 13) { T.insert(S); T.insert(1 + (H >> 8) % NF); } // gen
    else T.insert(1 + (H >> 8) % NF);                                // move
    return T;
  }
  std::set<unsigned> targetsZ(uint64_t EK, unsigned S) const { // as the solver sees them
    auto T = targets(EK, S);
    if (S == 0) T.insert(0);
    return T;
  }
  KGv edge(uint64_t EK, unsigned S, unsigned T) const {
    uint64_t H = mixn(EK, S, T, 9);
    if (S == 0 && T == 0) return {0, 0};
    if (S == 0 && ConstFromZero) return {15, (uint8_t)((H >> 16) & 15)};
    if (H % 3 == 0) return {0, 0};
    return KGv::mk((H >> 8) & 15, (H >> 16) & (H >> 24) & 15);
  }
  uint64_t kNormal(N A, N B) const { return ekey(KNormal, A, B, nullptr, nullptr); }
  uint64_t kCall(N C, Fn F) const { return ekey(KCall, C, F, nullptr, nullptr); }
  uint64_t kRet(N C, Fn F, N E, N R) const { return ekey(KRet, C, F, E, R); }
  uint64_t kC2R(N C, N R) const { return ekey(KC2R, C, R, nullptr, nullptr); }
  uint64_t kSum(N C, Fn F) const { return ekey(KSum, C, F, nullptr, nullptr); }
  // Summary *edge* functions are keyed by (call, fact, retsite, fact): several summarised
  // callees of one call share them.
  uint64_t kSumE(N C, N R) const { return ekey(KSum, C, R, C, nullptr); }
};

inline Model mkModel(Rng &R, const Prog &P, bool AutoZero) {
  Model Mo;
  Mo.Seed = R.next();
  Mo.NF = P.Facts.size();
  Mo.FactV.push_back(psr::LLVMZeroValue::getInstance());
  for (auto *G : P.Facts) Mo.FactV.push_back(G);
  for (unsigned I = 0; I < Mo.FactV.size(); ++I) Mo.FactI[Mo.FactV[I]] = I;
  unsigned Idx = 0;
  for (auto &F : *P.M) {
    Mo.Id[&F] = Idx++;
    for (auto &I : llvm::instructions(F)) Mo.Id[&I] = Idx++;
  }
  Mo.AutoZero = AutoZero;
  Mo.Flavor = R(3);
  Mo.SummaryMod = R.chance(1, 3) ? 3 : 0;
  return Mo;
}

// Observed by the flow functions: counts their evaluations and raises a cancellation flag.
struct StepHook {
  uint64_t Steps = 0, CancelAt = 0;
  std::atomic_bool Cancel{false};
};
struct FlowFn : psr::FlowFunction<D, std::set<D>> {
  const Model *Mo;
  uint64_t EK;
  StepHook *Steps;
  FlowFn(const Model *Mo, uint64_t EK, StepHook *Steps) : Mo(Mo), EK(EK), Steps(Steps) {}
  std::set<D> computeTargets(D S) override {
    if (Steps && ++Steps->Steps == Steps->CancelAt) Steps->Cancel = true;
    std::set<D> R;
    for (auto T : Mo->targets(EK, Mo->FactI.at(S))) R.insert(Mo->FactV[T]);
    return R;
  }
};
struct KillAllFn : psr::FlowFunction<D, std::set<D>> {
  std::set<D> computeTargets(D) override { return {}; }
};

template <typename Base, typename Dom> struct FlowMixin : Base {
  using FFP = typename Base::FlowFunctionPtrType;
  Model Mo;
  std::map<N, std::map<D, BV>> SeedMap;
  StepHook *Steps = nullptr;
  mutable uint64_t Queries = 0;

  FlowMixin(const psr::LLVMProjectIRDB *DB, std::vector<std::string> EP, Model M)
      : Base(DB, std::move(EP), psr::LLVMZeroValue::getInstance()), Mo(std::move(M)) {}
  FFP mk(uint64_t K) { ++Queries; return std::make_shared<FlowFn>(&Mo, K, Steps); }
  FFP getNormalFlowFunction(N A, N B) override { return mk(Mo.kNormal(A, B)); }
  FFP getCallFlowFunction(N C, Fn F) override {
    if (Mo.hasSummary(F)) return std::make_shared<KillAllFn>();
    return mk(Mo.kCall(C, F));
  }
  FFP getRetFlowFunction(N C, Fn F, N E, N R) override { return mk(Mo.kRet(C, F, E, R)); }
  FFP getCallToRetFlowFunction(N C, N R, llvm::ArrayRef<Fn>) override { return mk(Mo.kC2R(C, R)); }
  FFP getSummaryFlowFunction(N C, Fn F) override {
    if (!Mo.hasSummary(F)) return nullptr;
    return mk(Mo.kSum(C, F));
  }
  bool isZeroValue(D X) const noexcept override { return X == Mo.FactV[0]; }
};

struct RandIDE : FlowMixin<psr::IDETabulationProblem<Domain>, Domain> {
  using FlowMixin::FlowMixin;
  psr::InitialSeeds<N, D, BV> initialSeeds() override {
    psr::InitialSeeds<N, D, BV> S;
    for (auto &[Nd, M] : SeedMap)
      for (auto &[F, V] : M) S.addSeed(Nd, F, V);
    return S;
  }
  EdgeFunction<BV> ef(uint64_t K, D A, D B) {
    ++Queries;
    return makeKG(Mo.edge(K, Mo.FactI.at(A), Mo.FactI.at(B)), Mo.Flavor);
  }
  EdgeFunction<BV> getNormalEdgeFunction(N A, D X, N B, D Y) override { return ef(Mo.kNormal(A, B), X, Y); }
  EdgeFunction<BV> getCallEdgeFunction(N C, D X, Fn F, D Y) override { return ef(Mo.kCall(C, F), X, Y); }
  EdgeFunction<BV> getReturnEdgeFunction(N C, Fn F, N E, D X, N R, D Y) override { return ef(Mo.kRet(C, F, E, R), X, Y); }
  EdgeFunction<BV> getCallToRetEdgeFunction(N C, D X, N R, D Y, llvm::ArrayRef<Fn>) override { return ef(Mo.kC2R(C, R), X, Y); }
  EdgeFunction<BV> getSummaryEdgeFunction(N C, D X, N R, D Y) override { return ef(Mo.kSumE(C, R), X, Y); }
};

struct RandIFDS : FlowMixin<psr::IFDSTabulationProblem<psr::LLVMIFDSAnalysisDomainDefault>, psr::LLVMIFDSAnalysisDomainDefault> {
  using FlowMixin::FlowMixin;
  psr::InitialSeeds<N, D, psr::BinaryDomain> initialSeeds() override {
    psr::InitialSeeds<N, D, psr::BinaryDomain> S;
    for (auto &[Nd, M] : SeedMap)
      for (auto &[F, V] : M) S.addSeed(Nd, F, psr::BinaryDomain::BOTTOM);
    return S;
  }
};

// ---------------------------------------------------------------- reference solution
struct RefResult {
  std::map<N, std::map<unsigned, BV>> Val; // reachable facts with their values
  uint64_t Iterations = 0;
  unsigned MaxCtx = 0;      // number of distinct callee contexts
  unsigned Unbalanced = 0;  // number of unbalanced returns taken
};

inline std::vector<N> llvmSuccs(N I) {
  std::vector<N> R;
  if (!I->isTerminator()) { R.push_back(I->getNextNode()); return R; }
  std::set<N> Seen;
  for (unsigned K = 0; K < I->getNumSuccessors(); ++K) {
    N S = &I->getSuccessor(K)->front();
    if (Seen.insert(S).second) R.push_back(S);
  }
  return R;
}

// Callees: resolved call targets. Seeds: node -> fact -> value (zero included).
inline RefResult refSolve(const Model &Mo, const llvm::Module &M, const std::map<N, std::vector<Fn>> &Callees,
                          const std::map<N, std::map<unsigned, BV>> &Seeds, bool FollowReturns) {
  RefResult Res;
  using JF = std::map<std::pair<unsigned, unsigned>, KGv>; // (ctx fact, fact) -> function
  std::map<N, JF> J;
  std::map<Fn, std::set<unsigned>> Ctx;      // contexts at the start point reached via calls
  std::map<std::pair<N, Fn>, std::map<unsigned, std::set<unsigned>>> CallEdges; // (call,callee): d2->d3
  auto add = [&](N Nd, unsigned A, unsigned B, KGv F) {
    auto &T = J[Nd];
    auto It = T.find({A, B});
    if (It == T.end()) { T.emplace(std::make_pair(A, B), F); return true; }
    KGv G = It->second.join(F);
    if (G == It->second) return false;
    It->second = G;
    return true;
  };
  for (auto &[Nd, Fs] : Seeds)
    for (auto &[F, V] : Fs) add(Nd, F, F, {0, 0});
  std::map<Fn, std::vector<N>> Callers;
  for (auto &[C, Fs] : Callees)
    for (Fn F : Fs) Callers[F].push_back(C);
  std::set<Fn> UnbalancedFuns; // functions entered by an unbalanced return
  bool Changed = true;
  while (Changed) {
    Changed = false;
    ++Res.Iterations;
    for (auto &F : M)
      for (auto &I : llvm::instructions(F)) {
        auto JIt = J.find(&I);
        if (JIt == J.end()) continue;
        JF Cur = JIt->second;
        auto Succ = llvmSuccs(&I);
        bool IsCall = llvm::isa<llvm::CallBase>(I);
        for (auto &[AB, Fun] : Cur) {
          auto [A, B] = AB;
          if (!IsCall) {
            for (N S : Succ) {
              auto K = Mo.kNormal(&I, S);
              for (auto T : Mo.targetsZ(K, B)) Changed |= add(S, A, T, Fun.then(Mo.edge(K, B, T)));
            }
            continue;
          }
          for (N S : Succ) {
            auto K = Mo.kC2R(&I, S);
            for (auto T : Mo.targetsZ(K, B)) Changed |= add(S, A, T, Fun.then(Mo.edge(K, B, T)));
          }
          auto CIt = Callees.find(&I);
          if (CIt == Callees.end()) continue;
          for (Fn Cal : CIt->second) {
            if (Mo.hasSummary(Cal)) {
              auto K = Mo.kSum(&I, Cal);
              for (N S : Succ)
                for (auto T : Mo.targets(K, B))
                  Changed |= add(S, A, T, Fun.then(Mo.edge(Mo.kSumE(&I, S), B, T)));
              continue;
            }
            if (Cal->isDeclaration()) continue;
            N SP = &Cal->front().front();
            auto KC = Mo.kCall(&I, Cal);
            for (auto D3 : Mo.targetsZ(KC, B)) {
              Changed |= add(SP, D3, D3, {0, 0});
              Changed |= CallEdges[{&I, Cal}][B].insert(D3).second;
              Ctx[Cal].insert(D3);
              KGv Pre = Fun.then(Mo.edge(KC, B, D3));
              for (auto &BB : *Cal) {
                N E = BB.getTerminator();
                if (!llvm::isa<llvm::ReturnInst>(E)) continue;
                auto EIt = J.find(E);
                if (EIt == J.end()) continue;
                JF EJ = EIt->second;
                for (auto &[XY, EF] : EJ) {
                  if (XY.first != D3) continue;
                  for (N S : Succ) {
                    auto KR = Mo.kRet(&I, Cal, E, S);
                    for (auto D5 : Mo.targetsZ(KR, XY.second))
                      Changed |= add(S, A, D5, Pre.then(EF).then(Mo.edge(KR, XY.second, D5)));
                  }
                }
              }
            }
          }
        }
        if (FollowReturns && llvm::isa<llvm::ReturnInst>(I)) {
          // facts whose context was not established by a call return to every caller, from zero
          for (auto &[AB, Fun] : Cur) {
            auto [A, B] = AB;
            if (Ctx[&F].count(A)) continue;
            for (N C : Callers[&F])
              for (N S : llvmSuccs(C)) {
                auto KR = Mo.kRet(C, &F, &I, S);
                for (auto D5 : Mo.targetsZ(KR, B)) {
                  ++Res.Unbalanced;
                  UnbalancedFuns.insert(C->getFunction());
                  Changed |= add(S, 0, D5, Fun.then(Mo.edge(KR, B, D5)));
                }
              }
          }
        }
      }
  }
  // values
  std::map<std::pair<N, unsigned>, BV> SV; // at start points
  auto sv = [&](N Nd, unsigned F) {
    auto It = SV.find({Nd, F});
    return It == SV.end() ? BV::top() : It->second;
  };
  for (auto &[Nd, Fs] : Seeds)
    for (auto &[F, V] : Fs) SV[{Nd, F}] = BV::join(sv(Nd, F), V);
  for (Fn F : UnbalancedFuns) SV[{&F->front().front(), 0}] = BV::bot();
  Changed = true;
  while (Changed) {
    Changed = false;
    for (auto &F : M) {
      if (F.isDeclaration()) continue;
      N SP = &F.front().front();
      for (auto &I : llvm::instructions(F)) {
        auto CIt = Callees.find(&I);
        if (CIt == Callees.end() || !J.count(&I)) continue;
        for (auto &[AB, Fun] : J[&I])
          for (Fn Cal : CIt->second) {
            auto It = CallEdges.find({&I, Cal});
            if (It == CallEdges.end()) continue;
            auto It2 = It->second.find(AB.second);
            if (It2 == It->second.end()) continue;
            for (auto D3 : It2->second) {
              N CSP = &Cal->front().front();
              BV V = Mo.edge(Mo.kCall(&I, Cal), AB.second, D3)(Fun(sv(SP, AB.first)));
              BV O = sv(CSP, D3), NV = BV::join(O, V);
              if (NV != O) { SV[{CSP, D3}] = NV; Changed = true; }
            }
          }
      }
    }
  }
  for (auto &[Nd, T] : J) {
    N SP = &Nd->getFunction()->front().front();
    for (auto &[AB, Fun] : T) {
      BV V = Fun(sv(SP, AB.first));
      auto &Slot = Res.Val[Nd];
      auto It = Slot.find(AB.second);
      if (It == Slot.end()) Slot[AB.second] = V;
      else It->second = BV::join(It->second, V);
    }
  }
  for (auto &[F, S] : Ctx) Res.MaxCtx = std::max<unsigned>(Res.MaxCtx, S.size());
  return Res;
}

// ---------------------------------------------------------------- a complete case
struct IdeCase {
  Prog P;
  std::unique_ptr<psr::LLVMProjectIRDB> DB;
  std::unique_ptr<psr::LLVMBasedICFG> ICF;
  Model Mo;
  std::map<N, std::vector<Fn>> Callees;
  std::map<N, std::map<unsigned, BV>> Seeds; // with zero everywhere
  std::map<N, std::map<D, BV>> SeedMap;      // as handed to the solver
  bool Follow = false;
};

inline void initPhasarQuiet() {
  if (getenv("VF_LOG")) psr::Logger::initializeStderrLogger(psr::SeverityLevel::DEBUG);
  else psr::Logger::disable();
}

inline IdeCase genIdeCase(Rng &R, bool Unbalanced = false, unsigned Size = 5) {
  IdeCase C;
  ProgOpts O;
  O.MaxFuns = Size;
  O.MaxBlocks = Size;
  O.NumFacts = 2 + R(4);
  if (Unbalanced) { O.Acyclic = true; O.Indirect = false; O.MaxFuns = 4; }
  C.P = Unbalanced ? genUpProg(R, O) : genProg(R, O);
  std::string Err;
  llvm::raw_string_ostream EOS(Err);
  if (llvm::verifyModule(*C.P.M, &EOS)) { fprintf(stderr, "harness: invalid IR: %s\n", EOS.str().c_str()); exit(3); }
  C.Mo = mkModel(R, C.P, R.chance(1, 2));
  C.DB = std::make_unique<psr::LLVMProjectIRDB>(C.P.M.get(), /*DoPreprocessing*/ R.chance(1, 2));
  std::vector<std::string> EPs = {"main"};
  if (!Unbalanced && R.chance(1, 3)) {
    auto *F2 = C.P.Funs[R(C.P.Funs.size())];
    if (!C.Mo.hasSummary(F2) && F2->getName() != "main") EPs.push_back(F2->getName().str());
  }
  psr::LLVMTypeHierarchy TH(*C.DB);
  auto CGTy = O.Indirect && R.chance(2, 3) ? psr::CallGraphAnalysisType::OTF : psr::CallGraphAnalysisType::CHA;
  C.ICF = std::make_unique<psr::LLVMBasedICFG>(C.DB.get(), CGTy, EPs, &TH, nullptr, psr::Soundness::Soundy, false);
  for (auto &F : *C.P.M)
    for (auto &I : llvm::instructions(F))
      if (llvm::isa<llvm::CallBase>(I)) {
        auto R2 = C.ICF->getCalleesOfCallAt(&I);
        C.Callees[&I] = std::vector<Fn>(R2.begin(), R2.end());
      }
  if (Unbalanced) {
    auto *F = C.P.Funs[R.chance(1, 4) ? R(C.P.Funs.size()) : 0];
    C.Mo.ConstFromZero = R.chance(1, 2);
    C.SeedMap[&F->front().front()][C.Mo.FactV[0]] = BV::bot();
    C.Mo.SummaryMod = 0;
  } else {
    for (auto &E : EPs) {
      auto *F = C.P.M->getFunction(E);
      N SP = &F->front().front();
      if (R.chance(2, 3)) C.SeedMap[SP][C.Mo.FactV[0]] = BV::bot();
      unsigned K = R(3);
      for (unsigned I = 0; I < K; ++I) C.SeedMap[SP][C.Mo.FactV[1 + R(C.Mo.NF)]] = BV{(uint8_t)R(16)};
      if (C.SeedMap[SP].empty()) C.SeedMap[SP][C.Mo.FactV[0]] = BV::bot();
    }
  }
  C.Follow = Unbalanced;
  for (auto &[Nd, Fs] : C.SeedMap) {
    for (auto &[F, V] : Fs) C.Seeds[Nd][C.Mo.FactI[F]] = V;
    if (!C.Seeds[Nd].count(0)) C.Seeds[Nd][0] = BV::bot();
  }
  return C;
}
template <typename Prob> std::unique_ptr<Prob> mkProblem(const IdeCase &C) {
  auto P = std::make_unique<Prob>(C.DB.get(), std::vector<std::string>{"main"}, C.Mo);
  P->SeedMap = C.SeedMap;
  P->getIFDSIDESolverConfig().setAutoAddZero(C.Mo.AutoZero);
  P->getIFDSIDESolverConfig().setFollowReturnsPastSeeds(C.Follow);
  return P;
}

inline std::string progSummary(const IdeCase &C) {
  unsigned NI = 0;
  for (auto &F : *C.P.M) NI += F.getInstructionCount();
  return std::to_string(C.P.Funs.size()) + " functions, " + std::to_string(NI) + " instructions, " +
         std::to_string(C.Mo.NF) + " facts, autoAddZero=" + std::to_string(C.Mo.AutoZero) +
         ", edge-function flavour " + std::to_string(C.Mo.Flavor);
}
} // namespace vf
