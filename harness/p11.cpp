// P11: the intra-procedural monotone framework against a naive solution of the data-flow equations, and its constant
// propagation against concrete executions.
#include "irgen.h"
#include "refgen.h"
#include "phasar/DataFlow/Mono/Solver/IntraMonoSolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/Mono/Problems/IntraMonoFullConstantPropagation.h"
#include "phasar/PhasarLLVM/Domain/LLVMAnalysisDomain.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/CFG.h"
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }
using I_t = const llvm::Instruction *;
constexpr int NF = 7;
using Bits = uint32_t;

// A monotone transfer function: (X \ K) | G, plus facts generated from (conjunctions of) others.
struct Rule { Bits Need; Bits Add; };
struct TF {
  Bits K = 0, G = 0;
  std::vector<Rule> Rs;
  Bits operator()(Bits X) const {
    Bits R = (X & ~K) | G;
    for (auto &U : Rs) if ((X & U.Need) == U.Need) R |= U.Add;
    return R;
  }
};
template <typename S> struct Dom : psr::LLVMAnalysisDomainDefault {
  using d_t = int;
  using mono_container_t = S;
};
inline Bits bits(const std::set<int> &S) { Bits B = 0; for (int I : S) B |= 1u << I; return B; }
inline Bits bits(const psr::BitVectorSet<int> &S) { Bits B = 0; for (int I : S) B |= 1u << I; return B; }
template <typename S> S mk(Bits B) { S R; for (int I = 0; I < NF; ++I) if (B >> I & 1) R.insert(I); return R; }
constexpr Bits All = (1u << NF) - 1;

template <typename S> struct Prob : psr::IntraMonoProblem<Dom<S>> {
  using Base = psr::IntraMonoProblem<Dom<S>>;
  std::map<I_t, TF> *T;
  std::map<I_t, Bits> Seeds;
  bool Must = false;
  uint64_t Flows = 0;
  using Base::Base;
  S normalFlow(I_t I, const S &In) override { ++Flows; return mk<S>((*T)[I](bits(In))); }
  S merge(const S &A, const S &B) override { return mk<S>(Must ? bits(A) & bits(B) : bits(A) | bits(B)); }
  bool equal_to(const S &A, const S &B) override { return bits(A) == bits(B); }
  S allTop() override { return mk<S>(Must ? All : 0); }
  std::unordered_map<I_t, S> initialSeeds() override {
    std::unordered_map<I_t, S> R;
    for (auto &[I, B] : Seeds) R[I] = mk<S>(B);
    return R;
  }
};

static I_t firstOf(const llvm::BasicBlock *BB, bool Ign) {
  for (auto &I : *BB) if (!Ign || !llvm::isa<llvm::DbgInfoIntrinsic>(&I)) return &I;
  return nullptr;
}

template <typename S> void solve(Ctx &C, Rng &R, psr::LLVMProjectIRDB &IRDB, psr::LLVMTypeHierarchy &TH, psr::LLVMAliasSet &PT, const psr::LLVMBasedCFG &CF, bool Ign, const char *Nm) {
  std::vector<std::string> EPs;
  std::vector<const llvm::Function *> Fns;
  for (auto *F : IRDB.getAllFunctions())
    if (!F->isDeclaration() && R.chance(2, 3)) { EPs.push_back(F->getName().str()); Fns.push_back(F); }
  if (EPs.empty()) return;
  std::map<I_t, TF> T;
  bool Must = R.chance(1, 2);
  Prob<S> P(&IRDB, &TH, &CF, &PT, EPs);
  P.T = &T;
  P.Must = Must;
  unsigned Dens = 1 + R(6);
  std::map<I_t, Bits> In;
  std::map<I_t, std::vector<I_t>> Pred;
  std::vector<I_t> Order;
  for (auto *F : Fns) {
    for (auto &BB : *F) {
      I_t Prev = nullptr;
      for (auto &I : BB) {
        if (Ign && llvm::isa<llvm::DbgInfoIntrinsic>(&I)) continue;
        Order.push_back(&I);
        if (Prev) Pred[&I].push_back(Prev);
        Prev = &I;
        if (R(Dens + 1) == 0) {
          auto &X = T[&I];
          X.K = R.chance(1, 2) ? R(All + 1) & R(All + 1) : 0;
          X.G = R.chance(1, 2) ? 1u << R(NF) : 0;
          for (unsigned N = R(3); N--;) X.Rs.push_back({(Bits)(1u << R(NF) | (R.chance(1, 3) ? 1u << R(NF) : 0)), (Bits)(1u << R(NF))});
        }
      }
      for (auto *SB : llvm::successors(&BB)) {
        auto *H = firstOf(SB, Ign);
        auto &V = Pred[H];
        if (std::find(V.begin(), V.end(), Prev) == V.end()) V.push_back(Prev);
      }
    }
    auto *E = firstOf(&F->getEntryBlock(), Ign);
    // in a must-problem everything not seeded at the entry would stay "unreached"
    if (!Must && R.chance(3, 4)) P.Seeds[E] = R(All + 1);
  }
  // the least (may) or greatest (must) solution; the entry keeps its initial value
  for (auto *I : Order) In[I] = Must ? All : P.Seeds.count(I) ? P.Seeds[I] : 0;
  for (bool Ch = true; Ch;) {
    Ch = false;
    for (auto *I : Order) {
      auto It = Pred.find(I);
      if (It == Pred.end()) continue;
      Bits X = Must ? All : 0;
      for (auto *Q : It->second) { Bits O = T[Q](In[Q]); if (Must) X &= O; else X |= O; }
      if (X != In[I]) { In[I] = X; Ch = true; }
    }
  }
  psr::IntraMonoSolver<Dom<S>> Sol(P);
  Sol.solve();
  uint64_t H = Must, Mer = 0;
  for (auto *I : Order) {
    Bits Want = T[I](In[I]), Got = bits(Sol.getResultsAt(I));
    H = mixn(H, Want, Pred[I].size());
    if (Pred[I].size() > 1) ++Mer;
    if (Want != Got) {
      if (C.Verbose) { for (auto *J : Order) if (J->getFunction() == I->getFunction()) { fprintf(stderr, "%u->%u got %u  K%u G%u", In[J], T[J](In[J]), bits(Sol.getResultsAt(J)), T[J].K, T[J].G); for (auto &U : T[J].Rs) fprintf(stderr, " %u=>%u", U.Need, U.Add); fprintf(stderr, "  %s\n", instStr(J).c_str()); } }
      C.violation(std::string(Nm) + (Must ? ":must" : ":may"), "after '" + instStr(I) + "' in " + I->getFunction()->getName().str() + ": got " + std::to_string(Got) + ", expected " + std::to_string(Want));
      return;
    }
    C.count("statements_compared");
  }
  C.count("merges", Mer);
  C.count("transfer_applications", P.Flows);
  if (Mer) C.nontrivial(H);
}

struct CpObs : Observer {
  // value of memory/registers seen before each instruction
  struct Seen { bool Bad = false; int64_t V = 0; };
  const psr::LLVMProjectIRDB *DB = nullptr;
  std::map<std::pair<I_t, const llvm::Value *>, std::vector<std::optional<int64_t>>> After;
  I_t Last = nullptr;
  std::set<const llvm::Value *> Defd;
  bool Overflow = false;
  uint64_t Events = 0;
  void snap(Exec &E, I_t I) {
    ++Events;
    for (auto &[V, X] : E.Stack.back().Regs) {
      if (X.Kind == PVal::Int && X.Known) After[{I, V}].push_back(X.I);
      else if (X.Kind == PVal::Int) After[{I, V}].push_back(std::nullopt);
      else if (X.Kind == PVal::Ptr && X.Obj >= 0 && llvm::isa<llvm::AllocaInst>(V)) {
        auto It = E.Mem[X.Obj].Slots.find(0);
        if (It == E.Mem[X.Obj].Slots.end()) continue; // uninitialised
        if (It->second.Kind == PVal::Int && It->second.Known) After[{I, V}].push_back(It->second.I);
        else After[{I, V}].push_back(std::nullopt);
      }
    }
  }
  void before(Exec &E, I_t I) override {
    if (Last && Last->getFunction() == I->getFunction() && !Last->isTerminator()) snap(E, Last);
    Last = I;
  }
  void binop(I_t I, const PVal &A, const PVal &B, PVal &R) override {
    if (R.Known && A.Known && B.Known && llvm::isa<llvm::BinaryOperator>(I)) {
      __int128 X = 0;
      switch (I->getOpcode()) {
      case llvm::Instruction::Add: X = (__int128)A.I + B.I; break;
      case llvm::Instruction::Sub: X = (__int128)A.I - B.I; break;
      case llvm::Instruction::Mul: X = (__int128)A.I * B.I; break;
      default: X = R.I;
      }
      if (X != R.I) Overflow = true;
    }
  }
};

static void constants(Ctx &C, Rng &R) {
  // one function; variables are only accessed directly
  auto LC = std::make_unique<llvm::LLVMContext>();
  llvm::Module M("cp", *LC);
  BldT B(*LC);
  auto *I32 = B.getInt32Ty();
  auto *Ext = llvm::Function::Create(llvm::FunctionType::get(I32, {}, false), llvm::GlobalValue::ExternalLinkage, "ext", M);
  auto *F = llvm::Function::Create(llvm::FunctionType::get(I32, {I32}, false), llvm::GlobalValue::ExternalLinkage, "main", M);
  unsigned NB = 1 + R(6), NV = 1 + R(4);
  std::vector<llvm::BasicBlock *> BBs;
  for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(*LC, "b" + std::to_string(I), F));
  B.SetInsertPoint(BBs[0]);
  std::vector<llvm::Value *> Vars;
  for (unsigned I = 0; I < NV; ++I) Vars.push_back(B.CreateAlloca(I32, nullptr, "v" + std::to_string(I)));
  for (unsigned BI = 0; BI < NB; ++BI) {
    B.SetInsertPoint(BBs[BI]);
    std::vector<llvm::Value *> Av = {F->getArg(0)};
    auto cst = [&] { return (llvm::Value *)B.getInt32(R.range(-5, 9)); };
    auto val = [&]() -> llvm::Value * { return R.chance(1, 3) ? cst() : R.pick(Av); };
    for (unsigned N = R(8); N--;) switch (R(7)) {
      case 0: B.CreateStore(cst(), R.pick(Vars)); break;
      case 1: B.CreateStore(val(), R.pick(Vars)); break;
      case 2: case 3: Av.push_back(B.CreateLoad(I32, R.pick(Vars))); break;
      case 4: {
        static const llvm::Instruction::BinaryOps Ops[] = {llvm::Instruction::Add, llvm::Instruction::Sub, llvm::Instruction::Mul, llvm::Instruction::SDiv, llvm::Instruction::SRem, llvm::Instruction::And, llvm::Instruction::UDiv, llvm::Instruction::URem, llvm::Instruction::Mul};
        Av.push_back(B.CreateBinOp(Ops[R(9)], val(), val()));
        break;
      }
      case 5: Av.push_back(B.CreateCall(Ext, {})); break;
      case 6: { auto *X = val(); if (!llvm::isa<llvm::Constant>(X)) B.CreateStore(B.CreateAdd(X, B.getInt32(1)), R.pick(Vars)); break; }
      }
    if (BI + 1 == NB) B.CreateRet(val());
    else if (R.chance(1, 3)) B.CreateBr(BBs[BI + 1]);
    else B.CreateCondBr(B.CreateICmpSLT(val(), cst()), BBs[BI + 1], BBs[1 + R(NB - 1)]);
  }
  C.Artifact = modStr(M);
  C.note();
  psr::LLVMProjectIRDB IRDB(&M);
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  psr::LLVMBasedCFG CF;
  psr::IntraMonoFullConstantPropagation P(&IRDB, &TH, &CF, &PT, {"main"});
  psr::IntraMonoSolver_P<psr::IntraMonoFullConstantPropagation> Sol(P);
  Sol.solve();
  std::map<std::pair<I_t, const llvm::Value *>, std::vector<std::optional<int64_t>>> Seen;
  std::set<I_t> Covered;
  uint64_t Ev = 0, H = 0;
  Paths Pa;
  unsigned Runs = 0;
  auto once = [&](auto Ch) {
    CpObs O;
    Exec E(M, O, Ch);
    E.MaxSteps = 200;
    std::vector<PVal> A(1);
    A[0].Kind = PVal::Int;
    E.run(F, A);
    Ev += O.Events;
    ++Runs;
    if (O.Overflow) { C.count("runs_with_overflow"); return; }
    for (auto &[K, V] : O.After) { auto &D = Seen[K]; D.insert(D.end(), V.begin(), V.end()); }
  };
  do once([&](unsigned N) { return Pa.choose(N); });
  while (Runs < 60 && Pa.next());
  if (!Pa.Exhausted)
    for (int I = 0; I < 60; ++I) once([&](unsigned N) { return (unsigned)R(N); });
  for (auto &[K, Vs] : Seen) {
    auto &[I, V] = K;
    auto Res = Sol.getResultsAt(I);
    auto It = Res.find(V);
    if (It == Res.end()) continue;
    if (auto *X = It->second.getValueOrNull()) {
      C.count("constants_checked", Vs.size());
      H = mixn(H, *X, hstr(instStr(V)));
      for (auto &O : Vs)
        if (!O || *O != *X) {
          C.violation("constant", "after '" + instStr(I) + "' '" + instStr(V) + "' reported " + std::to_string(*X) + ", in an execution " + (O ? std::to_string(*O) : std::string("unknown")));
          break;
        }
    }
  }
  // straight-line code: a literal just stored is known
  if (NB == 1) {
    std::map<const llvm::Value *, int64_t> Lit;
    std::set<const llvm::Value *> Lost;
    for (auto &I : BBs[0]->getInstList()) {
      if (auto *S = llvm::dyn_cast<llvm::StoreInst>(&I)) {
        Lit.erase(S->getPointerOperand());
        auto *CI = llvm::dyn_cast<llvm::ConstantInt>(S->getValueOperand());
        if (!CI) Lost.insert(S->getPointerOperand()); // unknown once, unknown forever
        if (CI && !Lost.count(S->getPointerOperand())) Lit[S->getPointerOperand()] = CI->getSExtValue();
      }
      auto Res = Sol.getResultsAt(&I);
      for (auto &[V, X] : Lit) {
        C.count("literals_expected");
        auto It = Res.find(V);
        if (It == Res.end() || !It->second.getValueOrNull() || *It->second.getValueOrNull() != X)
          C.violation("literal-unknown", "after '" + instStr(&I) + "' '" + instStr(V) + "' is " + std::to_string(X));
      }
    }
  }
  C.count("paths", Runs);
  C.count("execution_events", Ev);
  if (H) C.nontrivial(H);
}

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  if (C.Case % 3 == 2) return constants(C, R);
  IrOpts O;
  O.Guards = false; // the forward CFG deliberately skips an edge there
  auto Mod = genIr(R, O);
  C.Artifact = modStr(*Mod.M);
  C.note();
  psr::LLVMProjectIRDB IRDB(Mod.M.get());
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  bool Ign = R.chance(1, 2);
  psr::LLVMBasedCFG CF(Ign);
  for (int I = 0; I < 3; ++I) {
    solve<std::set<int>>(C, R, IRDB, TH, PT, CF, Ign, "set");
    solve<psr::BitVectorSet<int>>(C, R, IRDB, TH, PT, CF, Ign, "bitvectorset");
  }
}
