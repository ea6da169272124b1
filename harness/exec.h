// A small path executor for LLVM IR: runs a module from an entry function, with concrete memory and
// call stack, along freely chosen branch decisions (analyses treat branches as nondeterministic), and
// lets an observer see every instruction before it executes.  Shares no code with the code under test.
#pragma once
#include "common.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include <memory>
#include <optional>

namespace vf {

// Extra state carried by every value; meaning defined by the client.
struct Shadow {
  bool LinKnown = false; // value is a constant obtained by linear steps only
  int64_t Lin = 0;
  uint64_t Taint = 0;    // set of sources
  bool Uninit = false;
  uint64_t Origin = 0;   // client-defined
};

struct PVal {
  enum K : uint8_t { Undef, Int, Ptr, Fun, Agg } Kind = Undef;
  bool Known = false; // Int: value known
  int64_t I = 0;
  int Obj = -1;
  int64_t Off = 0;
  const llvm::Function *F = nullptr;
  Shadow S;
  std::shared_ptr<std::vector<PVal>> Els;
};

struct MemObj {
  const llvm::Value *Site = nullptr;
  uint64_t Id = 0;
  std::map<int64_t, PVal> Slots; // by byte offset
  bool Dead = false;
};

struct Frame {
  const llvm::Function *F;
  uint64_t Id;
  const llvm::CallBase *CS = nullptr;
  std::map<const llvm::Value *, PVal> Regs;
  std::vector<int> Allocas;
};

struct Exec;
struct Observer {
  virtual ~Observer() = default;
  virtual void before(Exec &, const llvm::Instruction *) {}
  virtual void enter(Exec &, const llvm::Function *, const llvm::CallBase *) {}
  virtual void leave(Exec &, const llvm::Function *, const llvm::Instruction *Exit) {}
  // an external call; return its result
  virtual bool isExternal(const llvm::Function *F) { return F->isDeclaration(); }
  virtual PVal external(Exec &, const llvm::CallBase *, const llvm::Function *, std::vector<PVal> &Args);
  // value hooks: adjust the shadow of the result
  virtual void binop(const llvm::Instruction *, const PVal &A, const PVal &B, PVal &R) {}
  virtual void cast(const llvm::Instruction *, const PVal &A, PVal &R) {}
  virtual void constant(const llvm::Constant *, PVal &) {}
  virtual void load(Exec &, const llvm::LoadInst *, PVal &) {}
  virtual void store(Exec &, const llvm::StoreInst *, const PVal &Ptr, PVal &Val) {}
  virtual void alloca_(Exec &, const llvm::AllocaInst *, MemObj &) {}
  virtual void callArg(Exec &, const llvm::CallBase *, unsigned, PVal &) {}
  virtual void retVal(Exec &, const llvm::ReturnInst *, PVal &) {}
};
inline PVal Observer::external(Exec &, const llvm::CallBase *CS, const llvm::Function *, std::vector<PVal> &) {
  PVal R;
  R.Kind = CS->getType()->isIntegerTy() ? PVal::Int : PVal::Undef;
  return R;
}

struct Exec {
  const llvm::Module &M;
  const llvm::DataLayout &DL;
  Observer &Ob;
  std::function<unsigned(unsigned)> Choose; // branch decision
  std::vector<MemObj> Mem;
  std::map<const llvm::Value *, int> GlobObj;
  std::vector<Frame> Stack;
  uint64_t Steps = 0, MaxSteps = 400, NextFrame = 0;
  unsigned MaxDepth = 8;
  bool Stopped = false; // ran out of fuel or undefined behaviour
  std::string Why;

  Exec(const llvm::Module &M, Observer &Ob, std::function<unsigned(unsigned)> Ch)
      : M(M), DL(M.getDataLayout()), Ob(Ob), Choose(std::move(Ch)) {
    for (auto &G : M.globals()) {
      GlobObj[&G] = Mem.size();
      MemObj O;
      O.Site = &G;
      O.Id = Mem.size();
      Mem.push_back(O);
    }
    for (auto &G : M.globals())
      if (G.hasInitializer()) initMem(GlobObj[&G], 0, G.getInitializer());
  }
  void stop(const char *W) { if (!Stopped) Why = W; Stopped = true; }
  void initMem(int O, int64_t Off, const llvm::Constant *C) {
    if (llvm::isa<llvm::ConstantAggregateZero>(C) || llvm::isa<llvm::ConstantAggregate>(C) || llvm::isa<llvm::ConstantDataSequential>(C)) {
      if (auto *ST = llvm::dyn_cast<llvm::StructType>(C->getType())) {
        auto *SL = DL.getStructLayout(ST);
        for (unsigned I = 0; I < ST->getNumElements(); ++I) initMem(O, Off + SL->getElementOffset(I), C->getAggregateElement(I));
      } else if (auto *AT = llvm::dyn_cast<llvm::ArrayType>(C->getType())) {
        int64_t Sz = DL.getTypeAllocSize(AT->getElementType());
        for (unsigned I = 0; I < AT->getNumElements(); ++I) initMem(O, Off + I * Sz, C->getAggregateElement(I));
      }
      return;
    }
    Mem[O].Slots[Off] = constant(C);
  }
  PVal constant(const llvm::Constant *C) {
    PVal R;
    if (auto *CI = llvm::dyn_cast<llvm::ConstantInt>(C)) {
      R.Kind = PVal::Int;
      R.Known = CI->getBitWidth() <= 64;
      R.I = R.Known ? CI->getSExtValue() : 0;
      R.S.LinKnown = R.Known;
      R.S.Lin = R.I;
    } else if (auto *F = llvm::dyn_cast<llvm::Function>(C)) {
      R.Kind = PVal::Fun;
      R.F = F;
    } else if (auto *G = llvm::dyn_cast<llvm::GlobalVariable>(C)) {
      R.Kind = PVal::Ptr;
      R.Obj = GlobObj[G];
    } else if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(C)) {
      return constant(A->getAliasee());
    } else if (auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(C)) {
      if (CE->isCast()) R = constant(CE->getOperand(0));
      else if (auto *GEP = llvm::dyn_cast<llvm::GEPOperator>(CE)) {
        R = constant(llvm::cast<llvm::Constant>(GEP->getPointerOperand()));
        llvm::APInt Off(64, 0);
        if (R.Kind == PVal::Ptr && GEP->accumulateConstantOffset(DL, Off)) R.Off += Off.getSExtValue();
      }
    }
    Ob.constant(C, R);
    return R;
  }
  PVal get(const llvm::Value *V) {
    if (auto *C = llvm::dyn_cast<llvm::Constant>(V)) return constant(C);
    auto It = Stack.back().Regs.find(V);
    return It == Stack.back().Regs.end() ? PVal{} : It->second;
  }
  bool has(const llvm::Value *V) const { return Stack.back().Regs.count(V); }
  void set(const llvm::Value *V, PVal P) { Stack.back().Regs[V] = std::move(P); }

  static int64_t sext(uint64_t V, unsigned W) { return W >= 64 ? (int64_t)V : (int64_t)(V << (64 - W)) >> (64 - W); }
  static uint64_t zext(uint64_t V, unsigned W) { return W >= 64 ? V : V & ((1ull << W) - 1); }
  static std::optional<int64_t> arith(unsigned Op, int64_t A, int64_t B, unsigned W) {
    uint64_t UA = zext(A, W), UB = zext(B, W);
    switch (Op) {
    case llvm::Instruction::Add: return sext(UA + UB, W);
    case llvm::Instruction::Sub: return sext(UA - UB, W);
    case llvm::Instruction::Mul: return sext(UA * UB, W);
    case llvm::Instruction::And: return sext(UA & UB, W);
    case llvm::Instruction::Or: return sext(UA | UB, W);
    case llvm::Instruction::Xor: return sext(UA ^ UB, W);
    case llvm::Instruction::UDiv: if (!UB) return std::nullopt; return sext(UA / UB, W);
    case llvm::Instruction::URem: if (!UB) return std::nullopt; return sext(UA % UB, W);
    case llvm::Instruction::SDiv: case llvm::Instruction::SRem: {
      int64_t SA = sext(UA, W), SB = sext(UB, W);
      if (!SB || (SB == -1 && SA == sext(1ull << (W - 1), W))) return std::nullopt;
      return sext(Op == llvm::Instruction::SDiv ? SA / SB : SA % SB, W);
    }
    case llvm::Instruction::Shl: if (UB >= W) return std::nullopt; return sext(UA << UB, W);
    case llvm::Instruction::LShr: if (UB >= W) return std::nullopt; return sext(UA >> UB, W);
    case llvm::Instruction::AShr: if (UB >= W) return std::nullopt; return sext(sext(UA, W) >> UB, W);
    }
    return std::nullopt;
  }

  std::optional<PVal> run(const llvm::Function *F, std::vector<PVal> Args, const llvm::CallBase *CS = nullptr) {
    if (Stack.size() >= MaxDepth) { stop("depth"); return std::nullopt; }
    Stack.push_back({F, NextFrame++, CS, {}, {}});
    for (unsigned I = 0; I < F->arg_size(); ++I) set(F->getArg(I), I < Args.size() ? Args[I] : PVal{});
    Ob.enter(*this, F, CS);
    const llvm::BasicBlock *BB = &F->getEntryBlock(), *Prev = nullptr;
    PVal Ret;
    auto leaveFrame = [&] {
      for (int O : Stack.back().Allocas) Mem[O].Dead = true;
      Stack.pop_back();
    };
    while (true) {
      const llvm::BasicBlock *Next = nullptr;
      { // phis read simultaneously
        std::vector<std::pair<const llvm::Value *, PVal>> Ph;
        for (auto &P : BB->phis()) Ph.push_back({&P, get(P.getIncomingValueForBlock(Prev))});
        for (auto &[V, X] : Ph) { Ob.before(*this, llvm::cast<llvm::Instruction>(V)); set(V, X); ++Steps; }
      }
      for (auto It = BB->begin(); It != BB->end(); ++It) {
        const llvm::Instruction *I = &*It;
        if (llvm::isa<llvm::PHINode>(I)) continue;
        if (++Steps > MaxSteps) { stop("fuel"); leaveFrame(); return std::nullopt; }
        Ob.before(*this, I);
        if (auto *Br = llvm::dyn_cast<llvm::BranchInst>(I)) {
          Next = Br->getSuccessor(Br->isConditional() ? Choose(2) : 0);
        } else if (auto *Sw = llvm::dyn_cast<llvm::SwitchInst>(I)) {
          Next = Sw->getSuccessor(Choose(Sw->getNumSuccessors()));
        } else if (auto *IB = llvm::dyn_cast<llvm::IndirectBrInst>(I)) {
          Next = IB->getSuccessor(Choose(IB->getNumSuccessors()));
        } else if (auto *R = llvm::dyn_cast<llvm::ReturnInst>(I)) {
          if (R->getReturnValue()) { Ret = get(R->getReturnValue()); Ob.retVal(*this, R, Ret); }
          Ob.leave(*this, F, I);
          leaveFrame();
          return Ret;
        } else if (llvm::isa<llvm::UnreachableInst>(I) || llvm::isa<llvm::ResumeInst>(I)) {
          stop("unreachable");
          leaveFrame();
          return std::nullopt;
        } else if (auto *Inv = llvm::dyn_cast<llvm::InvokeInst>(I)) {
          doCall(Inv);
          if (Stopped) { leaveFrame(); return std::nullopt; }
          Next = Inv->getNormalDest();
        } else if (auto *Ca = llvm::dyn_cast<llvm::CallBase>(I)) {
          doCall(Ca);
          if (Stopped) { leaveFrame(); return std::nullopt; }
        } else {
          simple(I);
          if (Stopped) { leaveFrame(); return std::nullopt; }
        }
      }
      if (!Next) { stop("no successor"); leaveFrame(); return std::nullopt; }
      Prev = BB;
      BB = Next;
    }
  }
  void doCall(const llvm::CallBase *CS) {
    if (llvm::isa<llvm::DbgInfoIntrinsic>(CS)) return;
    std::vector<PVal> Args;
    for (unsigned I = 0; I < CS->arg_size(); ++I) {
      PVal A = get(CS->getArgOperand(I));
      Ob.callArg(*this, CS, I, A);
      Args.push_back(A);
    }
    PVal C = get(CS->getCalledOperand());
    if (C.Kind != PVal::Fun) return stop("call of non-function");
    PVal R;
    if (Ob.isExternal(C.F)) {
      R = Ob.external(*this, CS, C.F, Args);
    } else {
      auto O = run(C.F, Args, CS);
      if (!O) return;
      R = *O;
    }
    if (!CS->getType()->isVoidTy()) set(CS, R);
  }
  int newObj(const llvm::Value *Site) {
    MemObj O;
    O.Site = Site;
    O.Id = Mem.size();
    Mem.push_back(O);
    return (int)Mem.size() - 1;
  }
  void simple(const llvm::Instruction *I) {
    if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(I)) {
      int O = newObj(A);
      Stack.back().Allocas.push_back(O);
      Ob.alloca_(*this, A, Mem[O]);
      PVal R;
      R.Kind = PVal::Ptr;
      R.Obj = O;
      set(I, R);
    } else if (auto *L = llvm::dyn_cast<llvm::LoadInst>(I)) {
      PVal P = get(L->getPointerOperand());
      if (P.Kind != PVal::Ptr || P.Obj < 0 || Mem[P.Obj].Dead) return stop("bad load");
      auto It = Mem[P.Obj].Slots.find(P.Off);
      PVal R;
      if (It != Mem[P.Obj].Slots.end()) R = It->second;
      else { R.Kind = L->getType()->isIntegerTy() ? PVal::Int : PVal::Undef; R.S.Uninit = true; }
      Ob.load(*this, L, R);
      set(I, R);
    } else if (auto *S = llvm::dyn_cast<llvm::StoreInst>(I)) {
      PVal P = get(S->getPointerOperand()), V = get(S->getValueOperand());
      if (P.Kind != PVal::Ptr || P.Obj < 0 || Mem[P.Obj].Dead) return stop("bad store");
      Ob.store(*this, S, P, V);
      Mem[P.Obj].Slots[P.Off] = V;
    } else if (auto *G = llvm::dyn_cast<llvm::GetElementPtrInst>(I)) {
      PVal P = get(G->getPointerOperand());
      PVal B = P;
      for (auto TI = llvm::gep_type_begin(G), TE = llvm::gep_type_end(G); TI != TE; ++TI) {
        PVal Ix = get(TI.getOperand());
        if (Ix.Kind != PVal::Int || !Ix.Known) return stop("unknown index");
        if (auto *ST = TI.getStructTypeOrNull()) P.Off += DL.getStructLayout(ST)->getElementOffset(Ix.I);
        else P.Off += Ix.I * (int64_t)DL.getTypeAllocSize(TI.getIndexedType());
      }
      Ob.cast(I, B, P);
      set(I, P);
    } else if (auto *BO = llvm::dyn_cast<llvm::BinaryOperator>(I)) {
      PVal A = get(BO->getOperand(0)), B = get(BO->getOperand(1)), R;
      R.Kind = PVal::Int;
      unsigned W = BO->getType()->getIntegerBitWidth();
      if (A.Kind == PVal::Int && B.Kind == PVal::Int && A.Known && B.Known)
        if (auto V = arith(BO->getOpcode(), A.I, B.I, W)) { R.Known = true; R.I = *V; }
      // linear: at least one operand is a literal
      R.S.Taint = A.S.Taint | B.S.Taint;
      R.S.Uninit = A.S.Uninit | B.S.Uninit;
      Ob.binop(I, A, B, R);
      set(I, R);
    } else if (auto *Cm = llvm::dyn_cast<llvm::CmpInst>(I)) {
      PVal A = get(Cm->getOperand(0)), B = get(Cm->getOperand(1)), R;
      R.Kind = PVal::Int;
      R.S.Taint = A.S.Taint | B.S.Taint;
      R.S.Uninit = A.S.Uninit | B.S.Uninit;
      Ob.binop(I, A, B, R);
      set(I, R);
    } else if (auto *Se = llvm::dyn_cast<llvm::SelectInst>(I)) {
      PVal R = get(Choose(2) ? Se->getTrueValue() : Se->getFalseValue());
      Ob.cast(I, R, R);
      set(I, R);
    } else if (auto *Ca = llvm::dyn_cast<llvm::CastInst>(I)) {
      PVal A = get(Ca->getOperand(0)), R = A;
      if (R.Kind == PVal::Int && Ca->getType()->isIntegerTy()) {
        unsigned W = Ca->getOperand(0)->getType()->getIntegerBitWidth(), W2 = Ca->getType()->getIntegerBitWidth();
        if (llvm::isa<llvm::ZExtInst>(Ca)) R.I = (int64_t)zext(A.I, W);
        else R.I = sext(A.I, W2);
        R.S.LinKnown = false;
      }
      Ob.cast(I, A, R);
      set(I, R);
    } else if (auto *EV = llvm::dyn_cast<llvm::ExtractValueInst>(I)) {
      PVal A = get(EV->getAggregateOperand()), R;
      if (A.Kind == PVal::Agg && EV->getNumIndices() == 1 && *EV->idx_begin() < A.Els->size()) R = (*A.Els)[*EV->idx_begin()];
      set(I, R);
    } else if (auto *IV = llvm::dyn_cast<llvm::InsertValueInst>(I)) {
      PVal A = get(IV->getAggregateOperand()), R;
      R.Kind = PVal::Agg;
      R.Els = std::make_shared<std::vector<PVal>>(A.Kind == PVal::Agg ? *A.Els : std::vector<PVal>(8));
      if (IV->getNumIndices() == 1 && *IV->idx_begin() < R.Els->size()) (*R.Els)[*IV->idx_begin()] = get(IV->getInsertedValueOperand());
      set(I, R);
    } else if (llvm::isa<llvm::FreezeInst>(I)) {
      PVal A = get(I->getOperand(0)), R = A;
      Ob.cast(I, A, R);
      set(I, R);
    } else {
      set(I, PVal{});
    }
  }
};

// Enumerates decision sequences depth-first up to a budget of runs; beyond it samples randomly.
struct Paths {
  std::vector<std::pair<unsigned, unsigned>> Dec; // (choice, arity)
  size_t Pos = 0;
  bool Exhausted = false;
  unsigned choose(unsigned N) {
    if (Pos == Dec.size()) Dec.push_back({0, N});
    return Dec[Pos++].first;
  }
  bool next() { // to the next unexplored sequence
    Dec.resize(Pos);
    Pos = 0;
    while (!Dec.empty()) {
      if (++Dec.back().first < Dec.back().second) return true;
      Dec.pop_back();
    }
    Exhausted = true;
    return false;
  }
};

} // namespace vf
