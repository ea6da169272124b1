// Programs in which values are copied through locals, globals, parameters, references and (optionally) aggregates:
// the workload of the taint and uninitialised-variable monitors.
#pragma once
#include "exec.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/NoFolder.h"
#include "llvm/IR/Verifier.h"
namespace vf {
using BldT = llvm::IRBuilder<llvm::NoFolder>;

struct RefOpts {
  bool Loops = false, Rec = false;
  bool Globals = true;
  bool Refs = true;     // reference parameters
  bool Aggs = false;    // structs, arrays, insertvalue/extractvalue
  bool Slots = false;   // reference parameters spilled to a local pointer, as unoptimised code does
  bool Taint = true;    // calls of the source/sink functions
  bool Bin = true;      // arithmetic
  bool SRet = false;     // struct results
  bool Undef = false;    // undef literals
  bool Phi = false;     // phi and select
  bool Heap = false, Invoke = false, Indirect = false;
  unsigned InitNum = 4, InitDen = 5; // chance that a variable is initialised at once
};
struct RefProg {
  std::unique_ptr<llvm::LLVMContext> LC;
  std::unique_ptr<llvm::Module> M;
  RefOpts O;
};

inline RefProg genRef(Rng &R, RefOpts O) {
  RefProg P;
  P.O = O;
  P.LC = std::make_unique<llvm::LLVMContext>();
  auto &LC = *P.LC;
  P.M = std::make_unique<llvm::Module>("ref", LC);
  auto &M = *P.M;
  BldT B(LC);
  auto *I32 = B.getInt32Ty();
  unsigned Wd[] = {32, 32, 64, 8};
  auto rty = [&] { return llvm::IntegerType::get(LC, Wd[R(R.chance(1, 3) ? 4 : 2)]); };
  auto cst = [&](llvm::Type *T) -> llvm::Value * {
    if (O.Undef && R.chance(1, 25)) return llvm::UndefValue::get(T);
    return llvm::ConstantInt::get(T, R.range(-4, 90), true); };
  auto *ST = llvm::StructType::create(LC, {I32, B.getInt64Ty(), I32}, "struct.S");
  auto *VT = llvm::StructType::get(LC, {I32, I32});
  auto decl = [&](const char *N, llvm::Type *RT, std::vector<llvm::Type *> A) {
    return llvm::Function::Create(llvm::FunctionType::get(RT, A, false), llvm::GlobalValue::ExternalLinkage, N, M);
  };
  auto *P32 = I32->getPointerTo();
  llvm::Function *Src = nullptr, *Src64 = nullptr, *SrcP = nullptr, *Sink = nullptr, *Sink2 = nullptr, *SinkP = nullptr, *San = nullptr, *Both = nullptr, *Ext = nullptr;
  if (O.Taint) {
    Src = decl("source", I32, {});
    Src64 = decl("source64", B.getInt64Ty(), {I32});
    SrcP = decl("sourceptr", B.getVoidTy(), {P32, I32});
    Sink = decl("sink", B.getVoidTy(), {I32});
    Sink2 = decl("sink2", I32, {I32, I32});
    SinkP = decl("sinkptr", B.getVoidTy(), {P32});
    San = decl("sanitize", B.getVoidTy(), {P32});
    Both = decl("both", B.getVoidTy(), {P32, P32, I32}); // source, sanitizer, sink
  }
  Ext = decl("ext", I32, {I32});
  auto *Pers = O.Invoke ? decl("__gxx_personality_v0", I32, {}) : nullptr;
  llvm::Function *Malloc = O.Heap ? decl("malloc", B.getInt8PtrTy(), {B.getInt64Ty()}) : nullptr;
  unsigned NG = O.Globals ? R(4) : 0, NF = 1 + R(4);
  std::vector<llvm::GlobalVariable *> Gs;
  for (unsigned I = 0; I < NG; ++I) {
    auto *T = rty();
    Gs.push_back(new llvm::GlobalVariable(M, T, false, llvm::GlobalValue::ExternalLinkage, llvm::ConstantInt::get(T, R.range(-4, 90), true), "g" + std::to_string(I)));
  }
  std::vector<llvm::Function *> Fs;
  for (unsigned I = 0; I < NF; ++I) {
    std::vector<llvm::Type *> PT;
    if (I)
      for (unsigned N = R.chance(1, 8) ? 3 + R(4) : R(4); N--;) {
        auto *T = rty();
        PT.push_back(!O.Refs || R.chance(1, 2) ? (llvm::Type *)T : O.Aggs && R.chance(1, 3) ? ST->getPointerTo() : T->getPointerTo());
      }
    else if (R.chance(1, 3)) PT = {I32, B.getInt8PtrTy()->getPointerTo()};
    llvm::Type *RT = I == 0 ? I32 : R.chance(1, 4) ? B.getVoidTy() : O.Aggs && R.chance(1, 5) ? (llvm::Type *)VT : (llvm::Type *)rty();
    bool SRet = I && O.SRet && O.Aggs && R.chance(1, 4);
    if (SRet) { RT = B.getVoidTy(); PT.insert(PT.begin(), ST->getPointerTo()); }
    Fs.push_back(llvm::Function::Create(llvm::FunctionType::get(RT, PT, false), llvm::GlobalValue::ExternalLinkage, I ? "f" + std::to_string(I) : "main", M));
    if (SRet) Fs.back()->getArg(0)->addAttr(llvm::Attribute::get(LC, llvm::Attribute::StructRet, ST));
  }
  for (unsigned FI = 0; FI < NF; ++FI) {
    auto *F = Fs[FI];
    unsigned NB = 1 + R(5), NV = 1 + R(4);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    B.SetInsertPoint(BBs[0]);
    // P: the pointer, or (Slot) a local that holds it
    struct Var { llvm::Value *P; llvm::Type *T; bool Glob; bool Slot; bool St; };
    std::vector<Var> Vars;
    for (unsigned I = 0; I < NV; ++I) {
      bool St = O.Aggs && R.chance(1, 4);
      llvm::Type *T = St ? (llvm::Type *)ST : rty();
      if (O.Heap && R.chance(1, 6)) {
        auto *H = B.CreateBitCast(B.CreateCall(Malloc, {B.getInt64(32)}), T->getPointerTo());
        Vars.push_back({H, T, false, false, St});
      } else Vars.push_back({B.CreateAlloca(T, nullptr, "v" + std::to_string(I)), T, false, false, St});
    }
    for (auto *G : Gs) Vars.push_back({G, G->getValueType(), true, false, false});
    std::vector<llvm::Value *> Entry; // values available everywhere
    for (auto &A : F->args()) {
      if (!A.getType()->isPointerTy()) {
        if (O.Slots && R.chance(1, 2)) {
          auto *Sl = B.CreateAlloca(A.getType(), nullptr, "a.addr");
          B.CreateStore(&A, Sl);
          Vars.push_back({Sl, A.getType(), false, false, false});
        } else Entry.push_back(&A);
        continue;
      }
      auto *T = A.getType()->getPointerElementType();
      if (FI == 0) continue; // argv
      if (O.Slots && R.chance(2, 3)) {
        auto *Sl = B.CreateAlloca(A.getType(), nullptr, "p.addr");
        B.CreateStore(&A, Sl);
        Vars.push_back({Sl, T, false, true, T == ST});
      } else Vars.push_back({&A, T, false, false, T == ST});
    }
    // the address of a variable's integer cell, and its type
    auto addr = [&](Var &V, llvm::Type *&T) -> llvm::Value * {
      llvm::Value *Q = V.Slot ? (llvm::Value *)B.CreateLoad(V.T->getPointerTo(), V.P) : V.P;
      T = V.T;
      if (V.St) {
        unsigned Ix = R(3);
        T = ST->getElementType(Ix);
        return B.CreateStructGEP(ST, Q, Ix);
      }
      return Q;
    };
    for (auto &V : Vars)
      if (!V.Glob && !V.Slot && !llvm::isa<llvm::Argument>(V.P) && !V.St && R.chance(O.InitNum, O.InitDen)) {
        if (V.P->getName().startswith("a.addr")) continue;
        B.CreateStore(cst(V.T), V.P);
      }
    for (unsigned BI = 0; BI < NB; ++BI) {
      B.SetInsertPoint(BBs[BI]);
      std::vector<llvm::Value *> Av = Entry;
      auto val = [&](llvm::Type *T, bool LitOk) -> llvm::Value * {
        std::vector<llvm::Value *> C;
        for (auto *V : Av) if (V->getType() == T) C.push_back(V);
        if (!C.empty() && (!LitOk || R.chance(5, 6))) return R.pick(C);
        if (LitOk && R.chance(1, 4)) return cst(T);
        std::vector<Var> VC;
        for (auto &V : Vars) if (V.T == T || V.St) VC.push_back(V);
        if (!VC.empty()) {
          llvm::Type *T2;
          auto *A = addr(R.pick(VC), T2);
          if (T2 == T) { auto *L = B.CreateLoad(T, A); Av.push_back(L); return L; }
        }
        return cst(T);
      };
      auto keep = [&](llvm::Value *X) {
        Av.push_back(X);
        for (auto &V : Vars) if (V.T == X->getType() && R.chance(2, 3)) { llvm::Type *T2; B.CreateStore(X, addr(V, T2)); break; }
      };
      auto ptrTo = [&](llvm::Type *T, bool GlobOk, std::set<llvm::Value *> *Used) -> llvm::Value * {
        std::vector<Var> C;
        for (auto &V : Vars)
          if ((GlobOk || !V.Glob) && !(Used && Used->count(V.P)) && V.T->getPointerTo() == T) C.push_back(V);
        if (C.empty()) return nullptr;
        auto &V = R.pick(C);
        if (Used) Used->insert(V.P);
        return V.Slot ? (llvm::Value *)B.CreateLoad(T, V.P) : V.P;
      };
      for (unsigned N = 1 + R(8); N--;) {
        unsigned K = R(O.Taint ? 18 : 16);
        auto &V = R.pick(Vars);
        if (K < 3) { llvm::Type *T; auto *A = addr(V, T); auto *X = val(T, true); B.CreateStore(X, A); }
        else if (K < 4) { llvm::Type *T; auto *A = addr(V, T); Av.push_back(B.CreateLoad(T, A)); }
        else if (K < 5 && O.Bin) {
          llvm::Type *T = V.St ? I32 : V.T;
          auto *X = B.CreateAdd(val(T, false), val(T, true));
          keep(X);
        } else if (K < 7) { // casts
          llvm::Type *T = V.St ? I32 : V.T;
          auto *A = val(T, false);
          auto *T2 = rty();
          unsigned W = T->getIntegerBitWidth();
          llvm::Value *X = T2->getBitWidth() > W ? R.chance(1, 2) ? B.CreateZExt(A, T2) : B.CreateSExt(A, T2) : T2->getBitWidth() < W ? B.CreateTrunc(A, T2) : nullptr;
          if (X) keep(X);
        } else if (K < 9 && NF > 1) {
          unsigned CI = O.Rec ? 1 + R(NF - 1) : FI + 1 < NF ? FI + 1 + R(NF - FI - 1) : 0;
          if (!CI) continue;
          auto *Ca = Fs[CI];
          std::vector<llvm::Value *> Args;
          std::set<llvm::Value *> Used;
          bool Ok = true;
          for (auto &A : Ca->args()) {
            auto *X = A.getType()->isPointerTy() ? ptrTo(A.getType(), false, &Used) : val(A.getType(), true);
            if (!X) { Ok = false; break; }
            Args.push_back(X);
          }
          if (!Ok) continue;
          llvm::Value *Fn = Ca;
          if (O.Indirect && R.chance(1, 2)) {
            auto *Sl = new llvm::AllocaInst(Ca->getType(), 0, "fp", &*F->getEntryBlock().begin());
            B.CreateStore(Ca, Sl);
            Fn = B.CreateLoad(Ca->getType(), Sl);
          }
          llvm::CallBase *X;
          if (O.Invoke && R.chance(1, 3)) {
            if (!F->hasPersonalityFn()) F->setPersonalityFn(Pers);
            auto *Cont = llvm::BasicBlock::Create(LC, "cont", F), *Pad = llvm::BasicBlock::Create(LC, "pad", F);
            X = B.CreateInvoke(Ca->getFunctionType(), Fn, Cont, Pad, Args);
            B.SetInsertPoint(Pad);
            auto *LP = B.CreateLandingPad(llvm::StructType::get(LC, {B.getInt8PtrTy(), I32}), 0);
            LP->setCleanup(true);
            B.CreateResume(LP);
            B.SetInsertPoint(Cont);
          } else X = B.CreateCall(Ca->getFunctionType(), Fn, Args);
          if (Ca->hasStructRetAttr()) {
            X->addParamAttr(0, llvm::Attribute::get(LC, llvm::Attribute::StructRet, ST));
            // the result is written as a whole: the other fields start undefined
          }
          if (X->getType() == VT) { auto *E = B.CreateExtractValue(X, R(2)); keep(E); }
          else if (!X->getType()->isVoidTy()) keep(X);
        } else if ((K < 12 || K > 15) && O.Taint) {
          switch (R(10)) {
          case 0: case 1: keep(B.CreateCall(Src, {})); break;
          case 2: keep(B.CreateCall(Src64, {val(I32, true)})); break;
          case 3: if (auto *Q = ptrTo(P32, true, nullptr)) B.CreateCall(SrcP, {Q, val(I32, true)}); break;
          case 4: case 5: B.CreateCall(Sink, {val(I32, false)}); break;
          case 6: { auto *A1 = val(I32, false), *A2 = val(I32, false); keep(B.CreateCall(Sink2, {A1, A2})); break; }
          case 7: if (auto *Q = ptrTo(P32, true, nullptr)) B.CreateCall(SinkP, {Q}); break;
          case 9: { std::set<llvm::Value *> U; auto *Q = ptrTo(P32, false, &U), *Q2 = ptrTo(P32, false, &U); if (Q && Q2) B.CreateCall(Both, {Q, Q2, val(I32, false)}); break; }
          case 8: if (auto *Q = ptrTo(P32, false, nullptr)) B.CreateCall(San, {Q}); break;
          }
        } else if (K == 12) keep(B.CreateCall(Ext, {val(I32, false)}));
        else if (K == 13 && O.Aggs) { // an aggregate value
          llvm::Value *X = B.CreateInsertValue(llvm::UndefValue::get(VT), val(I32, true), R(2));
          if (R.chance(1, 2)) X = B.CreateInsertValue(X, val(I32, true), R(2));
          keep(B.CreateExtractValue(X, R(2)));
        } else if (K == 14 && O.Phi) {
          llvm::Type *T = V.St ? I32 : V.T;
          keep(B.CreateSelect(B.CreateICmpEQ(val(T, false), cst(T)), val(T, true), val(T, false)));
        }
      }
      auto *Fwd = BI + 1 < NB ? BBs[BI + 1 + R(NB - BI - 1)] : nullptr;
      auto *Any = O.Loops && NB > 1 ? BBs[1 + R(NB - 1)] : Fwd;
      if (!Fwd || R.chance(1, 10)) {
        auto *RT = F->getReturnType();
        if (RT->isVoidTy()) B.CreateRetVoid();
        else if (RT == VT) B.CreateRet(B.CreateInsertValue(llvm::UndefValue::get(VT), val(I32, true), R(2)));
        else B.CreateRet(val(RT, true));
      } else if (R.chance(1, 3)) B.CreateBr(BBs[BI + 1]);
      else { auto *T = rty(); B.CreateCondBr(B.CreateICmpSLT(val(T, false), cst(T)), BBs[BI + 1], Any); }
    }
  }
  return P;
}
} // namespace vf
