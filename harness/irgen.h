// Random, valid, executable LLVM modules with most of the instruction variety analyses meet: scalars of several
// widths, pointers, pointer-to-pointers, structs, arrays, function pointers, heap, varargs, invokes, switches,
// equal branch targets, phis, selects, static-variable guards, unreachable code, debug intrinsics, globals.
#pragma once
#include "common.h"
#include "llvm/IR/DIBuilder.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <memory>

namespace vf {

struct IrOpts {
  unsigned MaxFuns = 6, MaxBlocks = 6, MaxInsts = 6;
  bool Dbg = true, Invoke = true, Indirect = true, Guards = true, Unreach = true, VarArgs = true, Heap = true;
  bool Structs = true, PtrPtr = true, InitAll = true, Ctors = true, Phis = true, IndirectBr = true, Decls = true;
  bool Aliases = true; // global aliases
  unsigned ExtCalls = 1; // 0: none
};

struct IrMod {
  std::unique_ptr<llvm::LLVMContext> LC;
  std::unique_ptr<llvm::Module> M;
  std::vector<llvm::Function *> Funs;  // defined; Funs[0] = main
  std::vector<llvm::Function *> Decls;
};

class IrGen {
public:
  Rng &R;
  IrOpts O;
  IrMod P;
  llvm::IRBuilder<> *B = nullptr;
  llvm::Type *I1, *I8, *I16, *I32, *I64, *P32, *P8, *PP;
  llvm::StructType *ST = nullptr;
  std::vector<llvm::FunctionType *> Sigs;
  std::vector<llvm::Type *> SlotTys;
  std::vector<std::vector<llvm::Function *>> BySig;
  std::vector<llvm::GlobalVariable *> Globs;
  llvm::Function *Malloc = nullptr, *Pers = nullptr;
  std::vector<std::vector<llvm::Function *>> ExtBySig;
  // per function
  llvm::Function *F = nullptr;
  std::vector<llvm::Value *> Slots;                       // pointers valid everywhere
  std::vector<std::pair<llvm::Type *, llvm::Value *>> Here; // values usable in the current block
  std::unique_ptr<llvm::DIBuilder> DIB;
  llvm::DIFile *DIF = nullptr;
  llvm::DISubprogram *SP = nullptr;
  unsigned Line = 1;
  std::map<llvm::Function *, int> Idx;
  int CurIdx = -1;

  IrGen(Rng &R, IrOpts O) : R(R), O(O) {}

  llvm::Type *elemOf(llvm::Value *Ptr) { return Ptr->getType()->getPointerElementType(); }
  llvm::Constant *konst(llvm::Type *T) {
    if (T->isIntegerTy()) return llvm::ConstantInt::get(T, R.chance(1, 4) ? R(1000) : R(4));
    if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T)) {
      auto *E = PT->getPointerElementType();
      if (auto *FT = llvm::dyn_cast<llvm::FunctionType>(E))
        if (auto *G = anyFn(FT)) return G;
      for (unsigned K = 0; K < 3; ++K) {
        if (Globs.empty()) break;
        auto *G = R.pick(Globs);
        if (G->getValueType() == E) return G;
        if (ST && G->getValueType() == ST && E == I32) {
          llvm::Constant *Ix[2] = {llvm::ConstantInt::get(I32, 0), llvm::ConstantInt::get(I32, 0)};
          return llvm::ConstantExpr::getInBoundsGetElementPtr(ST, G, llvm::ArrayRef<llvm::Constant *>(Ix));
        }
      }
      for (auto *G : Globs)
        if (G->getValueType() == E) return G;
      return llvm::ConstantPointerNull::get(PT);
    }
    return llvm::Constant::getNullValue(T);
  }
  llvm::Function *pickFn(size_t SI) { // mostly later functions, so that most executions terminate
    auto &V = BySig[SI];
    if (V.empty()) return nullptr;
    if (R.chance(1, 10)) return R.pick(V);
    std::vector<llvm::Function *> L;
    for (auto *X : V)
      if (Idx[X] > CurIdx) L.push_back(X);
    return L.empty() ? nullptr : R.pick(L);
  }
  llvm::Function *anyFn(llvm::FunctionType *FT) {
    for (size_t I = 0; I < Sigs.size(); ++I)
      if (Sigs[I] == FT) {
        if (auto *X = pickFn(I)) return X;
        if (!ExtBySig[I].empty()) return ExtBySig[I][0];
      }
    return nullptr;
  }
  llvm::Value *slot(llvm::Type *T) {
    std::vector<llvm::Value *> C;
    for (auto *S : Slots)
      if (elemOf(S) == T) C.push_back(S);
    for (auto *G : Globs)
      if (G->getValueType() == T && R.chance(1, 2)) C.push_back(G);
    return C.empty() ? nullptr : R.pick(C);
  }
  void here(llvm::Value *V) {
    if (!V->getType()->isVoidTy()) Here.push_back({V->getType(), V});
  }
  llvm::Value *val(llvm::Type *T) {
    if (R.chance(2, 3)) {
      std::vector<llvm::Value *> C;
      for (auto &[Ty, V] : Here)
        if (Ty == T) C.push_back(V);
      if (!C.empty()) return R.pick(C);
    }
    if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T)) {
      auto *E = PT->getPointerElementType();
      if (!E->isFunctionTy() && R.chance(1, 2))
        if (auto *S = slot(E)) return S; // address of a variable
    }
    if (R.chance(3, 4))
      if (auto *S = slot(T)) {
        auto *L = B->CreateLoad(T, S);
        here(L);
        return L;
      }
    return konst(T);
  }
  llvm::Value *ptrTo(llvm::Type *E) { // a pointer that is certainly valid
    if (R.chance(1, 3))
      if (auto *S = slot(E)) return S;
    for (auto &[Ty, V] : Here)
      if (Ty == E->getPointerTo() && R.chance(1, 3)) return V;
    if (auto *S = slot(E)) return S;
    return nullptr;
  }
  std::vector<llvm::Value *> args(llvm::FunctionType *FT) {
    std::vector<llvm::Value *> A;
    for (auto *T : FT->params()) {
      llvm::Value *V = nullptr;
      if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T))
        if (!PT->getPointerElementType()->isFunctionTy()) V = ptrTo(PT->getPointerElementType());
      A.push_back(V ? V : val(T));
    }
    if (FT->isVarArg())
      for (unsigned N = R(3); N--;) A.push_back(val(R.chance(1, 2) ? I32 : P32));
    return A;
  }
  llvm::Value *calleeFor(unsigned &SI) {
    SI = R(Sigs.size());
    for (unsigned K = 0; K < 4 && BySig[SI].empty(); ++K) SI = R(Sigs.size());
    if (O.Indirect && R.chance(1, 3) && !Sigs[SI]->isVarArg()) {
      for (unsigned K = 0; K < 6 && !slot(Sigs[SI]->getPointerTo()); ++K) SI = R(Sigs.size() - (O.VarArgs ? 2 : 1));
      auto *T = Sigs[SI]->getPointerTo();
      if (!Sigs[SI]->isVarArg() && slot(T)) return val(T);
    }
    if (O.Decls && O.ExtCalls && (BySig[SI].empty() || R.chance(1, 5)) && !ExtBySig[SI].empty()) return R.pick(ExtBySig[SI]);
    return pickFn(SI);
  }
  void inst() {
    switch (R(15)) {
    case 0: case 1: { // arithmetic
      llvm::Type *T = R.chance(2, 3) ? I32 : R.chance(1, 2) ? I64 : I8;
      static const llvm::Instruction::BinaryOps Ops[] = {llvm::Instruction::Add, llvm::Instruction::Sub, llvm::Instruction::Mul,
                                                         llvm::Instruction::And, llvm::Instruction::Xor};
      auto *A = val(T), *C = val(T);
      auto *I = llvm::BinaryOperator::Create(Ops[R(5)], A, C);
      B->Insert(I);
      here(I);
      break;
    }
    case 2: { // casts
      auto *V = val(I32);
      unsigned K = R(4);
      auto *C = llvm::CastInst::Create(K == 0 ? llvm::Instruction::SExt : K == 1 ? llvm::Instruction::ZExt : llvm::Instruction::Trunc, V, K < 2 ? I64 : K == 2 ? I8 : I16);
      B->Insert(C);
      here(C);
      break;
    }
    case 3: case 4: case 5: { // store
      auto *T = R.pick(SlotTys);
      if (auto *Sl = ptrTo(T)) {
        llvm::Value *V = nullptr;
        if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T))
          if (!PT->getPointerElementType()->isFunctionTy()) V = ptrTo(PT->getPointerElementType());
        if (T->isStructTy()) break;
        B->CreateStore(V ? V : val(T), Sl);
      }
      break;
    }
    case 6: { // load
      auto *T = R.pick(SlotTys);
      if (T->isStructTy()) break;
      if (auto *Sl = ptrTo(T)) here(B->CreateLoad(T, Sl));
      break;
    }
    case 7: { // field
      if (!ST) break;
      if (auto *S = ptrTo(ST)) {
        unsigned K = R(3);
        llvm::Value *G;
        if (K == 2) {
          llvm::Value *Ix[3] = {B->getInt32(0), B->getInt32(2), B->getInt32(R(3))};
          G = B->CreateInBoundsGEP(ST, S, Ix);
        } else
          G = B->CreateStructGEP(ST, S, K);
        here(G);
        if (K == 1) {
          if (R.chance(1, 2)) { if (auto *Q = ptrTo(I32)) B->CreateStore(Q, G); }
        } else if (R.chance(1, 2))
          B->CreateStore(val(I32), G);
        else
          here(B->CreateLoad(I32, G));
      }
      break;
    }
    case 8: { // select
      auto *T = R.chance(1, 2) ? I32 : P32;
      auto *X = val(T), *Y = val(T);
      if (T == P32) { if (auto *Q = ptrTo(I32)) X = Q; if (auto *Q = ptrTo(I32)) Y = Q; }
      auto *Sl = llvm::SelectInst::Create(cond(), X, Y);
      B->Insert(Sl);
      here(Sl);
      break;
    }
    case 9: { // heap
      if (!O.Heap) break;
      auto *C = B->CreateCall(Malloc, {B->getInt64(R.chance(1, 2) ? 4 : 64)});
      llvm::Type *T = R.chance(1, 2) || !ST ? I32 : (llvm::Type *)ST;
      auto *Ca = new llvm::BitCastInst(C, T->getPointerTo());
      B->Insert(Ca);
      here(Ca);
      if (T == I32 && O.InitAll) B->CreateStore(B->getInt32(0), Ca);
      break;
    }
    case 10: { // bitcast round trip
      if (auto *Q = ptrTo(I32)) {
        auto *Ca = new llvm::BitCastInst(Q, P8);
        B->Insert(Ca);
        auto *Cb = new llvm::BitCastInst(Ca, P32);
        B->Insert(Cb);
        here(Cb);
      }
      break;
    }
    default: { // call
      unsigned SI;
      auto *C = calleeFor(SI);
      if (!C) break;
      auto A = args(Sigs[SI]);
      here(B->CreateCall(Sigs[SI], C, A));
    }
    }
    if (O.Dbg && SP && R.chance(1, 6)) dbgValue();
  }
  void loc() {
    if (SP) B->SetCurrentDebugLocation(llvm::DILocation::get(*P.LC, Line++, 1 + R(20), SP));
  }
  llvm::DILocalVariable *dvar() {
    return DIB->createAutoVariable(SP, "v" + std::to_string(R(1000)), DIF, Line, DIB->createBasicType("int", 32, llvm::dwarf::DW_ATE_signed));
  }
  void dbgValue() {
    auto *L = llvm::DILocation::get(*P.LC, Line, 1, SP);
    DIB->insertDbgValueIntrinsic(B->getInt32(3), dvar(), DIB->createExpression(), L, B->GetInsertBlock());
  }
  llvm::Value *cond() {
    auto *X = val(I32);
    auto *C = new llvm::ICmpInst(llvm::CmpInst::ICMP_SGT, X, B->getInt32(R(5)));
    B->Insert(C);
    return C;
  }
  void body(llvm::Function *Fn) {
    F = Fn;
    CurIdx = Idx.count(Fn) ? Idx[Fn] : -1;
    Slots.clear();
    Here.clear();
    auto &LC = *P.LC;
    SP = nullptr;
    B->SetCurrentDebugLocation({});
    if (DIB && R.chance(3, 4)) {
      auto *SubT = DIB->createSubroutineType(DIB->getOrCreateTypeArray({}));
      SP = DIB->createFunction(DIF, Fn->getName(), "", DIF, Line, SubT, Line, llvm::DINode::FlagPrototyped, llvm::DISubprogram::SPFlagDefinition);
      Fn->setSubprogram(SP);
      loc();
    }
    unsigned NB = 1 + R(O.MaxBlocks);
    std::vector<llvm::BasicBlock *> BBs;
    auto *Entry = llvm::BasicBlock::Create(LC, "entry", F);
    for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    B->SetInsertPoint(Entry);
    if (SP && O.Dbg && R.chance(1, 3)) dbgValue(); // a debug intrinsic as first instruction
    std::vector<llvm::AllocaInst *> Als;
    for (auto *T : SlotTys)
      for (unsigned N = T == I32 ? 2 : T == ST || T == PP ? R(2) : 1; N--;) {
        auto *A = B->CreateAlloca(T);
        Als.push_back(A);
        if (SP && O.Dbg && R.chance(1, 3))
          DIB->insertDeclare(A, dvar(), DIB->createExpression(), llvm::DILocation::get(LC, Line, 1, SP), Entry);
      }
    for (auto &Arg : F->args()) {
      loc();
      if (R.chance(2, 3)) {
        auto *A = B->CreateAlloca(Arg.getType());
        B->CreateStore(&Arg, A);
        Slots.push_back(A);
      }
    }
    for (auto *A : Als) { // initialise
      loc();
      if (O.InitAll || R.chance(1, 2)) {
        auto *T = A->getAllocatedType();
        if (T->isStructTy()) {
          B->CreateStore(llvm::ConstantInt::get(I32, R(5)), B->CreateStructGEP(ST, A, 0));
          llvm::Value *Q = slot(I32);
          if (Q) B->CreateStore(Q, B->CreateStructGEP(ST, A, 1));
          for (unsigned K = 0; K < 3; ++K) {
            llvm::Value *Ix[3] = {B->getInt32(0), B->getInt32(2), B->getInt32(K)};
            B->CreateStore(llvm::ConstantInt::get(I32, R(5)), B->CreateInBoundsGEP(ST, A, Ix));
          }
        } else {
          llvm::Value *V = nullptr;
          if (auto *PT = llvm::dyn_cast<llvm::PointerType>(T))
            if (!PT->getPointerElementType()->isFunctionTy()) V = slot(PT->getPointerElementType());
          B->CreateStore(V ? V : konst(T), A);
        }
      }
      Slots.push_back(A);
    }
    B->CreateBr(BBs[0]);
    std::map<llvm::BasicBlock *, std::vector<llvm::BasicBlock *>> PhiBlocks;
    auto ret = [&] {
      auto *RT = F->getReturnType();
      if (RT->isVoidTy()) B->CreateRetVoid();
      else {
        llvm::Value *V = nullptr;
        if (auto *PT = llvm::dyn_cast<llvm::PointerType>(RT)) { // never return addresses of locals
          (void)PT;
          for (auto &Arg : F->args())
            if (Arg.getType() == RT && R.chance(2, 3)) V = &Arg;
          if (!V) V = konst(RT);
        } else
          V = val(RT);
        B->CreateRet(V);
      }
    };
    for (unsigned BI = 0; BI < NB; ++BI) {
      B->SetInsertPoint(BBs[BI]);
      Here.clear();
      for (auto &Arg : F->args()) Here.push_back({Arg.getType(), &Arg});
      if (O.Dbg && SP && R.chance(1, 5)) dbgValue();
      for (unsigned N = R(O.MaxInsts + 1); N--;) {
        loc();
        inst();
      }
      if (O.Dbg && SP && R.chance(1, 6)) dbgValue();
      loc();
      auto *T1 = BBs[R.chance(1, 4) ? R(NB) : BI + R(NB - BI)], *T2 = BBs[R.chance(1, 4) ? R(NB) : BI + R(NB - BI)];
      auto *Nx = BI + 1 < NB ? BBs[BI + 1] : T1;
      unsigned K = R(16);
      if (BI + 1 == NB || K == 0) ret();
      else if (K < 3) B->CreateBr(Nx);
      else if (K < 8) B->CreateCondBr(cond(), Nx, T1);
      else if (K == 8) B->CreateCondBr(cond(), Nx, Nx);
      else if (K == 9) {
        auto *V = val(I32);
        auto *SW = B->CreateSwitch(V, Nx, 3);
        SW->addCase(B->getInt32(1), T1);
        SW->addCase(B->getInt32(2), T2);
        if (R.chance(1, 2)) SW->addCase(B->getInt32(3), T1);
      } else if (K < 12 && O.Invoke) {
        unsigned SI;
        auto *C = calleeFor(SI);
        if (!C) { B->CreateBr(Nx); continue; }
        F->setPersonalityFn(Pers);
        auto *LP = llvm::BasicBlock::Create(LC, "lpad", F);
        auto A = args(Sigs[SI]);
        B->CreateInvoke(Sigs[SI], C, Nx, LP, A);
        B->SetInsertPoint(LP);
        auto *L = B->CreateLandingPad(llvm::StructType::get(P8, I32), 0);
        L->setCleanup(true);
        if (SP && O.Dbg && R.chance(1, 3)) dbgValue();
        if (auto *Sl = slot(I32)) B->CreateStore(B->getInt32(3), Sl);
        if (R.chance(1, 2)) B->CreateResume(L);
        else if (R.chance(1, 2)) B->CreateBr(T2);
        else B->CreateUnreachable();
      } else if (K == 12 && O.Guards) { // static variable initialisation
        auto *G = new llvm::GlobalVariable(*P.M, I64, false, llvm::GlobalValue::InternalLinkage, B->getInt64(0), "_ZGVZ" + std::to_string(P.M->global_size()) + "fE1x");
        auto *Sv = new llvm::GlobalVariable(*P.M, I32, false, llvm::GlobalValue::InternalLinkage, B->getInt32(0), "statvar");
        auto *Init = llvm::BasicBlock::Create(LC, "init", F), *End = llvm::BasicBlock::Create(LC, "initend", F);
        auto *BC = llvm::ConstantExpr::getBitCast(G, P8);
        auto *Ld = B->CreateLoad(I8, BC);
        Ld->setAtomic(llvm::AtomicOrdering::Acquire);
        Ld->setAlignment(llvm::Align(8));
        auto *Cm = B->CreateICmpEQ(Ld, B->getInt8(0));
        auto *Chk = llvm::BasicBlock::Create(LC, "initcheck", F);
        B->CreateCondBr(Cm, Chk, End, llvm::MDBuilder(LC).createBranchWeights(1, 1048575));
        B->SetInsertPoint(Chk);
        auto *GT = llvm::FunctionType::get(I32, {I64->getPointerTo()}, false);
        auto Acq = P.M->getOrInsertFunction("__cxa_guard_acquire", GT);
        auto *Rv = B->CreateCall(Acq, {G});
        auto *TB = B->CreateICmpNE(Rv, B->getInt32(0));
        B->CreateCondBr(TB, Init, End);
        B->SetInsertPoint(Init);
        if (SP && O.Dbg && R.chance(1, 3)) dbgValue();
        B->CreateStore(B->getInt32(1 + R(9)), Sv);
        auto Rel = P.M->getOrInsertFunction("__cxa_guard_release", llvm::FunctionType::get(llvm::Type::getVoidTy(LC), {I64->getPointerTo()}, false));
        B->CreateCall(Rel, {G});
        B->CreateBr(End);
        B->SetInsertPoint(End);
        B->CreateBr(Nx);
      } else if (K == 13 && O.Unreach) B->CreateUnreachable();
      else if (K == 14 && O.IndirectBr && Nx != BBs[0]) {
        auto *IB = B->CreateIndirectBr(llvm::BlockAddress::get(F, Nx), 2);
        IB->addDestination(Nx);
        IB->addDestination(T1);
      } else if (K == 15 && O.Phis) { // diamond with a phi
        auto *L = llvm::BasicBlock::Create(LC, "l", F), *Rr = llvm::BasicBlock::Create(LC, "r", F), *J = llvm::BasicBlock::Create(LC, "j", F);
        auto *X = val(I32), *Y = val(I32);
        B->CreateCondBr(cond(), L, Rr);
        B->SetInsertPoint(L); B->CreateBr(J);
        B->SetInsertPoint(Rr); B->CreateBr(J);
        B->SetInsertPoint(J);
        auto *Ph = B->CreatePHI(I32, 2);
        Ph->addIncoming(X, L);
        Ph->addIncoming(Y, Rr);
        if (SP && O.Dbg && R.chance(1, 3)) dbgValue();
        if (auto *Sl = slot(I32)) B->CreateStore(Ph, Sl);
        B->CreateBr(Nx);
      } else B->CreateBr(T1);
    }
  }
  IrMod gen() {
    P.LC = std::make_unique<llvm::LLVMContext>();
    auto &LC = *P.LC;
    P.M = std::make_unique<llvm::Module>("gen", LC);
    auto &M = *P.M;
    M.setSourceFileName("gen.c");
    M.setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128");
    M.setTargetTriple("x86_64-pc-linux-gnu");
    llvm::IRBuilder<> Bd(LC);
    B = &Bd;
    I1 = Bd.getInt1Ty(); I8 = Bd.getInt8Ty(); I16 = Bd.getInt16Ty(); I32 = Bd.getInt32Ty(); I64 = Bd.getInt64Ty();
    P32 = I32->getPointerTo(); P8 = I8->getPointerTo(); PP = P32->getPointerTo();
    auto *V = Bd.getVoidTy();
    if (O.Structs) ST = llvm::StructType::create(LC, {I32, P32, llvm::ArrayType::get(I32, 3)}, "struct.S");
    if (O.Dbg && R.chance(2, 3)) {
      DIB = std::make_unique<llvm::DIBuilder>(M);
      DIF = DIB->createFile("gen.c", "/tmp");
      DIB->createCompileUnit(llvm::dwarf::DW_LANG_C, DIF, "gen", false, "", 0);
      M.addModuleFlag(llvm::Module::Warning, "Debug Info Version", llvm::DEBUG_METADATA_VERSION);
    }
    Sigs = {llvm::FunctionType::get(I32, {I32, P32}, false), llvm::FunctionType::get(V, {P32}, false), llvm::FunctionType::get(P32, {P32, I32}, false)};
    if (ST) Sigs.push_back(llvm::FunctionType::get(V, {ST->getPointerTo(), I32}, false));
    if (O.VarArgs) Sigs.push_back(llvm::FunctionType::get(I32, {I32}, true));
    if (O.PtrPtr) Sigs.push_back(llvm::FunctionType::get(V, {PP}, false));
    BySig.resize(Sigs.size());
    ExtBySig.resize(Sigs.size());
    SlotTys = {I32, I64, I8, P32};
    if (ST) SlotTys.push_back(ST);
    if (O.PtrPtr) SlotTys.push_back(PP);
    if (O.Indirect) for (unsigned I = 0; I < 2; ++I) SlotTys.push_back(Sigs[R(Sigs.size() - (O.VarArgs ? 2 : 1))]->getPointerTo());
    if (O.Heap) Malloc = llvm::Function::Create(llvm::FunctionType::get(P8, {I64}, false), llvm::GlobalValue::ExternalLinkage, "malloc", M);
    if (O.Invoke) Pers = llvm::Function::Create(llvm::FunctionType::get(I32, true), llvm::GlobalValue::ExternalLinkage, "__gxx_personality_v0", M);
    if (O.Decls)
      for (size_t I = 0; I < Sigs.size(); ++I)
        {
          auto *E = llvm::Function::Create(Sigs[I], llvm::GlobalValue::ExternalLinkage, "ext" + std::to_string(I), M);
          ExtBySig[I].push_back(E);
          P.Decls.push_back(E);
        }
    unsigned NF = 1 + O.MaxFuns / 2 + R(O.MaxFuns);
    auto *Main = llvm::Function::Create(llvm::FunctionType::get(I32, {}, false), llvm::GlobalValue::ExternalLinkage, "main", M);
    P.Funs.push_back(Main);
    for (unsigned I = 0; I < NF; ++I) {
      unsigned SI = R(Sigs.size());
      auto *Fn = llvm::Function::Create(Sigs[SI], R.chance(1, 4) ? llvm::GlobalValue::InternalLinkage : llvm::GlobalValue::ExternalLinkage, "f" + std::to_string(I), M);
      BySig[SI].push_back(Fn);
      Idx[Fn] = I;
      P.Funs.push_back(Fn);
    }
    for (unsigned I = 0, N = 1 + R(4); I < N; ++I) {
      auto *T = R.pick(SlotTys);
      Globs.push_back(nullptr);
      Globs.pop_back();
      auto *Init = T->isStructTy() ? llvm::ConstantAggregateZero::get(T) : konst(T);
      Globs.push_back(new llvm::GlobalVariable(M, T, false, llvm::GlobalValue::InternalLinkage, Init, "g" + std::to_string(I)));
    }
    Globs.push_back(new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::ExternalLinkage, Bd.getInt32(7), "gi"));
    for (auto *Fn : P.Funs) body(Fn);
    if (O.Ctors && R.chance(1, 3)) {
      auto *C = llvm::Function::Create(llvm::FunctionType::get(V, {}, false), llvm::GlobalValue::InternalLinkage, "_GLOBAL__sub_I_gen", M);
      body(C);
      llvm::appendToGlobalCtors(M, C, 65535);
      P.Funs.push_back(C);
      if (R.chance(1, 2)) {
        auto *D = llvm::Function::Create(llvm::FunctionType::get(V, {}, false), llvm::GlobalValue::InternalLinkage, "gdtor", M);
        body(D);
        llvm::appendToGlobalDtors(M, D, 65535);
        P.Funs.push_back(D);
      }
    }
    if (O.Aliases && R.chance(1, 4) && P.Funs.size() > 1) llvm::GlobalAlias::create("alias0", P.Funs[1]);
    if (DIB) DIB->finalize();
    DIB.reset();
    std::string Err;
    llvm::raw_string_ostream OS(Err);
    if (llvm::verifyModule(M, &OS)) {
      fprintf(stderr, "harness: generated invalid module: %s\n%s\n", OS.str().c_str(), modStr(M).c_str());
      abort();
    }
    return std::move(P);
  }
};
inline IrMod genIr(Rng &R, IrOpts O = {}) { return IrGen(R, O).gen(); }

} // namespace vf
