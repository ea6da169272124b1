// P07: linear constant analysis is sound for every path and precise on linear computations.
#include "exec.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/NoFolder.h"
#include "llvm/IR/Verifier.h"
using namespace vf;
using BldT = llvm::IRBuilder<llvm::NoFolder>;

struct LcaProg {
  std::unique_ptr<llvm::LLVMContext> LC;
  std::unique_ptr<llvm::Module> M;
  bool Loops = false, Rec = false;
};

// Scalars only: integer locals, integer globals, integer parameters, and integers passed by reference
// (never two references to one variable, never a reference to a global).
static LcaProg gen(Rng &R) {
  LcaProg P;
  P.LC = std::make_unique<llvm::LLVMContext>();
  auto &LC = *P.LC;
  P.M = std::make_unique<llvm::Module>("lca", LC);
  auto &M = *P.M;
  BldT B(LC);
  P.Loops = R.chance(1, 4);
  P.Rec = R.chance(1, 6);
  unsigned Wd[] = {32, 32, 64, 16, 8};
  auto rty = [&] { return llvm::IntegerType::get(LC, Wd[R(R.chance(1, 3) ? 5 : 2)]); };
  auto cst = [&](llvm::Type *T) -> llvm::Value * {
    int64_t V;
    switch (R(8)) {
    case 0: V = 0; break;
    case 1: V = -1; break;
    case 2: V = (int64_t)1 << (T->getIntegerBitWidth() - 1); break;
    case 3: V = ((uint64_t)1 << (T->getIntegerBitWidth() - 1)) - 1; break;
    case 4: V = -R.range(1, 9); break;
    default: V = R.range(1, 12);
    }
    return llvm::ConstantInt::get(T, (uint64_t)V, true);
  };
  unsigned NG = R(4), NF = 1 + R(4);
  std::vector<llvm::GlobalVariable *> Gs;
  for (unsigned I = 0; I < NG; ++I) {
    auto *T = rty();
    Gs.push_back(new llvm::GlobalVariable(M, T, false, llvm::GlobalValue::ExternalLinkage, llvm::cast<llvm::Constant>(cst(T)), "g" + std::to_string(I)));
  }
  std::vector<llvm::Function *> Fs;
  for (unsigned I = 0; I < NF; ++I) {
    std::vector<llvm::Type *> PT;
    if (I)
      for (unsigned N = R(4); N--;) {
        auto *T = rty();
        PT.push_back(R.chance(1, 2) ? (llvm::Type *)T : T->getPointerTo());
      }
    llvm::Type *RT = I == 0 ? B.getInt32Ty() : R.chance(1, 4) ? B.getVoidTy() : (llvm::Type *)rty();
    Fs.push_back(llvm::Function::Create(llvm::FunctionType::get(RT, PT, false), llvm::GlobalValue::ExternalLinkage, I ? "f" + std::to_string(I) : "main", M));
  }
  for (unsigned FI = 0; FI < NF; ++FI) {
    auto *F = Fs[FI];
    unsigned NB = 1 + R(5), NV = 1 + R(4);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    B.SetInsertPoint(BBs[0]);
    struct Var { llvm::Value *P; llvm::Type *T; bool Glob; };
    std::vector<Var> Vars;
    for (unsigned I = 0; I < NV; ++I) { auto *T = rty(); Vars.push_back({B.CreateAlloca(T, nullptr, "v" + std::to_string(I)), T, false}); }
    for (auto *G : Gs) Vars.push_back({G, G->getValueType(), true});
    std::vector<llvm::Value *> Entry; // values available everywhere
    for (auto &A : F->args()) {
      if (A.getType()->isPointerTy()) Vars.push_back({&A, A.getType()->getPointerElementType(), false});
      else Entry.push_back(&A);
    }
    for (auto &V : Vars) // most variables are initialised
      if (llvm::isa<llvm::AllocaInst>(V.P) && R.chance(4, 5)) B.CreateStore(cst(V.T), V.P);
    for (unsigned BI = 0; BI < NB; ++BI) {
      B.SetInsertPoint(BBs[BI]);
      std::vector<llvm::Value *> Av = Entry;
      auto val = [&](llvm::Type *T, bool LitOk) -> llvm::Value * {
        std::vector<llvm::Value *> C;
        for (auto *V : Av) if (V->getType() == T) C.push_back(V);
        if (!C.empty() && (!LitOk || R.chance(3, 4))) return R.pick(C);
        if (LitOk && R.chance(1, 2)) return cst(T);
        std::vector<Var> VC;
        for (auto &V : Vars) if (V.T == T) VC.push_back(V);
        if (!VC.empty()) { auto *L = B.CreateLoad(T, R.pick(VC).P); Av.push_back(L); return L; }
        return cst(T);
      };
      for (unsigned N = R(7); N--;) {
        unsigned K = R(12);
        auto &V = R.pick(Vars);
        if (K < 2) B.CreateStore(val(V.T, true), V.P);
        else if (K < 4) Av.push_back(B.CreateLoad(V.T, V.P));
        else if (K < 9) {
          static const llvm::Instruction::BinaryOps Ops[] = {llvm::Instruction::Add, llvm::Instruction::Sub, llvm::Instruction::Mul, llvm::Instruction::SDiv, llvm::Instruction::UDiv,
                                                             llvm::Instruction::SRem, llvm::Instruction::URem, llvm::Instruction::And, llvm::Instruction::Or, llvm::Instruction::Xor, llvm::Instruction::Shl, llvm::Instruction::AShr};
          auto *T = V.T;
          llvm::Value *A = val(T, R.chance(1, 6)), *C = R.chance(1, 5) ? val(T, false) : cst(T);
          if (R.chance(1, 3)) std::swap(A, C);
          auto *X = B.CreateBinOp(Ops[R(R.chance(1, 2) ? 3 : 12)], A, C);
          Av.push_back(X);
          if (R.chance(2, 3)) B.CreateStore(X, V.P);
        } else if (K < 11 && NF > 1) {
          unsigned CI = P.Rec ? 1 + R(NF - 1) : FI + 1 < NF ? FI + 1 + R(NF - FI - 1) : 0;
          if (!CI) continue;
          auto *Ca = Fs[CI];
          std::vector<llvm::Value *> Args;
          std::set<llvm::Value *> Used;
          bool Ok = true;
          for (auto &A : Ca->args()) {
            if (A.getType()->isPointerTy()) {
              std::vector<llvm::Value *> C;
              for (auto &V : Vars) if (!V.Glob && V.P->getType() == A.getType() && !Used.count(V.P)) C.push_back(V.P);
              if (C.empty()) { Ok = false; break; }
              Args.push_back(R.pick(C));
              Used.insert(Args.back());
            } else Args.push_back(val(A.getType(), true));
          }
          if (!Ok) continue;
          auto *X = B.CreateCall(Ca, Args);
          if (!X->getType()->isVoidTy()) { Av.push_back(X); for (auto &V : Vars) if (V.T == X->getType() && R.chance(1, 2)) { B.CreateStore(X, V.P); break; } }
        } else if (K == 11 && R.chance(1, 2)) { // values the analysis must treat as unknown
          auto *T = V.T;
          llvm::Value *X;
          auto *A = val(T, false);
          auto *T2 = rty();
          if (R.chance(1, 4)) X = B.CreateSelect(B.CreateICmpEQ(A, cst(T)), cst(T), val(T, false));
          else if (T2->getBitWidth() > T->getIntegerBitWidth()) X = R.chance(1, 2) ? B.CreateZExt(A, T2) : B.CreateSExt(A, T2);
          else if (T2->getBitWidth() < T->getIntegerBitWidth()) X = B.CreateTrunc(A, T2);
          else X = B.CreateFreeze(A);
          Av.push_back(X);
          for (auto &V : Vars) if (V.T == X->getType() && R.chance(1, 2)) { B.CreateStore(X, V.P); break; }
        } else if (K == 11) {
          auto *T = V.T;
          auto ID = R.chance(1, 3) ? llvm::Intrinsic::sadd_with_overflow : R.chance(1, 2) ? llvm::Intrinsic::ssub_with_overflow : llvm::Intrinsic::smul_with_overflow;
          auto *D = llvm::Intrinsic::getDeclaration(&M, ID, {T});
          auto *X = B.CreateCall(D, {val(T, false), R.chance(4, 5) ? cst(T) : val(T, false)});
          auto *E = B.CreateExtractValue(X, 0);
          Av.push_back(E);
          if (R.chance(1, 3)) B.CreateSelect(B.CreateExtractValue(X, 1), E, cst(T));
          B.CreateStore(E, V.P);
        }
      }
      if (R.chance(1, 10)) { // the branches compute one variable from a shared value in similar ways
        auto &V = R.pick(Vars);
        auto *X = val(V.T, false);
        static const llvm::Instruction::BinaryOps Ops[] = {llvm::Instruction::Sub, llvm::Instruction::Add, llvm::Instruction::Mul, llvm::Instruction::SDiv, llvm::Instruction::And};
        unsigned O1 = R(5), O2 = R.chance(2, 3) ? O1 : R(5);
        bool Left = R.chance(1, 2), Left2 = R.chance(3, 4) ? Left : !Left;
        auto *J = llvm::BasicBlock::Create(LC, "j", F);
        auto *TB = llvm::BasicBlock::Create(LC, "t", F, J), *EB = llvm::BasicBlock::Create(LC, "e", F, J);
        B.CreateCondBr(B.CreateICmpSLT(val(V.T, false), cst(V.T)), TB, EB);
        for (int S = 0; S < 2; ++S) {
          B.SetInsertPoint(S ? EB : TB);
          auto *L = cst(V.T);
          if (llvm::cast<llvm::ConstantInt>(L)->isZero()) L = llvm::ConstantInt::get(V.T, 2 + S);
          bool Lf = S ? Left2 : Left;
          auto *Y = B.CreateBinOp(Ops[S ? O2 : O1], Lf ? L : X, Lf ? X : L);
          B.CreateStore(Y, V.P);
          B.CreateBr(J);
        }
        B.SetInsertPoint(J);
      }
      auto *Fwd = BI + 1 < NB ? BBs[BI + 1 + R(NB - BI - 1)] : nullptr;
      auto *Any = P.Loops && NB > 1 ? BBs[1 + R(NB - 1)] : Fwd;
      if (!Fwd || R.chance(1, 10)) {
        if (F->getReturnType()->isVoidTy()) B.CreateRetVoid();
        else B.CreateRet(val(F->getReturnType(), true));
      } else if (R.chance(1, 3)) B.CreateBr(BBs[BI + 1]);
      else if (R.chance(1, 8)) { auto *SW = B.CreateSwitch(val(B.getInt32Ty(), false), BBs[BI + 1], 2); SW->addCase(B.getInt32(1), Fwd); SW->addCase(B.getInt32(2), Any); }
      else { auto *T = R.pick(Vars).T; B.CreateCondBr(B.CreateICmpSLT(val(T, false), cst(T)), BBs[BI + 1], Any); }
    }
  }
  return P;
}

static bool fits(int64_t V, unsigned W) { return W >= 64 || Exec::sext(V, W) == V; }
// linear step with both operands known, in the analysis' documented operations; no overflow
static bool linear(unsigned Op, int64_t A, int64_t B, unsigned W, int64_t &R) {
  __int128 X;
  switch (Op) {
  case llvm::Instruction::Add: X = (__int128)A + B; break;
  case llvm::Instruction::Sub: X = (__int128)A - B; break;
  case llvm::Instruction::Mul: X = (__int128)A * B; break;
  case llvm::Instruction::UDiv: case llvm::Instruction::URem: if (A < 0 || B <= 0) return false; X = Op == llvm::Instruction::UDiv ? A / B : A % B; break;
  case llvm::Instruction::SDiv: case llvm::Instruction::SRem: if (!B || (B == -1 && A == Exec::sext(1ull << (W - 1), W))) return false; X = Op == llvm::Instruction::SDiv ? (__int128)A / B : (__int128)A % B; break;
  case llvm::Instruction::And: X = A & B; break;
  case llvm::Instruction::Or: X = A | B; break;
  case llvm::Instruction::Xor: X = A ^ B; break;
  default: return false;
  }
  if (X != (int64_t)X || !fits((int64_t)X, W)) return false;
  R = (int64_t)X;
  return true;
}
static bool isLit(const llvm::Value *V) { return llvm::isa<llvm::ConstantInt>(V); }

struct Obs { // what all paths did to one variable at one statement
  bool Seen = false, TKnown = true, LKnown = true;
  int64_t T = 0, L = 0;
  bool TConf = false, LConf = false; // values differ
  uint64_t Chain = 0;                // how the linear value was computed
  void add(const PVal &V) {
    if (!Seen) { Seen = true; T = V.I; L = V.S.Lin; Chain = V.S.Origin; TKnown = V.Known; LKnown = V.S.LinKnown; return; }
    if (!V.Known) TKnown = false; else if (V.I != T) TConf = true;
    if (!V.S.LinKnown) LKnown = false; else if (V.S.Lin != L || V.S.Origin != Chain) LConf = true;
  }
};
using Key = std::pair<const llvm::Instruction *, const llvm::Value *>;

struct LcaObs : Observer {
  std::map<Key, Obs> At;
  std::set<std::pair<const llvm::Instruction *, uint64_t>> States;
  uint64_t Events = 0;
  void before(Exec &E, const llvm::Instruction *I) override {
    auto &Fr = E.Stack.back();
    for (auto &[V, P] : Fr.Regs) {
      if (P.Kind == PVal::Int) { At[{I, V}].add(P); ++Events; }
      else if (P.Kind == PVal::Ptr && (llvm::isa<llvm::AllocaInst>(V) || llvm::isa<llvm::Argument>(V))) {
        auto It = E.Mem[P.Obj].Slots.find(P.Off);
        PVal U;
        U.Kind = PVal::Int;
        At[{I, V}].add(It == E.Mem[P.Obj].Slots.end() ? U : It->second);
        ++Events;
      }
    }
    for (auto &[G, O] : E.GlobObj) {
      auto It = E.Mem[O].Slots.find(0);
      if (It != E.Mem[O].Slots.end() && It->second.Kind == PVal::Int) At[{I, G}].add(It->second);
    }
  }
  void constant(const llvm::Constant *, PVal &R) override { R.S.Origin = mix(R.I); }
  void cast(const llvm::Instruction *I, const PVal &, PVal &R) override { if (!I->getType()->isPointerTy()) R.S.LinKnown = false; }
  void binop(const llvm::Instruction *I, const PVal &A, const PVal &B, PVal &R) override {
    R.S.LinKnown = false;
    if (!llvm::isa<llvm::BinaryOperator>(I)) return;
    if (!isLit(I->getOperand(0)) && !isLit(I->getOperand(1))) return;
    if (!A.S.LinKnown || !B.S.LinKnown) return;
    R.S.Origin = mixn(I->getOpcode(), (uintptr_t)I->getOperand(0), (uintptr_t)I->getOperand(1), A.S.Origin, B.S.Origin);
    R.S.LinKnown = linear(I->getOpcode(), A.S.Lin, B.S.Lin, I->getType()->getIntegerBitWidth(), R.S.Lin);
  }
  PVal external(Exec &, const llvm::CallBase *CS, const llvm::Function *, std::vector<PVal> &Args) override {
    PVal R;
    if (auto *BI = llvm::dyn_cast<llvm::BinaryOpIntrinsic>(CS)) {
      PVal V;
      V.Kind = PVal::Int;
      unsigned W = BI->getLHS()->getType()->getIntegerBitWidth();
      if (Args[0].Known && Args[1].Known)
        if (auto X = Exec::arith(BI->getBinaryOp(), Args[0].I, Args[1].I, W)) { V.Known = true; V.I = *X; }
      if ((isLit(BI->getLHS()) || isLit(BI->getRHS())) && Args[0].S.LinKnown && Args[1].S.LinKnown)
        V.S.LinKnown = linear(BI->getBinaryOp(), Args[0].S.Lin, Args[1].S.Lin, W, V.S.Lin);
      V.S.Origin = mixn(BI->getBinaryOp(), (uintptr_t)BI->getLHS(), (uintptr_t)BI->getRHS(), Args[0].S.Origin, Args[1].S.Origin);
      R.Kind = PVal::Agg;
      R.Els = std::make_shared<std::vector<PVal>>(2);
      (*R.Els)[0] = V;
      (*R.Els)[1].Kind = PVal::Int; // the flag: not modelled, must be reported as unknown
    }
    return R;
  }
};

// Programs whose integers the analysis does not track at all (recorded findings).
static const std::pair<const char *, const char *> Fixed[] = {
    {"external-result", R"(declare i32 @ext()
define i32 @main() {
  %x = alloca i32
  store i32 5, i32* %x
  %c = call i32 @ext()
  %b = icmp sgt i32 %c, 0
  br i1 %b, label %t, label %e
t:
  store i32 %c, i32* %x
  br label %e
e:
  %r = load i32, i32* %x
  ret i32 %r
})"},
    {"entry-parameter", R"(define i32 @main(i32 %a) {
  %x = alloca i32
  store i32 5, i32* %x
  %b = icmp sgt i32 %a, 0
  br i1 %b, label %t, label %e
t:
  store i32 %a, i32* %x
  br label %e
e:
  %r = load i32, i32* %x
  ret i32 %r
})"},
    {"load-through-pointer", R"(define i32 @main() {
  %x = alloca i32
  %y = alloca i32
  %p = alloca i32*
  store i32 5, i32* %x
  store i32 6, i32* %y
  store i32* %y, i32** %p
  %q = load i32*, i32** %p
  %v = load i32, i32* %q
  br i1 undef, label %t, label %e
t:
  store i32 %v, i32* %x
  br label %e
e:
  %r = load i32, i32* %x
  ret i32 %r
})"}};

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  LcaProg P;
  std::string Pre;
  if (C.Case < std::size(Fixed)) {
    P.LC = std::make_unique<llvm::LLVMContext>();
    llvm::SMDiagnostic D;
    P.M = llvm::parseAssemblyString(Fixed[C.Case].second, D, *P.LC);
    if (!P.M) { D.print("fixed", llvm::errs()); abort(); }
    Pre = std::string("untracked:") + Fixed[C.Case].first + ":";
  } else P = gen(R);
  C.Artifact = modStr(*P.M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  if (llvm::verifyModule(*P.M, &EO)) { fprintf(stderr, "generator: %s\n", EO.str().c_str()); abort(); }
  C.note();
  // ---- all paths (or a sample)
  LcaObs O;
  Paths Pa;
  unsigned Runs = 0;
  bool Complete = true;
  const auto *Main = P.M->getFunction("main");
  std::set<const llvm::Instruction *> Visited;
  do {
    Exec E(*P.M, O, [&](unsigned N) { return Pa.choose(N); });
    E.run(Main, {});
    if (E.Stopped) Complete = false;
    ++Runs;
  } while (Runs < 120 && Pa.next());
  if (!Pa.Exhausted) {
    Complete = false;
    Rng Q(R.next());
    for (int I = 0; I < 60; ++I) {
      Exec E(*P.M, O, [&](unsigned N) { return (unsigned)Q(N); });
      E.run(Main, {});
      ++Runs;
    }
  }
  C.count("paths", Runs);
  if (Complete) C.count("programs_with_all_paths");
  for (auto &[K, Ob] : O.At) Visited.insert(K.first);
  // ---- the analysis
  psr::LLVMProjectIRDB IRDB(P.M.get());
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  psr::LLVMBasedICFG ICF(&IRDB, psr::CallGraphAnalysisType::OTF, {"main"}, &TH, &PT, psr::Soundness::Soundy, false);
  psr::IDELinearConstantAnalysis Prob(&IRDB, &ICF, {"main"});
  psr::IDESolver Solver(Prob, &ICF);
  Solver.solve();
  uint64_t H = 0, Consts = 0;
  for (auto &[K, Ob] : O.At) {
    auto [I, V] = K;
    auto Row = Solver.resultsAt(I, true);
    auto It = Row.find(V);
    if (V->getType()->isPointerTy() && !V->getType()->getPointerElementType()->isIntegerTy()) continue;
    std::optional<int64_t> Rep;
    bool Bot = false, Absent = It == Row.end() || It->second.isTop();
    if (!Absent) { Bot = It->second.isBottom(); if (auto *X = It->second.getValueOrNull()) Rep = *X; }
    if (auto X = Solver.resultAt(I, V); (It == Row.end() ? !X.isTop() : !(X == It->second))) C.violation("result-views", instStr(I) + " " + instStr(V));
    std::string Wh = "at '" + instStr(I) + "' in " + I->getFunction()->getName().str() + " variable '" + instStr(V) + "'";
    if (Rep) {
      ++Consts;
      H = mixn(H, hstr(instStr(I)), *Rep);
      if (Ob.TConf || !Ob.TKnown || Ob.T != *Rep)
        C.violation(Pre + "unsound", Wh + " reported constant " + std::to_string(*Rep) + " but executions see " + (Ob.TKnown ? Ob.TConf ? "several values, e.g. " + std::to_string(Ob.T) : std::to_string(Ob.T) : "unknown values"));
      C.count("constants_confirmed");
    } else {
      if (Bot) C.count("bottoms");
      if (Pre.empty() && Complete && Ob.LKnown && !Ob.LConf)
        C.violation(Bot ? "imprecise" : "missing", Wh + " is the linear constant " + std::to_string(Ob.L) + " on every path, reported " + (Bot ? "Bottom" : "nothing"));
    }
    if (Ob.Seen && (Ob.TConf || !Ob.TKnown)) C.count("non_constants_seen");
  }
  C.count("events", O.Events);
  if (Consts > 3) C.nontrivial(H);
  C.sample(C.Artifact);
}
