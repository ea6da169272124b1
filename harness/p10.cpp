// P10: the typestate analysis against the states of handles in concrete executions.
#include "exec.h"
#include "phasar/DataFlow/IfdsIde/Solver/IDESolver.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMZeroValue.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.h"
#include "phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/NoFolder.h"
#include "llvm/IR/Verifier.h"
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }
using St = psr::CSTDFILEIOState;
using I_t = const llvm::Instruction *;
using V_t = const llvm::Value *;
static const char *name(St S) {
  switch (S) { case St::UNINIT: return "UNINIT"; case St::OPENED: return "OPENED"; case St::CLOSED: return "CLOSED"; case St::ERROR: return "ERROR"; case St::BOT: return "BOT"; case St::TOP: return "TOP"; }
  return "?";
}

// the documented protocol, written independently
static St use(St S) { return S == St::OPENED ? St::OPENED : St::ERROR; }
static St close_(St S) { return S == St::OPENED ? St::CLOSED : St::ERROR; }

struct FileObs : Observer {
  llvm::Type *FP;
  std::map<int, St> State; // by handle object
  std::map<std::pair<I_t, V_t>, std::set<St>> Seen;
  uint64_t Events = 0;
  void alloca_(Exec &E, const llvm::AllocaInst *A, MemObj &) override {
    if (A->getAllocatedType() != FP) return;
    int Me = (int)E.Mem.size() - 1;
    int H = E.newObj(A);
    State[H] = St::UNINIT;
    PVal P;
    P.Kind = PVal::Ptr;
    P.Obj = H;
    E.Mem[Me].Slots[0] = P;
  }
  PVal external(Exec &E, const llvm::CallBase *CS, const llvm::Function *F, std::vector<PVal> &A) override {
    auto N = F->getName();
    PVal R;
    if (N == "fopen" || N == "fdopen") {
      R.Kind = PVal::Ptr;
      R.Obj = E.newObj(CS);
      State[R.Obj] = St::OPENED;
      return R;
    }
    for (auto &X : A)
      if (X.Kind == PVal::Ptr && State.count(X.Obj)) State[X.Obj] = N == "fclose" ? close_(State[X.Obj]) : N == "unrelated" ? State[X.Obj] : use(State[X.Obj]);
    if (CS->getType()->isIntegerTy()) R.Kind = PVal::Int;
    return R;
  }
  void before(Exec &E, I_t I) override {
    ++Events;
    for (auto &[V, P] : E.Stack.back().Regs) {
      if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(V)) {
        if (A->getAllocatedType() != FP || P.Kind != PVal::Ptr) continue;
        auto &C = E.Mem[P.Obj].Slots[0];
        if (C.Kind == PVal::Ptr && State.count(C.Obj)) Seen[{I, V}].insert(State[C.Obj]);
      }
    }
  }
};

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  llvm::LLVMContext LC;
  llvm::Module M("ts", LC);
  llvm::IRBuilder<llvm::NoFolder> B(LC);
  auto *FT = llvm::StructType::create(LC, {B.getInt32Ty(), B.getInt8PtrTy()}, "struct._IO_FILE");
  auto *FP = FT->getPointerTo();
  auto *I32 = B.getInt32Ty();
  auto *P8 = B.getInt8PtrTy();
  auto decl = [&](const char *N, llvm::Type *RT, std::vector<llvm::Type *> A, bool VA = false) {
    return llvm::Function::Create(llvm::FunctionType::get(RT, A, VA), llvm::GlobalValue::ExternalLinkage, N, M);
  };
  auto *FOpen = decl("fopen", FP, {P8, P8}), *FDOpen = decl("fdopen", FP, {I32, P8}), *FClose = decl("fclose", I32, {FP}), *FGetc = decl("fgetc", I32, {FP}), *FPutc = decl("fputc", I32, {I32, FP}),
       *FPrintf = decl("fprintf", I32, {FP, P8}, true), *FRead = decl("fread", B.getInt64Ty(), {P8, B.getInt64Ty(), B.getInt64Ty(), FP}), *Cond = decl("cond", I32, {}), *Unrel = decl("unrelated", B.getVoidTy(), {I32}), *Pers = decl("__gxx_personality_v0", I32, {}, true);
  auto *Str = new llvm::GlobalVariable(M, llvm::ArrayType::get(B.getInt8Ty(), 4), true, llvm::GlobalValue::PrivateLinkage, llvm::ConstantDataArray::getString(LC, "abc"), "s");
  auto str = [&] { return llvm::ConstantExpr::getBitCast(Str, P8); };
  unsigned NF = 1 + R(4);
  bool Calls = C.Case % 2, Loops = R.chance(1, 3), Rec = R.chance(1, 6), Inv = R.chance(1, 4), Straight = Calls && R.chance(1, 4); // a single path through the program
  if (Straight) Loops = Rec = Inv = false;
  if (!Calls) NF = 1;
  // kinds: 0 main, 1: void f(.., FILE*, ..), 2: FILE *f(void) (a wrapper of fopen), 3: void f(void), 4: FILE *f(FILE *) passes its argument on
  std::vector<llvm::Function *> Fs;
  std::vector<unsigned> Kind, Pos(NF, 0), Width(NF, 0);
  for (unsigned I = 0; I < NF; ++I) {
    unsigned K = I ? 1 + R(3) : 0;
    Kind.push_back(K);
    auto *RT = K == 2 ? (llvm::Type *)FP : K == 0 ? I32 : B.getVoidTy();
    std::vector<llvm::Type *> PT;
    if (K == 1) { // the handle is anywhere among the parameters
      Width[I] = 1 + (R.chance(1, 2) ? R(4) : 0);
      Pos[I] = R(Width[I]);
      for (unsigned J = 0; J < Width[I]; ++J) PT.push_back(J == Pos[I] ? (llvm::Type *)FP : R.chance(1, 2) ? (llvm::Type *)I32 : (llvm::Type *)P8);
      if (Pos[I]) C.count("handles_at_later_parameters");
    }
    Fs.push_back(llvm::Function::Create(llvm::FunctionType::get(RT, PT, false), llvm::GlobalValue::ExternalLinkage, I ? "f" + std::to_string(I) : "main", M));
  }
  for (unsigned FI = 0; FI < NF; ++FI) {
    auto *F = Fs[FI];
    unsigned NB = Straight ? 1 : 1 + R(6);
    std::vector<llvm::BasicBlock *> BBs;
    for (unsigned I = 0; I < NB; ++I) BBs.push_back(llvm::BasicBlock::Create(LC, "b" + std::to_string(I), F));
    B.SetInsertPoint(BBs[0]);
    auto *Var = B.CreateAlloca(FP, nullptr, "file");
    if (Kind[FI] == 1) B.CreateStore(F->getArg(Pos[FI]), Var);
    auto get = [&]() -> llvm::Value * { return B.CreateLoad(FP, Var); };
    auto call = [&](llvm::Function *Fn, std::vector<llvm::Value *> A) -> llvm::Value * {
      if (Inv && R.chance(1, 3)) {
        if (!F->hasPersonalityFn()) F->setPersonalityFn(Pers);
        auto *Cont = llvm::BasicBlock::Create(LC, "cont", F), *Pad = llvm::BasicBlock::Create(LC, "pad", F);
        auto *X = B.CreateInvoke(Fn->getFunctionType(), Fn, Cont, Pad, A);
        B.SetInsertPoint(Pad);
        auto *LP = B.CreateLandingPad(llvm::StructType::get(LC, {P8, I32}), 0);
        LP->setCleanup(true);
        B.CreateResume(LP);
        B.SetInsertPoint(Cont);
        return X;
      }
      return B.CreateCall(Fn, A);
    };
    auto open = [&]() -> llvm::Value * {
      std::vector<unsigned> W;
      for (unsigned J = FI + 1; J < NF; ++J) if (Kind[J] == 2) W.push_back(J);
      if (!W.empty() && R.chance(1, 3)) return call(Fs[R.pick(W)], {});
      return R.chance(1, 4) ? call(FDOpen, {B.getInt32(1), str()}) : call(FOpen, {str(), str()});
    };
    for (unsigned BI = 0; BI < NB; ++BI) {
      B.SetInsertPoint(BBs[BI]);
      for (unsigned N = Straight ? 2 + R(6) : R(4); N--;) switch (R(9)) {
        case 0: case 1: if (Kind[FI] != 1) B.CreateStore(open(), Var); break; // parameters are not reassigned
        case 2: case 3: call(FClose, {get()}); break;
        case 4: { auto *L = get(); switch (R(4)) {
            case 0: call(FGetc, {L}); break;
            case 1: call(FPutc, {B.getInt32(65), L}); break;
            case 2: call(FPrintf, {L, str()}); break;
            case 3: call(FRead, {str(), B.getInt64(1), B.getInt64(2), L}); break;
          } break; }
        case 5: call(Unrel, {B.getInt32(1)}); break;
        default: {
          if (NF == 1) break;
          unsigned J = Rec ? 1 + R(NF - 1) : FI + 1 < NF ? FI + 1 + R(NF - FI - 1) : 0;
          if (!J) break;
          if (Kind[J] == 1) {
            std::vector<llvm::Value *> A;
            for (auto &X : Fs[J]->args()) A.push_back(X.getType() == FP ? get() : X.getType() == I32 ? (llvm::Value *)B.getInt32(1) : (llvm::Value *)str());
            call(Fs[J], A);
          }
          else if (Kind[J] == 3) call(Fs[J], {});
          break;
        }
        }
      if (BI + 1 == NB || R.chance(1, 12)) {
        if (Kind[FI] == 2) B.CreateRet(R.chance(1, 3) ? open() : get());
        else if (Kind[FI] == 0) B.CreateRet(B.getInt32(0));
        else B.CreateRetVoid();
      } else if (R.chance(1, 3)) B.CreateBr(BBs[BI + 1]);
      else B.CreateCondBr(B.CreateICmpEQ(B.CreateCall(Cond, {}), B.getInt32(0)), BBs[BI + 1], Loops && NB > 1 ? BBs[1 + R(NB - 1)] : BBs[BI + 1 + R(NB - BI - 1)]);
    }
  }
  C.Artifact = modStr(M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  if (llvm::verifyModule(M, &EO)) { fprintf(stderr, "generator: %s\n%s", EO.str().c_str(), C.Artifact.c_str()); abort(); }
  C.note();
  // executions
  std::map<std::pair<I_t, V_t>, std::set<St>> Seen;
  Paths Pa;
  unsigned Runs = 0;
  uint64_t Ev = 0;
  bool Complete = true;
  auto once = [&](std::function<unsigned(unsigned)> Ch) {
    FileObs O;
    O.FP = FP;
    Exec E(M, O, Ch);
    E.run(M.getFunction("main"), {});
    if (E.Stopped) Complete = false;
    for (auto &[K, S] : O.Seen) Seen[K].insert(S.begin(), S.end());
    Ev += O.Events;
    ++Runs;
  };
  do once([&](unsigned N) { return Pa.choose(N); });
  while (Runs < 200 && Pa.next());
  if (!Pa.Exhausted) {
    Complete = false;
    Rng Q(R.next());
    for (int I = 0; I < 100; ++I) once([&](unsigned N) { return (unsigned)Q(N); });
  }
  psr::LLVMProjectIRDB IRDB(&M);
  psr::LLVMTypeHierarchy TH(IRDB);
  psr::LLVMAliasSet PT(&IRDB);
  psr::LLVMBasedICFG ICF(&IRDB, psr::CallGraphAnalysisType::OTF, {"main"}, &TH, &PT, psr::Soundness::Soundy, false);
  psr::CSTDFILEIOTypeStateDescription D;
  psr::IDETypeStateAnalysis<psr::CSTDFILEIOTypeStateDescription> P(&IRDB, &PT, &D, {"main"});
  psr::IDESolver S(P, &ICF);
  S.solve();
  uint64_t H = 0;
  // without calls the solution is that of a simple data-flow problem over the one variable
  std::map<I_t, St> Ref; // before the statement; TOP: not reached
  if (!Calls) {
    auto join = [](St A, St B) { return A == B || B == St::TOP ? A : A == St::TOP ? B : St::BOT; };
    auto tf = [&](I_t I, St S) {
      if (auto *A = llvm::dyn_cast<llvm::AllocaInst>(I)) return A->getAllocatedType() == FP ? St::UNINIT : S;
      if (S == St::TOP) return S;
      if (auto *SI = llvm::dyn_cast<llvm::StoreInst>(I)) return SI->getValueOperand()->getType() == FP ? St::OPENED : S;
      auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
      if (!CB || S == St::BOT) return S;
      for (auto &A : CB->args()) if (A->getType() == FP) return CB->getCalledFunction() == FClose ? close_(S) : use(S);
      return S;
    };
    auto *Main = M.getFunction("main");
    std::map<const llvm::BasicBlock *, St> In;
    for (auto &BB : *Main) In[&BB] = St::TOP;
    for (bool Ch = true; Ch;) {
      Ch = false;
      for (auto &BB : *Main) {
        St S = In[&BB];
        for (auto &I : BB) { Ref[&I] = S; S = tf(&I, S); }
        if (S != St::TOP)
          for (auto *T : llvm::successors(&BB)) { St N = join(In[T], S); if (N != In[T]) { In[T] = N; Ch = true; } }
      }
    }
  }
  if (C.Verbose)
    for (auto &F : M)
      for (auto &I : llvm::instructions(F)) {
        fprintf(stderr, "%s: %s\n", F.getName().str().c_str(), instStr(&I).c_str());
        for (auto &[D, L] : S.resultsAt(&I, true)) fprintf(stderr, "      %s = %s\n", instStr(D).c_str(), name(L));
      }
  std::string Pre = Calls ? "calls" : Loops ? "loops" : "branches";
  for (auto &[K, Ss] : Seen) {
    auto Row = S.resultsAt(K.first);
    auto It = Row.find(K.second);
    if (It == Row.end()) {
      C.violation(Pre + ":lost", "before '" + instStr(K.first) + "' in " + K.first->getFunction()->getName().str() + " '" + instStr(K.second) + "' is " + name(*Ss.begin()) + " in an execution, not reported at all");
      continue;
    }
    auto Got = It->second;
    H = mixn(H, (uint64_t)Got, Ss.size());
    C.count("states_observed", Ss.size());
    for (auto X : Ss)
      if (Got != X && Got != St::BOT) {
        C.violation(Pre + ":unsound", "before '" + instStr(K.first) + "' in " + K.first->getFunction()->getName().str() + " '" + instStr(K.second) + "' is " + name(X) + " in an execution, reported " + name(Got));
        break;
      }
    if (!Calls && !Loops) {
      C.count("exact_states");
      if (Got != Ref[K.first])
        C.violation(Pre + ":inexact", "before '" + instStr(K.first) + "' '" + instStr(K.second) + "': expected " + name(Ref[K.first]) + ", reported " + name(Got));
    }
    // (between the call that returns a handle and the store of it, the variable already counts as an alias of the handle)
    if (Complete && Runs == 1 && Straight && !llvm::isa<llvm::StoreInst>(K.first) && K.first->getFunction()->getName() == "main") {
      C.count("exact_straight_line_states");
      if (!Ss.count(Got)) C.violation("straight-line:inexact", "before '" + instStr(K.first) + "' '" + instStr(K.second) + "' is " + name(*Ss.begin()) + " in the only execution, reported " + name(Got));
    }
    C.count(std::string("reported_") + name(Got));
  }
  C.count("paths", Runs);
  C.count("execution_events", Ev);
  if (Complete) C.count("programs_with_all_paths");
  if (Seen.size() > 8) C.nontrivial(H);
  C.sample(C.Artifact);
}
