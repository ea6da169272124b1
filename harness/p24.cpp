// P24: the statistics of a module against an independent count.
#include "irgen.h"
#include "phasar/PhasarLLVM/Passes/GeneralStatisticsAnalysis.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DIBuilder.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/NoFolder.h"
#include "llvm/IR/PassManager.h"
#include "nlohmann/json.hpp"
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }
using nlohmann::json;
using Op = llvm::Instruction;

struct Ref {
  std::map<std::string, size_t> N;
  std::map<std::string, double> Avg;
  std::set<const llvm::Type *> Types;
  std::set<const llvm::Instruction *> Allocs, Rets;
};
static Ref count(const llvm::Module &M) {
  Ref R;
  auto &N = R.N;
  for (auto *K : {"Functions", "ExternalFunctions", "FunctionDefinitions", "AddressTakenFunctions", "Globals", "GlobalConsts", "GlobalVariables", "ExternalGlobals", "GlobalsDefinitions", "Instructions", "CallSites", "IndirectCallSites",
                  "NumInlineAssembly", "MemoryIntrinsics", "DebugIntrinsics", "Switches", "GetElementPtrs", "PhiNodes", "LandingPads", "BasicBlocks", "TotalNumPredecessorBBs", "Branches", "MaxPredPerBasicBlock", "MaxSuccPerBasicBlock",
                  "MaxNumOperandsPerInst", "MaxUsesPerInst", "NumInstWithMultipleUses", "NonVoidInsts", "NumInstsUsedOutsideBB", "#stores", "#loads", "#allocsites", "#succs", "#operands", "#uses"})
    N[K] = 0;
  auto mx = [&](const char *K, size_t V) { if (N[K] < V) N[K] = V; };
  for (auto &F : M) {
    ++N["Functions"];
    N["ExternalFunctions"] += F.getLinkage() == llvm::GlobalValue::ExternalLinkage;
    N["FunctionDefinitions"] += !F.empty();
    bool Taken = false;
    for (auto &U : F.uses()) {
      auto *CB = llvm::dyn_cast<llvm::CallBase>(U.getUser());
      if (!CB || !CB->isCallee(&U)) Taken = true;
    }
    N["AddressTakenFunctions"] += Taken;
    std::map<const llvm::BasicBlock *, size_t> Preds;
    for (auto &BB : F) {
      ++N["BasicBlocks"];
      auto *T = BB.getTerminator();
      size_t S = T->getNumSuccessors();
      for (unsigned I = 0; I < S; ++I) ++Preds[T->getSuccessor(I)];
      N["#succs"] += S;
      mx("MaxSuccPerBasicBlock", S);
    }
    for (auto &[B, P] : Preds) { N["TotalNumPredecessorBBs"] += P; mx("MaxPredPerBasicBlock", P); }
    for (auto &BB : F)
      for (auto &I : BB) {
        ++N["Instructions"];
        size_t Uses = 0;
        bool Outside = false;
        for (auto &U : I.uses()) {
          ++Uses;
          auto *UI = llvm::cast<llvm::Instruction>(U.getUser());
          if (auto *Ph = llvm::dyn_cast<llvm::PHINode>(UI)) Outside |= Ph->getIncomingBlock(U) != &BB; // used at the end of the incoming block
          else Outside |= UI->getParent() != &BB;
        }
        N["#operands"] += I.getNumOperands();
        N["#uses"] += Uses;
        mx("MaxNumOperandsPerInst", I.getNumOperands());
        mx("MaxUsesPerInst", Uses);
        N["NumInstWithMultipleUses"] += Uses >= 2;
        N["NonVoidInsts"] += I.getType()->getTypeID() != llvm::Type::VoidTyID;
        N["NumInstsUsedOutsideBB"] += Outside;
        switch (I.getOpcode()) {
        case Op::Alloca: R.Types.insert(llvm::cast<llvm::AllocaInst>(I).getAllocatedType()); R.Allocs.insert(&I); ++N["#allocsites"]; break;
        case Op::PHI: ++N["PhiNodes"]; break;
        case Op::Br: ++N["Branches"]; break;
        case Op::Switch: ++N["Switches"]; break;
        case Op::GetElementPtr: ++N["GetElementPtrs"]; break;
        case Op::Ret: case Op::Resume: R.Rets.insert(&I); break;
        case Op::Store: ++N["#stores"]; break;
        case Op::Load: ++N["#loads"]; break;
        case Op::LandingPad: ++N["LandingPads"]; break;
        case Op::Call: case Op::Invoke: case Op::CallBr: {
          ++N["CallSites"];
          auto &CB = llvm::cast<llvm::CallBase>(I);
          const llvm::Value *V = CB.getCalledOperand();
          for (bool Ch = true; Ch;) {
            Ch = false;
            if (auto *C = llvm::dyn_cast<llvm::ConstantExpr>(V)) { if (C->getOpcode() == Op::BitCast || C->getOpcode() == Op::AddrSpaceCast) { V = C->getOperand(0); Ch = true; } }
            else if (auto *B = llvm::dyn_cast<llvm::BitCastInst>(V)) { V = B->getOperand(0); Ch = true; }
            else if (auto *A = llvm::dyn_cast<llvm::GlobalAlias>(V)) { V = A->getAliasee(); Ch = true; }
          }
          if (llvm::isa<llvm::InlineAsm>(V)) ++N["NumInlineAssembly"];
          else if (auto *Cal = llvm::dyn_cast<llvm::Function>(V)) {
            auto Nm = Cal->getName();
            if (Nm.startswith("llvm.mem")) ++N["MemoryIntrinsics"];
            if (Nm.startswith("llvm.dbg.")) ++N["DebugIntrinsics"];
            static const std::set<std::string> Heap = {"malloc", "calloc", "realloc", "_Znwm", "_Znam"};
            if (Heap.count(Nm.str())) {
              R.Allocs.insert(&I);
              ++N["#allocsites"];
              // objects constructed in the allocated memory
              for (auto *U : I.users())
                if (auto *BC = llvm::dyn_cast<llvm::BitCastInst>(U); BC && BC->getDestTy()->getPointerElementType()->isStructTy())
                  for (auto *U2 : BC->users())
                    if (auto *CC = llvm::dyn_cast<llvm::CallBase>(U2); CC && CC->getCalledFunction() && CC->getCalledFunction()->arg_size() && CC->getCalledFunction()->getArg(0)->getType() == BC->getDestTy())
                      R.Types.insert(BC->getDestTy()->getPointerElementType());
            }
          } else ++N["IndirectCallSites"];
        } break;
        default: break;
        }
      }
  }
  for (auto &G : M.globals()) {
    ++N["Globals"];
    N["GlobalConsts"] += G.isConstant();
    N["GlobalVariables"] += !G.isConstant();
    N["GlobalsDefinitions"] += G.hasInitializer();
    N["ExternalGlobals"] += G.getLinkage() == llvm::GlobalValue::ExternalLinkage;
  }
  N["AllocaInstructions"] = R.Allocs.size();
  R.Avg = {{"AvgPredPerBasicBlock", (double)N["TotalNumPredecessorBBs"] / N["BasicBlocks"]}, {"AvgSuccPerBasicBlock", (double)N["#succs"] / N["BasicBlocks"]}, {"AvgOperandsPerInst", (double)N["#operands"] / N["Instructions"]}, {"AvgUsesPerInst", (double)N["#uses"] / N["Instructions"]}};
  return R;
}

// what compilers emit and the general generator does not: heap objects with constructors, inline assembly, calls through
// casts, intrinsics, wide switches and merges
static void addMore(Rng &R, llvm::Module &M, Ctx &C) {
  auto &LC = M.getContext();
  llvm::IRBuilder<llvm::NoFolder> B(LC);
  auto *I32 = B.getInt32Ty();
  auto *P8 = B.getInt8PtrTy();
  std::vector<llvm::StructType *> Ss;
  std::vector<llvm::Function *> Fs;
  for (unsigned I = 0, N = 1 + R(3); I < N; ++I) {
    auto *S = llvm::StructType::create(LC, {I32, P8}, "class.K" + std::to_string(I));
    Ss.push_back(S);
    Fs.push_back(llvm::Function::Create(llvm::FunctionType::get(B.getVoidTy(), {S->getPointerTo(), I32}, false), llvm::GlobalValue::ExternalLinkage, "_ZN1K2Ev" + std::to_string(I), M));
    Fs.push_back(llvm::Function::Create(llvm::FunctionType::get(B.getVoidTy(), {I32, S->getPointerTo()}, false), llvm::GlobalValue::ExternalLinkage, "uses" + std::to_string(I), M));
  }
  auto *VA = llvm::Function::Create(llvm::FunctionType::get(I32, true), llvm::GlobalValue::ExternalLinkage, "va", M);
  static const char *Hs[] = {"_Znwm", "_Znam", "malloc", "notmalloc", "malloc2"};
  auto *Fn = llvm::Function::Create(llvm::FunctionType::get(I32, {I32}, false), R.chance(1, 2) ? llvm::GlobalValue::ExternalLinkage : llvm::GlobalValue::InternalLinkage, "more", M);
  auto *E = llvm::BasicBlock::Create(LC, "e", Fn);
  B.SetInsertPoint(E);
  auto *Mem = B.CreateAlloca(llvm::ArrayType::get(B.getInt8Ty(), 16));
  for (unsigned N = R(8); N--;) switch (R(11)) {
    case 0: case 1: {
      auto H = M.getOrInsertFunction(Hs[R(5)], llvm::FunctionType::get(P8, {B.getInt64Ty()}, false));
      auto *P = B.CreateCall(H, {B.getInt64(16)});
      for (unsigned K = R(3); K--;) {
        unsigned J = R(Ss.size());
        auto *Ca = B.CreateBitCast(P, Ss[J]->getPointerTo());
        switch (R(5)) {
        case 0: case 1: B.CreateCall(Fs[2 * J], {Ca, B.getInt32(1)}); C.count("constructed_heap_objects"); break;
        case 2: B.CreateCall(Fs[2 * J + 1], {B.getInt32(1), Ca}); break;
        case 3: B.CreateCall(VA, {Ca}); C.count("passed_to_variadic"); break;
        case 4: B.CreateStore(Ca, B.CreateAlloca(Ca->getType())); break;
        }
      }
    } break;
    case 2: B.CreateCall(llvm::InlineAsm::get(llvm::FunctionType::get(B.getVoidTy(), false), "nop", "", true), {}); break;
    case 3: { auto *P = B.CreateBitCast(Mem, P8); if (R.chance(1, 2)) B.CreateMemSet(P, B.getInt8(0), 16, llvm::MaybeAlign(1)); else B.CreateMemCpy(P, llvm::MaybeAlign(1), P, llvm::MaybeAlign(1), 8); break; }
    case 4: { auto *Ty = llvm::FunctionType::get(I32, {I32, I32}, false); B.CreateCall(Ty, B.CreateBitCast(VA, Ty->getPointerTo()), {B.getInt32(1), B.getInt32(2)}); break; }
    case 5: { auto *Ty = llvm::FunctionType::get(I32, {I32}, false); B.CreateCall(Ty, llvm::ConstantExpr::getBitCast(R.pick(Fs), Ty->getPointerTo()), {B.getInt32(1)}); break; }
    case 7: { // the function is an argument
      auto *F = R.pick(Fs);
      auto *Tk = llvm::Function::Create(llvm::FunctionType::get(I32, {F->getType(), I32}, false), llvm::GlobalValue::ExternalLinkage, "takes", M);
      B.CreateCall(Tk, {F, B.getInt32(1)});
      C.count("function_arguments");
      break;
    }
    case 8: { // callee behind an alias (of an alias)
      auto *F = R.chance(1, 2) ? Fn : R.pick(Fs);
      if (F->empty() && F != Fn) { auto *D = llvm::Function::Create(llvm::FunctionType::get(I32, {I32}, false), llvm::GlobalValue::InternalLinkage, "aliased", M); llvm::ReturnInst::Create(LC, D->getArg(0), llvm::BasicBlock::Create(LC, "", D)); F = D; }
      auto *A = llvm::GlobalAlias::create("al", F);
      if (R.chance(1, 3)) A = llvm::GlobalAlias::create("al2", A);
      B.CreateCall(F->getFunctionType(), A, {B.getInt32(2)});
      C.count("alias_callees");
      break;
    }
    case 9: { // a heap allocating function behind a cast
      auto H = M.getOrInsertFunction(Hs[R(5)], llvm::FunctionType::get(P8, {B.getInt64Ty()}, false));
      auto *Ty = llvm::FunctionType::get(P8, {I32}, false);
      B.CreateCall(Ty, llvm::ConstantExpr::getBitCast(llvm::cast<llvm::Constant>(H.getCallee()), Ty->getPointerTo()), {B.getInt32(2)});
      break;
    }
    case 10: { // a label
      auto *SP = Fn->getSubprogram();
      if (!SP) {
        llvm::DIBuilder DB(M);
        auto *F = DB.createFile("m.c", "/d");
        DB.createCompileUnit(llvm::dwarf::DW_LANG_C99, F, "g", false, "", 0);
        SP = DB.createFunction(F, "more", "", F, 1, DB.createSubroutineType(DB.getOrCreateTypeArray({})), 1, llvm::DINode::FlagZero, llvm::DISubprogram::SPFlagDefinition);
        Fn->setSubprogram(SP);
        DB.finalize();
      }
      auto *L = llvm::DILabel::get(LC, SP, "lab", SP->getFile(), 2);
      auto *Ca = B.CreateCall(llvm::Intrinsic::getDeclaration(&M, llvm::Intrinsic::dbg_label), {llvm::MetadataAsValue::get(LC, L)});
      Ca->setDebugLoc(llvm::DILocation::get(LC, 2, 1, SP));
      C.count("labels");
      break;
    }
    case 6: B.CreateCall(llvm::cast<llvm::Function>(M.getOrInsertFunction("self", llvm::FunctionType::get(I32, {I32}, false)).getCallee()), {Fn->getArg(0)}); break;
    }
  unsigned W = R(7);
  auto *X = llvm::BasicBlock::Create(LC, "x", Fn);
  auto *Sw = B.CreateSwitch(Fn->getArg(0), X, W);
  B.SetInsertPoint(X);
  auto *Ph = B.CreatePHI(I32, W + 1);
  Ph->addIncoming(B.getInt32(0), E);
  for (unsigned I = 0; I < W; ++I) {
    auto *K = llvm::BasicBlock::Create(LC, "k", Fn, X);
    B.SetInsertPoint(K);
    auto *V = B.CreateAdd(Fn->getArg(0), B.getInt32(I));
    for (unsigned J = R(4); J--;) B.CreateMul(V, V);
    B.CreateBr(X);
    Ph->addIncoming(V, K);
    Sw->addCase(B.getInt32(I), K);
  }
  B.SetInsertPoint(X);
  B.CreateRet(Ph);
  for (unsigned I = R(4); I--;)
    new llvm::GlobalVariable(M, I32, R.chance(1, 2), R.chance(1, 2) ? llvm::GlobalValue::ExternalLinkage : llvm::GlobalValue::InternalLinkage, B.getInt32(I), "mg" + std::to_string(I));
  if (R.chance(1, 2)) new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::ExternalLinkage, nullptr, "mdecl");
  if (R.chance(1, 3)) new llvm::GlobalVariable(M, Fs[0]->getType(), true, llvm::GlobalValue::InternalLinkage, Fs[0], "mfp");
}

static void check(Ctx &C, const llvm::Module &M, const psr::GeneralStatistics &S, const std::string &P) {
  auto R = count(M);
  auto N = R.N;
  auto same = [&](const char *K, size_t Got, size_t Want) {
    C.count("numbers");
    if (Got != Want) C.violation(P + K, "reported " + std::to_string(Got) + ", the module has " + std::to_string(Want));
  };
#define F(FIELD, KEY) same(#FIELD, S.FIELD, N[KEY]);
  F(Functions, "Functions") F(ExternalFunctions, "ExternalFunctions") F(FunctionDefinitions, "FunctionDefinitions") F(AddressTakenFunctions, "AddressTakenFunctions") F(Globals, "Globals") F(GlobalConsts, "GlobalConsts")
  F(ExternalGlobals, "ExternalGlobals") F(GlobalsDefinitions, "GlobalsDefinitions") F(BasicBlocks, "BasicBlocks") F(AllocationSites, "#allocsites") F(CallSites, "CallSites") F(DebugIntrinsics, "DebugIntrinsics") F(Instructions, "Instructions")
  F(StoreInstructions, "#stores") F(LoadInstructions, "#loads") F(MemIntrinsics, "MemoryIntrinsics") F(Branches, "Branches") F(Switches, "Switches") F(GetElementPtrs, "GetElementPtrs") F(LandingPads, "LandingPads") F(PhiNodes, "PhiNodes")
  F(NumInlineAsm, "NumInlineAssembly") F(IndCalls, "IndirectCallSites") F(TotalNumOperands, "#operands") F(TotalNumUses, "#uses") F(TotalNumPredecessorBBs, "TotalNumPredecessorBBs") F(TotalNumSuccessorBBs, "#succs")
  F(MaxNumOperands, "MaxNumOperandsPerInst") F(MaxNumUses, "MaxUsesPerInst") F(MaxNumPredecessorBBs, "MaxPredPerBasicBlock") F(MaxNumSuccessorBBs, "MaxSuccPerBasicBlock") F(NumInstWithMultipleUses, "NumInstWithMultipleUses")
  F(NumInstsUsedOutsideBB, "NumInstsUsedOutsideBB") F(NonVoidInsts, "NonVoidInsts")
#undef F
  if (S.AllocatedTypes != R.Types) C.violation(P + "AllocatedTypes", std::to_string(S.AllocatedTypes.size()) + " for " + std::to_string(R.Types.size()));
  if (S.AllocaInstructions != R.Allocs) C.violation(P + "AllocaInstructions", std::to_string(S.AllocaInstructions.size()) + " for " + std::to_string(R.Allocs.size()));
  if (S.RetResInstructions != R.Rets) C.violation(P + "RetResInstructions", std::to_string(S.RetResInstructions.size()) + " for " + std::to_string(R.Rets.size()));
  if (S.ModuleName != M.getModuleIdentifier()) C.violation(P + "ModuleName", S.ModuleName);
  std::string T;
  llvm::raw_string_ostream OS(T);
  S.printAsJson(OS);
  auto J = json::parse(OS.str());
  for (auto &[K, V] : N)
    if (K[0] != '#') {
      C.count("json_numbers");
      if (!J.contains(K)) C.violation(P + "json:" + K, "not printed");
      else if (J[K].get<size_t>() != V) C.violation(P + "json:" + K, J[K].dump() + " printed, the module has " + std::to_string(V));
    }
  for (auto &[K, V] : R.Avg)
    if (!J.contains(K) || std::abs(J[K].get<double>() - V) > 1e-9) C.violation(P + "json:" + K, (J.contains(K) ? J[K].dump() : "nothing") + " printed for " + std::to_string(V));
  if (J["ModuleName"] != M.getModuleIdentifier()) C.violation(P + "json:ModuleName", J.dump());
  // the table for humans has the same numbers
  static const std::map<std::string, std::string> Rows = {{"LLVM IR instructions", "Instructions"}, {"Functions", "Functions"}, {"External Functions", "ExternalFunctions"}, {"Function Definitions", "FunctionDefinitions"}, {"Address-Taken Functions", "AddressTakenFunctions"},
    {"Globals", "Globals"}, {"Global Constants", "GlobalConsts"}, {"Global Variables", "GlobalVariables"}, {"External Globals", "ExternalGlobals"}, {"Global Definitions", "GlobalsDefinitions"}, {"Alloca Instructions", "AllocaInstructions"}, {"Call Sites", "CallSites"},
    {"Indirect Call Sites", "IndirectCallSites"}, {"Inline Assemblies", "NumInlineAssembly"}, {"Memory Intrinsics", "MemoryIntrinsics"}, {"Debug Intrinsics", "DebugIntrinsics"}, {"Switches", "Switches"}, {"GetElementPtrs", "GetElementPtrs"}, {"Phi Nodes", "PhiNodes"},
    {"LandingPads", "LandingPads"}, {"Basic Blocks", "BasicBlocks"}, {"Branches", "Branches"}, {"Max #pred per BasicBlock", "MaxPredPerBasicBlock"}, {"Max #succ per BasicBlock", "MaxSuccPerBasicBlock"}, {"Max #operands per Inst", "MaxNumOperandsPerInst"},
    {"Max #uses per Inst", "MaxUsesPerInst"}, {"Insts with >1 uses", "NumInstWithMultipleUses"}, {"Non-void Insts", "NonVoidInsts"}, {"Insts used outside its BB", "NumInstsUsedOutsideBB"}};
  std::string Tab;
  llvm::raw_string_ostream TS(Tab);
  TS << S;
  TS.flush();
  std::istringstream IS(Tab);
  std::string L;
  while (std::getline(IS, L)) {
    auto Co = L.rfind(':');
    if (Co == std::string::npos) continue;
    auto It = Rows.find(L.substr(0, Co));
    if (It == Rows.end()) continue;
    C.count("table_numbers");
    if (std::strtoull(L.c_str() + Co + 1, nullptr, 10) != N[It->second]) C.violation(P + "table:" + It->second, "'" + L + "', the module has " + std::to_string(N[It->second]));
  }
}

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  auto gen = [&] {
    IrOpts O;
    O.MaxFuns = 1 + R(6);
    O.MaxBlocks = 1 + R(8);
    O.Dbg = R.chance(1, 2);
    auto P = genIr(R, O);
    if (R.chance(3, 4)) addMore(R, *P.M, C);
    P.M->setModuleIdentifier("module " + std::to_string(R(1000)) + (R.chance(1, 5) ? " \"q\"" : ""));
    return P;
  };
  auto A = gen(), B = gen();
  C.Artifact = modStr(*A.M) + "\n; ---- second module\n" + modStr(*B.M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  for (auto *M : {A.M.get(), B.M.get()}) if (llvm::verifyModule(*M, &EO)) { fprintf(stderr, "generator: %s\n%s", EO.str().c_str(), C.Artifact.c_str()); abort(); }
  C.note();
  std::string Before = modStr(*A.M);
  psr::GeneralStatisticsAnalysis GA;
  check(C, *A.M, GA.runOnModule(*A.M), "first:");
  if (modStr(*A.M) != Before) C.violation("module-changed", "");
  check(C, *B.M, GA.runOnModule(*B.M), "second:"); // as a pass manager does
  llvm::ModuleAnalysisManager MAM;
  llvm::PassInstrumentationCallbacks PIC;
  MAM.registerPass([&] { return llvm::PassInstrumentationAnalysis(&PIC); });
  MAM.registerPass([] { return psr::GeneralStatisticsAnalysis(); });
  check(C, *B.M, MAM.getResult<psr::GeneralStatisticsAnalysis>(*B.M), "managed:");
  auto Rf = count(*A.M);
  uint64_t H = 0;
  for (auto &[K, V] : Rf.N) H = mixn(H, V);
  C.nontrivial(H);
  C.sample(Before);
}
