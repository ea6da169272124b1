// P17: the IR database: ids are a bijection, stable across loads, agree with the annotated metadata, and follow inserted functions.
#include "common.h"
#include "irgen.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/SourceMgr.h"
#include "phasar/Config/Configuration.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Utils/LLVMShorthands.h"
#include "phasar/Utils/Logger.h"
#include <unistd.h>
using namespace vf;
using In = const llvm::Instruction *;
void vfInit(Ctx &) { psr::Logger::disable(); }
static std::vector<std::string> corpus() {
  static std::vector<std::string> V;
  if (V.empty()) {
    std::string Root = getenv("VF_CORPUS") ? getenv("VF_CORPUS") : "";
    if (Root.empty()) return V;
    std::error_code EC;
    for (llvm::sys::fs::recursive_directory_iterator I(Root, EC), E; I != E && !EC; I.increment(EC))
      if (llvm::StringRef(I->path()).endswith(".ll")) V.push_back(I->path());
    std::sort(V.begin(), V.end());
  }
  return V;
}
static std::string plain(In I) { // without the ids
  auto S = instStr(I);
  auto P = S.find(", !psr.id");
  return P == std::string::npos ? S : S.substr(0, P);
}
static std::string nodbg(std::string S) {
  for (auto X : {", !", " !dbg", " #", "metadata !"}) { auto P = S.find(X); if (P != std::string::npos) S = S.substr(0, P); }
  return S;
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(17);
  IrOpts O;
  O.MaxBlocks = 1 + C.Case % 6;
  O.MaxFuns = 1 + C.Case % 8;
  O.MaxInsts = 7;
  O.Unreach = C.Case % 3 == 0;
  O.Dbg = C.Case % 2 == 0;
  std::string Text = modStr(*genIr(R, O).M);
  if (C.Case % 10 == 7) Text = "define i32 @main() {\n  ret i32 0\n}\n";
  if (C.Case % 10 == 3) Text = "@a = external global i32\n@b = global [2 x i32*] [i32* @a, i32* null]\ndeclare void @x()\n";
  C.Artifact = Text;
  if (C.Case % 32 == 0) C.note();
  auto bad = [&](const std::string &K, const std::string &D) { C.violation(K, D); };
  std::string File = C.OutDir + "/p17_" + std::to_string(getpid());
  llvm::LLVMContext LC1, LC2, LC3;
  llvm::SMDiagnostic Diag;
  auto M0 = llvm::parseAssemblyString(Text, Diag, LC1);
  if (!M0) { bad("harness:parse", ""); return; }
  { std::error_code EC; llvm::raw_fd_ostream OS(File + ".ll", EC); OS << Text; }
  { std::error_code EC; llvm::raw_fd_ostream OS(File + ".bc", EC); llvm::WriteBitcodeToFile(*M0, OS); }
  // the different ways to get the same module
  std::vector<std::pair<std::string, std::unique_ptr<psr::LLVMProjectIRDB>>> DBs;
  DBs.emplace_back("file-ll", std::make_unique<psr::LLVMProjectIRDB>(File + ".ll"));
  DBs.emplace_back("file-bc", std::make_unique<psr::LLVMProjectIRDB>(File + ".bc"));
  DBs.emplace_back("buffer", std::make_unique<psr::LLVMProjectIRDB>(llvm::MemoryBufferRef(Text, "buffer")));
  DBs.emplace_back("pointer", std::make_unique<psr::LLVMProjectIRDB>(M0.get(), true));
  DBs.emplace_back("owned", std::make_unique<psr::LLVMProjectIRDB>(llvm::parseAssemblyString(Text, Diag, LC2), true));
  DBs.emplace_back("owned-unannotated", std::make_unique<psr::LLVMProjectIRDB>(llvm::parseAssemblyString(Text, Diag, LC3), false));
  unlink((File + ".ll").c_str());
  unlink((File + ".bc").c_str());
  std::vector<std::string> First;
  uint64_t H = C.Seed;
  auto checkDB = [&](psr::LLVMProjectIRDB &DB, const std::string &W, bool Annot, bool Order, std::vector<std::string> *Names) {
    auto *M = DB.getModule();
    // counts
    size_t NI = 0, NG = 0, NF = 0;
    for (auto &F : *M) { ++NF; for (auto &BB : F) NI += BB.size(); }
    for (auto &G : M->globals()) { (void)G; ++NG; }
    if (DB.getNumInstructions() != NI) bad(W + ":num-instructions", std::to_string(DB.getNumInstructions()) + " expected " + std::to_string(NI));
    if (DB.getNumGlobals() != NG) bad(W + ":num-globals", "");
    if (DB.getNumFunctions() != NF) bad(W + ":num-functions", "");
    // ids are a bijection between [0, globals + instructions) and the values
    std::map<size_t, const llvm::Value *> ById;
    for (size_t Id = 0; Id < NI + NG; ++Id) {
      auto *V = DB.getValueFromId(Id);
      if (!V) { bad(W + ":id-unused", std::to_string(Id)); continue; }
      ById[Id] = V;
    }
    std::set<const llvm::Value *> Distinct;
    for (auto &[I, V] : ById) if (!Distinct.insert(V).second) bad(W + ":id-ambiguous", instStr(V));
    size_t Pos = NG;
    std::vector<In> AllI;
    for (auto &F : *M)
      for (auto &BB : F)
        for (auto &I : BB) {
          ++C.Evaluations;
          size_t Id = DB.getInstructionId(&I);
          if (DB.getInstruction(Id) != &I || DB.getValueFromId(Id) != &I) bad(W + ":id-roundtrip", instStr(&I));
          if (Order && Id != Pos) bad(W + ":id-order", instStr(&I) + " has id " + std::to_string(Id) + " at position " + std::to_string(Pos));
          ++Pos;
          if (Annot) {
            if (psr::getMetaDataID(&I) != std::to_string(Id)) bad(W + ":metadata-id", instStr(&I));
            if (psr::fromMetaDataId(DB, psr::getMetaDataID(&I)) != &I) bad(W + ":metadata-roundtrip", instStr(&I));
          }
          if (psr::fromMetaDataId(DB, std::to_string(Id)) != &I) bad(W + ":from-id", instStr(&I));
          AllI.push_back(&I);
          if (Names) Names->push_back(F.getName().str() + ": " + nodbg(plain(&I)) + " = " + std::to_string(Id));
        }
    size_t GI = 0;
    for (auto &G : M->globals()) {
      auto *V = GI < NG ? DB.getValueFromId(GI) : nullptr;
      if (V != &G) bad(W + ":global-id", G.getName().str());
      if (DB.getInstruction(GI)) bad(W + ":instruction-for-global-id", std::to_string(GI));
      if (Annot && psr::getMetaDataID(&G) != std::to_string(GI)) bad(W + ":global-metadata-id", G.getName().str());
      if (psr::fromMetaDataId(DB, std::to_string(GI)) != &G) bad(W + ":global-from-id", G.getName().str());
      if (Names) Names->push_back("@" + G.getName().str() + " = " + std::to_string(GI));
      ++GI;
      auto *D = DB.getGlobalVariableDefinition(G.getName());
      if (!G.hasLocalLinkage() && D != (G.isDeclaration() ? nullptr : &G)) bad(W + ":global-definition", G.getName().str());
    }
    for (size_t K : {NI + NG, NI + NG + 1, (size_t)1 << 20, ~(size_t)0, ~(size_t)0 - 3, NI + NG + R(1000)})
      if (DB.getInstruction(K) || DB.getValueFromId(K)) bad(W + ":value-for-unused-id", std::to_string(K));
    for (auto *S : {"-1", "", "x", "no.1", "99999999", "main.99"})
      if (psr::fromMetaDataId(DB, S)) bad(W + ":value-for-bogus-id", S);
    std::set<In> Got;
    size_t N = 0;
    for (auto *I : DB.getAllInstructions()) { Got.insert(I); ++N; }
    if (N != NI || Got != std::set<In>(AllI.begin(), AllI.end())) bad(W + ":all-instructions", std::to_string(N));
    std::vector<const llvm::Function *> Fs, Want;
    for (auto *F : DB.getAllFunctions()) Fs.push_back(F);
    for (auto &F : *M) {
      Want.push_back(&F);
      const auto &CDB = DB;
      if (CDB.getFunction(F.getName()) != &F || DB.getFunction(F.getName()) != &F || !DB.hasFunction(F.getName())) bad(W + ":get-function", F.getName().str());
      if (CDB.getFunctionDefinition(F.getName()) != (F.isDeclaration() ? nullptr : &F) || DB.getFunctionDefinition(F.getName()) != CDB.getFunctionDefinition(F.getName())) bad(W + ":function-definition", F.getName().str());
      for (auto &A : F.args()) {
        auto Id = psr::getMetaDataID(&A);
        if (psr::fromMetaDataId(DB, Id) != &A) bad(W + ":argument-id", Id);
        if (Names) Names->push_back(Id);
      }
    }
    if (Fs != Want) bad(W + ":all-functions", "");
    if (DB.hasFunction("no_such_function") || DB.getFunction("no_such_function") || DB.getFunctionDefinition("no_such_function") || DB.getGlobalVariableDefinition("no_such_global")) bad(W + ":unknown-name", "");
    if (DB.debugInfoAvailable() != (M->getNamedMetadata("llvm.dbg.cu") != nullptr)) bad(W + ":debug-info", "");
    if (!DB.isValid() || !DB) bad(W + ":valid", "");
    H = mixn(H, NI, NG);
    return NI;
  };
  size_t NI = 0;
  for (auto &[W, DB] : DBs) {
    if (!DB->isValid()) { bad(W + ":invalid", ""); continue; }
    std::vector<std::string> Names;
    NI = checkDB(*DB, W, W != "owned-unannotated", true, &Names);
    if (First.empty()) First = Names;
    else if (Names != First) {
      size_t K = 0;
      while (K < Names.size() && K < First.size() && Names[K] == First[K]) ++K;
      bad(W + ":ids-differ", (K < First.size() ? First[K] : "end") + " | " + (K < Names.size() ? Names[K] : "end"));
    }
    // loading only adds the ids
    std::string E;
    { llvm::raw_string_ostream OS(E); DB->emitPreprocessedIR(OS); }
    llvm::LLVMContext LC;
    auto ME = llvm::parseAssemblyString(E, Diag, LC);
    if (!ME) { bad(W + ":emitted-ir", "does not parse"); continue; }
    psr::LLVMProjectIRDB DE(ME.get(), true);
    std::vector<std::string> N2;
    checkDB(DE, W + ":reloaded", true, true, &N2);
    if (N2 != First) bad(W + ":reloaded:ids-differ", "");
    // each printed id stands at its instruction
    std::map<std::string, unsigned> Cnt;
    llvm::SmallVector<llvm::StringRef> Lines;
    llvm::StringRef(E).split(Lines, '\n');
    size_t Seen = 0;
    for (auto &L : Lines)
      if (auto P = L.rfind("; | ID: "); P != llvm::StringRef::npos) {
        size_t Id;
        if (L.drop_front(P + 8).trim().getAsInteger(10, Id)) { bad(W + ":emitted-id", L.str()); continue; }
        auto *V = DB->getValueFromId(Id);
        ++Seen;
        if (!V) { bad(W + ":emitted-id", L.str()); continue; }
        if (instStr(V).find('\n') != std::string::npos) continue; // printed over several lines
        auto T = L.take_front(P).trim().str(), S = instStr(V);
        auto cut = [](std::string X) { return X.substr(0, X.find_first_of(",!(#")); };
        auto A = cut(T), B = cut(S);
        while (!A.empty() && A.back() == ' ') A.pop_back();
        while (!B.empty() && B.back() == ' ') B.pop_back();
        if (A.substr(0, B.size()) != B && B.substr(0, A.size()) != A) bad(W + ":emitted-id", T + " | " + S);
      }
    size_t Printed = 0;
    for (auto &F : *DB->getModule()) for (auto &BB : F) Printed += BB.size();
    if (Seen < Printed) bad(W + ":emitted-ids-missing", std::to_string(Seen) + " of " + std::to_string(Printed));
  }
  // functions inserted later get fresh ids; those given out before stay
  {
    auto &DB = *DBs[3].second;
    auto *M = DB.getModule();
    std::map<In, size_t> Before;
    for (auto *I : DB.getAllInstructions()) Before[I] = DB.getInstructionId(I);
    bool Annot = true;
    for (unsigned K = 1 + R(3); K--;) {
      bool An = R.chance(3, 4);
      Annot &= An;
      auto *F = llvm::Function::Create(llvm::FunctionType::get(llvm::Type::getVoidTy(M->getContext()), {llvm::Type::getInt32Ty(M->getContext())}, false), llvm::Function::ExternalLinkage, "inserted" + std::to_string(K), M);
      if (R.chance(1, 4)) { DB.insertFunction(F, An); continue; } // a declaration
      auto *BB = llvm::BasicBlock::Create(M->getContext(), "", F);
      llvm::IRBuilder<> B(BB);
      for (unsigned N = R(5); N--;) B.CreateAlloca(B.getInt32Ty());
      B.CreateRetVoid();
      DB.insertFunction(F, An);
    }
    checkDB(DB, "inserted", Annot, true, nullptr);
    for (auto &[I, Id] : Before) if (DB.getInstructionId(I) != Id || DB.getInstruction(Id) != I) bad("inserted:id-changed", instStr(I));
    if (llvm::verifyModule(*M)) bad("inserted:module-broken", "");
    C.count("insertions");
  }
  { // files that are no module
    llvm::errs().SetUnbuffered();
    std::string T2 = Text.substr(0, Text.size() / 2) + " }{ garbage";
    int Old = dup(2);
    FILE *Nul = fopen("/dev/null", "w");
    dup2(fileno(Nul), 2);
    psr::LLVMProjectIRDB B1(llvm::MemoryBufferRef(T2, "garbage")), B2(File + ".does-not-exist");
    fflush(stderr);
    dup2(Old, 2);
    close(Old);
    fclose(Nul);
    if (B1.isValid() || B1) bad("garbage-valid", "");
    if (B2.isValid() || B2) bad("missing-file-valid", "");
  }
  C.count("instructions", NI);
  if (NI > 5) C.nontrivial(H);
  C.sample(std::to_string(NI) + " instructions in " + std::to_string(DBs.size()) + " databases");
}
