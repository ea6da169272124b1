// P22: source positions derived from the debug information of a module, against the positions it was generated for.
#include "common.h"
#include "phasar/PhasarLLVM/Utils/LLVMIRToSrc.h"
#include "phasar/PhasarLLVM/Utils/LLVMSourceManager.h"
#include "phasar/Utils/Logger.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DIBuilder.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/NoFolder.h"
#include "llvm/IR/Verifier.h"
#include "nlohmann/json.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>
using namespace vf;
namespace fs = std::filesystem;
void vfInit(Ctx &) { psr::Logger::disable(); }

struct SrcFile {
  llvm::DIFile *DI = nullptr;
  std::string Path, Dir; // what must be reported
  bool Exists = false;
  std::vector<std::string> Lines;
  std::string Raw;
};
struct Pos { unsigned Line = 0, Col = 0; int File = -1; };
struct Expect {
  std::string Var, Fun;
  std::vector<Pos> Ps; // the acceptable positions (the value's own one, or the one of its variable)
  bool AnyVar = false;
};
static std::string trim(const std::string &S) {
  const char *W = " \t\n\v\f\r";
  auto B = S.find_first_not_of(W);
  if (B == std::string::npos) return "";
  return S.substr(B, S.find_last_not_of(W) - B + 1);
}

static std::string randLine(Rng &R) {
  static const char *Ps[] = {"int x = 1;", "\t", "  ", "return", "//", "\"a b\"", "{", "}", "\xc3\xa4", "f(x);", "#", ";"};
  std::string S;
  for (unsigned N = R(5); N--;) S += Ps[R(12)];
  if (R.chance(1, 15)) S += std::string(200 + R(400), 'w') + ";";
  return S;
}

static void checkInfo(Ctx &C, Rng &R, const std::vector<psr::SourceCodeInfo> &All) {
  auto base = [](const std::string &S) { auto P = S.find_last_of('/'); return P == std::string::npos ? S : S.substr(P + 1); };
  for (auto &I : All) {
    nlohmann::json J = I;
    auto K = J.get<psr::SourceCodeInfo>();
    auto L = nlohmann::json::parse(J.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace)).get<psr::SourceCodeInfo>();
    C.count("infos_through_json");
    if (!(K == I) || K.SourceCodeFunctionName != I.SourceCodeFunctionName || !K.equivalentWith(I))
      C.violation("json:lost", "'" + J.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + "' read back: function '" + K.SourceCodeFunctionName + "' of '" + I.SourceCodeFunctionName + "', file '" + K.SourceCodeFilename + "', line '" + K.SourceCodeLine + "'");
    if (L.Line != I.Line || L.Column != I.Column || L.SourceCodeFunctionName != K.SourceCodeFunctionName) C.violation("json:text", J.dump());
    if (I.empty() != I.SourceCodeLine.empty()) C.violation("info:empty", "");
  }
  for (int N = 0; N < 60 && !All.empty(); ++N) {
    auto A = All[R(All.size())], B = R.chance(1, 2) ? A : All[R(All.size())];
    if (R.chance(1, 3)) { // the same file below another directory
      auto Bs = base(B.SourceCodeFilename);
      static const char *Ds[] = {"", "/other/", "sub/", "/a/b/c/", "./"};
      if (!Bs.empty()) B.SourceCodeFilename = Ds[R(5)] + Bs;
    }
    if (R.chance(1, 6)) { // a similar name
      auto Bs = base(B.SourceCodeFilename);
      static const char *Ns[] = {"x", "do", ""};
      std::string D = B.SourceCodeFilename.substr(0, B.SourceCodeFilename.size() - Bs.size());
      if (Bs.size() > 1) B.SourceCodeFilename = R.chance(1, 2) ? D + Ns[R(2)] + Bs : D + Bs.substr(1);
    }
    if (R.chance(1, 12)) B.Line += 1;
    if (R.chance(1, 12)) B.Column += 1;
    if (R.chance(1, 12)) B.SourceCodeFunctionName += "x";
    if (R.chance(1, 12)) B.SourceCodeLine += " ";
    bool Eq = A.Line == B.Line && A.Column == B.Column && A.SourceCodeLine == B.SourceCodeLine && A.SourceCodeFilename == B.SourceCodeFilename;
    bool Equiv = A.Line == B.Line && A.Column == B.Column && A.SourceCodeLine == B.SourceCodeLine && A.SourceCodeFunctionName == B.SourceCodeFunctionName && base(A.SourceCodeFilename) == base(B.SourceCodeFilename);
    std::string D = "'" + A.SourceCodeFilename + "' (" + A.SourceCodeFunctionName + ") and '" + B.SourceCodeFilename + "' (" + B.SourceCodeFunctionName + ")";
    if ((A == B) != Eq || (A != B) == Eq) C.violation("info:equal", D);
    if (A.equivalentWith(B) != Equiv) C.violation(Equiv ? "info:not-equivalent" : "info:equivalent", D);
    C.count(Equiv ? "equivalent_infos" : "different_infos");
  }
}

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  std::string Root = C.OutDir + "/p22-" + std::to_string(getpid());
  fs::remove_all(Root);
  fs::create_directories(Root + "/src/sub");
  fs::create_directories(Root + "/include");
  struct Cleanup { std::string D; ~Cleanup() { std::error_code E; fs::remove_all(D, E); } } Cl{Root};
  llvm::LLVMContext LC;
  llvm::Module M("the-module", LC);
  M.setSourceFileName(R.chance(1, 2) ? "src/fallback.c" : Root + "/src/fallback.c");
  M.addModuleFlag(llvm::Module::Warning, "Debug Info Version", llvm::DEBUG_METADATA_VERSION);
  llvm::DIBuilder DB(M);
  llvm::IRBuilder<llvm::NoFolder> B(LC);
  // files
  std::vector<SrcFile> Files;
  for (unsigned I = 0, N = 1 + R(4); I < N; ++I) {
    SrcFile F;
    std::string Stem = (R.chance(1, 2) ? "a" : "main") + std::to_string(I) + (R.chance(1, 2) ? ".c" : ".inc");
    std::string Name, On;
    switch (R(7)) {
    case 0: F.Dir = Root + "/src"; Name = Stem; On = F.Dir + "/" + Name; break;
    case 1: F.Dir = Root; Name = "src/sub/" + Stem; On = F.Dir + "/" + Name; break;
    case 2: F.Dir = Root + "/src"; Name = "../include/" + Stem; On = F.Dir + "/" + Name; break;
    case 3: F.Dir = "/nowhere"; Name = Root + "/include/" + Stem; On = Name; break;
    case 4: F.Dir = ""; Name = Root + "/src/" + Stem; On = Name; break;
    case 5: F.Dir = Root + "/src/"; Name = "./" + Stem; On = F.Dir + Name; break;
    case 6: F.Dir = Root + "/src"; Name = R.chance(1, 2) ? "sub" : R.chance(1, 2) ? "gone/" + Stem : std::string(300, 'n') + ".c"; On = F.Dir + "/" + Name; F.Exists = false; break;
    }
    F.Path = On;
    F.Exists = Name != "sub" && Name.size() < 200 && Name.find("gone/") == std::string::npos;
    if (F.Exists) {
      for (unsigned L = R(12); L--;) F.Lines.push_back(randLine(R));
      bool CRLF = R.chance(1, 4), LastNL = R.chance(1, 2);
      for (unsigned L = 0; L < F.Lines.size(); ++L) F.Raw += F.Lines[L] + (L + 1 < F.Lines.size() || LastNL ? (CRLF ? "\r\n" : "\n") : "");
      std::ofstream(On, std::ios::binary) << F.Raw;
      if (CRLF) for (unsigned L = 0; L < F.Lines.size(); ++L) if (L + 1 < F.Lines.size() || LastNL) F.Lines[L] += "\r";
    }
    F.DI = DB.createFile(Name, F.Dir);
    Files.push_back(F);
  }
  auto *CU = DB.createCompileUnit(llvm::dwarf::DW_LANG_C_plus_plus_14, Files[0].DI, "gen", R.chance(1, 2), "", 0);
  auto *DInt = DB.createBasicType("int", 32, llvm::dwarf::DW_ATE_signed);
  auto *I32 = B.getInt32Ty();
  std::map<const llvm::Value *, Expect> Ex;
  auto line = [&](int F) { return (unsigned)(R.chance(1, 8) ? 50 + R(1000) : 1 + R(Files[F].Lines.size() + 1)); };
  // globals
  for (unsigned I = 0, N = R(4); I < N; ++I) {
    auto *G = new llvm::GlobalVariable(M, I32, false, llvm::GlobalValue::InternalLinkage, B.getInt32(I), "_ZL1g" + std::to_string(I));
    Expect E;
    if (R.chance(3, 4)) {
      int F = R(Files.size());
      unsigned L = line(F);
      auto *X = DB.createGlobalVariableExpression(CU, "g" + std::to_string(I), R.chance(1, 2) ? "" : G->getName(), Files[F].DI, L, DInt, true);
      G->addDebugInfo(X);
      E.Var = "g" + std::to_string(I);
      E.Ps.push_back({L, 0, F});
    }
    Ex[G] = E;
  }
  auto *STy = DB.createSubroutineType(DB.getOrCreateTypeArray({DInt, DInt}));
  std::vector<llvm::Function *> Fs;
  std::vector<llvm::DISubprogram *> SPs;
  std::vector<int> SPFile;
  unsigned NF = 1 + R(4);
  for (unsigned FI = 0; FI < NF; ++FI) {
    static const char *Ns[] = {"_Z1fi", "g", "_ZN2ns1hEv", "main", "_ZN1SC2Ei"};
    unsigned NA = R(4);
    auto *F = llvm::Function::Create(llvm::FunctionType::get(I32, std::vector<llvm::Type *>(NA, I32), false), llvm::GlobalValue::ExternalLinkage, Ns[FI], M);
    int File = R(Files.size());
    unsigned L = line(File);
    llvm::DISubprogram *SP = nullptr;
    Expect E;
    E.Fun = F->getName().str();
    if (R.chance(5, 6)) {
      bool NoFile = R.chance(1, 10); // as compilers do for what they generate themselves
      if (NoFile) L = 0;
      auto *U = NoFile ? nullptr : Files[File].DI;
      SP = DB.createFunction(CU, "f" + std::to_string(FI), F->getName(), U, L, STy, NoFile ? 0 : L + R(3), llvm::DINode::FlagPrototyped, llvm::DISubprogram::SPFlagDefinition);
      F->setSubprogram(SP);
      E.Ps.push_back({L, 0, NoFile ? -2 : File});
      if (NoFile) C.count("functions_without_file");
      if (NoFile) File = -2;
    }
    Ex[F] = E;
    Fs.push_back(F);
    SPs.push_back(SP);
    SPFile.push_back(File);
  }
  for (unsigned FI = 0; FI < NF; ++FI) {
    auto *F = Fs[FI];
    auto *SP = SPs[FI];
    auto *BB = llvm::BasicBlock::Create(LC, "", F);
    B.SetInsertPoint(BB);
    B.SetCurrentDebugLocation(llvm::DebugLoc());
    std::vector<std::pair<llvm::DIScope *, int>> Scopes; // scope and the file of its positions
    std::vector<llvm::DILocation *> InlinedAt;
    if (SP) {
      Scopes.push_back({SP, SPFile[FI]});
      for (unsigned N = R(3); N--;) {
        auto &P = R.pick(Scopes);
        int G = R.chance(1, 2) ? (int)R(Files.size()) : P.second;
        auto *U = G < 0 ? nullptr : Files[G].DI;
        if (G == P.second || G < 0) Scopes.push_back({DB.createLexicalBlock(P.first, U, 1 + R(9), R(9)), G});
        else Scopes.push_back({DB.createLexicalBlockFile(P.first, U), G});
      }
    }
    struct At { llvm::DILocation *L = nullptr; Pos P; };
    auto at = [&]() -> At {
      if (!SP) return {};
      auto [S, G] = R.pick(Scopes);
      llvm::DILocation *IA = nullptr;
      if (R.chance(1, 5) && SPs[(FI + 1) % NF]) { // code of another function inlined here
        IA = llvm::DILocation::get(LC, 1 + R(9), R(9), S);
        S = SPs[(FI + 1) % NF];
        G = SPFile[(FI + 1) % NF];
        C.count("inlined_positions");
      }
      unsigned L = G < 0 ? 1 + R(9) : line(G), Co = R(30);
      return {llvm::DILocation::get(LC, L, Co, S, IA), {L, Co, G}};
    };
    auto place = [&](llvm::Value *V, At A, const std::string &Name, bool Attach) {
      Expect E;
      E.Fun = F->getName().str();
      if (Attach && A.L)
        if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) { I->setDebugLoc(A.L); E.Ps.push_back(A.P); }
      Ex[V] = E;
    };
    unsigned ArgNo = 0;
    auto declare = [&](llvm::Value *Slot, bool Param, const std::vector<llvm::Value *> &For) {
      // the variable, its declaration and the position of it are in one scope
      At A = at();
      if (!A.L || A.L->getInlinedAt()) return;
      auto *S = A.L->getScope();
      std::string N = (Param ? "p" : "v") + std::to_string(R(100));
      auto *Fi = A.P.File < 0 ? nullptr : Files[A.P.File].DI;
      auto *V = Param ? DB.createParameterVariable(SP, N, ++ArgNo, Fi, A.P.Line, DInt, true) : DB.createAutoVariable(S, N, Fi, A.P.Line, DInt, true);
      if (Slot->getType()->isPointerTy()) DB.insertDeclare(Slot, V, DB.createExpression(), A.L, BB);
      else DB.insertDbgValueIntrinsic(Slot, V, DB.createExpression(), A.L, BB);
      for (auto *X : For) {
        if (Slot->getType()->isPointerTy() || llvm::isa<llvm::Argument>(X)) Ex[X].Ps.clear(); // the declaration decides
        Ex[X].Ps.push_back(A.P);
        Ex[X].Var = N;
      }
      C.count("variables");
    };
    for (auto &A : F->args()) Ex[&A].Fun = F->getName().str();
    std::vector<llvm::Value *> Slots, Vals;
    Vals.push_back(B.getInt32(7));
    for (auto &A : F->args()) {
      switch (R(3)) {
      case 0: { // kept in memory
        auto *S = B.CreateAlloca(I32);
        place(S, {}, "", false);
        auto *St = B.CreateStore(&A, S);
        place(St, at(), "", R.chance(1, 2));
        Slots.push_back(S);
        if (SP && R.chance(4, 5)) declare(S, true, {S, &A});
        if (R.chance(1, 2)) Vals.push_back(&A); // and used directly
        break;
      }
      case 1: if (SP) declare(&A, true, {&A}); Vals.push_back(&A); break;
      case 2: Vals.push_back(&A); break;
      }
    }
    for (unsigned N = 2 + R(8); N--;) {
      auto val = [&] { return R.pick(Vals); };
      switch (R(6)) {
      case 0: {
        auto *S = B.CreateAlloca(I32);
        place(S, at(), "", R.chance(1, 3));
        Slots.push_back(S);
        if (SP && R.chance(4, 5)) declare(S, false, {S});
        break;
      }
      case 1: if (!Slots.empty()) { auto *X = B.CreateLoad(I32, R.pick(Slots)); place(X, at(), "", R.chance(4, 5)); Vals.push_back(X); } break;
      case 2: if (!Slots.empty()) place(B.CreateStore(B.getInt32(3), R.pick(Slots)), at(), "", R.chance(4, 5)); break;
      case 3: {
        auto *X = B.CreateAdd(val(), B.getInt32(1));
        place(X, at(), "", R.chance(4, 5));
        Vals.push_back(X);
        if (SP && R.chance(1, 3)) { declare(X, false, {X}); C.count("values_with_variable"); }
        break;
      }
      case 4: { // a value that is one part of a described variable only
        auto *X = llvm::cast<llvm::Instruction>(B.CreateAdd(val(), B.getInt32(2)));
        auto *Y = llvm::cast<llvm::Instruction>(B.CreateSub(X, B.getInt32(2)));
        for (auto *V : {X, Y}) { place(V, at(), "", SP); Vals.push_back(V); }
        if (!SP || SPFile[FI] < 0) break;
        auto *DV = DB.createAutoVariable(SP, "combined", Files[SPFile[FI]].DI, 1, DInt, true);
        auto *D = llvm::cast<llvm::CallInst>(DB.insertDbgValueIntrinsic(X, DV, DB.createExpression(), llvm::DILocation::get(LC, 1, 1, SP), BB));
        D->setArgOperand(0, llvm::MetadataAsValue::get(LC, llvm::DIArgList::get(LC, {llvm::ValueAsMetadata::get(X), llvm::ValueAsMetadata::get(Y)})));
        D->setArgOperand(2, llvm::MetadataAsValue::get(LC, DB.createExpression({llvm::dwarf::DW_OP_LLVM_arg, 0, llvm::dwarf::DW_OP_LLVM_arg, 1, llvm::dwarf::DW_OP_plus, llvm::dwarf::DW_OP_stack_value})));
        C.count("partly_described_values", 2);
        break;
      }
      case 5: {
        auto *G = Fs[R(NF)];
        std::vector<llvm::Value *> As;
        for (auto &X : G->args()) { (void)X; As.push_back(val()); }
        auto *X = B.CreateCall(G, As);
        place(X, at(), "", SP); // calls of functions with debug information need a position
        Vals.push_back(X);
        if (SP && R.chance(1, 3)) { declare(X, false, {X}); C.count("values_with_variable"); }
        break;
      }
      }
    }
    place(B.CreateRet(B.getInt32(0)), at(), "", R.chance(4, 5));
  }
  DB.finalize();
  C.Artifact = modStr(M);
  std::string Err;
  llvm::raw_string_ostream EO(Err);
  bool Broken = false;
  if (llvm::verifyModule(M, &EO, &Broken) || Broken) { fprintf(stderr, "generator: %s\n%s", EO.str().c_str(), C.Artifact.c_str()); abort(); }
  C.note();
  // check
  psr::LLVMSourceManager SM;
  std::vector<psr::SourceCodeInfo> Infos;
  uint64_t H = 0;
  for (auto &[V, E] : Ex) {
    std::string At = instStr(V).substr(0, 120);
    auto bad = [&](const char *K, const std::string &Got, const std::string &Want) { C.violation(K, "'" + At + "': reported '" + Got + "', expected '" + Want + "'"); };
    C.count("values");
    if (psr::getVarNameFromIR(V) != E.Var) bad("variable", psr::getVarNameFromIR(V), E.Var);
    bool Local = !llvm::isa<llvm::GlobalVariable>(V);
    if (psr::getFunctionNameFromIR(V) != E.Fun) bad("function", psr::getFunctionNameFromIR(V), E.Fun);
    if (psr::getModuleIDFromIR(V) != "the-module") bad("module", psr::getModuleIDFromIR(V), "the-module");
    unsigned L = psr::getLineFromIR(V), Co = psr::getColumnFromIR(V);
    auto LC2 = psr::getLineAndColFromIR(V);
    if (LC2.first != L || LC2.second != Co) bad("line-and-column", std::to_string(LC2.first) + ":" + std::to_string(LC2.second), std::to_string(L) + ":" + std::to_string(Co));
    const Pos *P = nullptr;
    for (auto &X : E.Ps) if (X.Line == L && X.Col == Co) P = &X;
    if (E.Ps.empty()) {
      if (L || Co) bad("position:invented", std::to_string(L) + ":" + std::to_string(Co), "none");
      C.count("values_without_position");
    } else if (!P) {
      bad("position", std::to_string(L) + ":" + std::to_string(Co), std::to_string(E.Ps[0].Line) + ":" + std::to_string(E.Ps[0].Col));
      continue;
    } else C.count("positions");
    std::string Fallback = Local ? M.getSourceFileName() : "";
    std::string Path = P && P->File >= 0 ? Files[P->File].Path : Fallback;
    std::string GotPath = psr::getFilePathFromIR(V);
    if (GotPath != Path && GotPath.size() && Path.size() && fs::path(GotPath).lexically_normal() == fs::path(Path).lexically_normal()) GotPath = Path;
    if (GotPath != Path) bad(P ? "file" : "file:fallback", GotPath, Path);
    if (P && P->File >= 0) {
      auto *DF = psr::getDIFileFromIR(V);
      if (DF != Files[P->File].DI) bad("difile", DF ? DF->getFilename().str() : "none", Path);
      if (auto D = psr::getDirectoryFromIR(V); D != Files[P->File].Dir) bad("directory", D, Files[P->File].Dir);
    }
    // the line of source code
    std::string Line;
    bool Have = P && P->File >= 0 && Files[P->File].Exists;
    if (Have && P->Line <= Files[P->File].Lines.size()) { Line = Files[P->File].Lines[P->Line - 1]; C.count("source_lines"); }
    if (auto S = psr::getSrcCodeFromIR(V, false); S != Line) bad("source-line", S, Line);
    if (auto S = psr::getSrcCodeFromIR(V); S != trim(Line)) bad("source-line:trimmed", S, trim(Line));
    auto I = psr::getSrcCodeInfoFromIR(V);
    if (I.SourceCodeLine != trim(Line) || I.SourceCodeFilename != psr::getFilePathFromIR(V) || I.Line != L || I.Column != Co || I.SourceCodeFunctionName != llvm::demangle(E.Fun))
      bad("info", I.SourceCodeFilename + ":" + std::to_string(I.Line) + ":" + std::to_string(I.Column) + " " + I.SourceCodeFunctionName + " " + I.SourceCodeLine, "the single answers");
    Infos.push_back(I);
    // diagnostics
    auto DL = psr::getDebugLocation(V);
    if (DL.has_value() != (P != nullptr)) bad("debug-location", DL ? "some" : "none", P ? "some" : "none");
    else if (DL && (DL->Line != L || DL->Column != Co || DL->File != (P->File >= 0 ? Files[P->File].DI : nullptr))) bad("debug-location", std::to_string(DL->Line), std::to_string(L));
    auto ML = SM.getDebugLocation(V);
    if (ML.has_value() != Have) bad("managed-location", ML ? "some" : "none", Have ? "some" : "none");
    else if (ML) {
      if (ML->Line != L || ML->Column != Co) bad("managed-location", std::to_string(ML->Line), std::to_string(L));
      std::string Out;
      llvm::raw_string_ostream OS(Out);
      SM.print(OS, *ML, llvm::SourceMgr::DK_Warning, "the message");
      OS.flush();
      C.count("diagnostics");
      auto &Ls = Files[P->File].Lines;
      std::string Plain = P->Line <= Ls.size() ? Ls[P->Line - 1] : "";
      if (!Plain.empty() && Plain.back() == '\r') Plain.pop_back();
      if (Out.find("the message") == std::string::npos) bad("diagnostic:message", Out, "the message");
      if (P->Line <= Ls.size() && Co <= Plain.size()) {
        std::string Head = GotPath + ":" + std::to_string(L) + ":" + std::to_string(Co ? Co : 1) + ": warning: the message\n";
        auto Nl = Out.find('\n');
        std::string OutHead = Out.substr(0, Nl + 1);
        if (OutHead != Head && fs::path(OutHead).lexically_normal() != fs::path(Head).lexically_normal()) bad("diagnostic:position", OutHead, Head);
        C.count("diagnostics_with_position");
      }
    }
    H = mixn(H, L, Co, Line.size());
  }
  checkInfo(C, R, Infos);
  C.nontrivial(H);
  C.sample(C.Artifact);
}
