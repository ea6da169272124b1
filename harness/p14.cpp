// P14: call graphs and alias information survive a round trip through their JSON files, also into a freshly loaded copy of the module.
#include "common.h"
#include "irgen.h"
#include "llvm/AsmParser/Parser.h"
#include "llvm/Support/FileSystem.h"
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/ControlFlow/CallGraphData.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/ControlFlow/Resolver/Resolver.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
#include "llvm/Support/SourceMgr.h"
#include <unistd.h>
using namespace vf;
using CGT = psr::CallGraphAnalysisType;
void vfInit(Ctx &) { psr::Logger::disable(); }

// A call graph by names and positions, independent of ids and of the module instance.
struct Cg {
  std::set<std::string> Funs;
  std::map<std::string, std::multiset<std::string>> Callers, Callees; // function -> sites, site -> functions
  size_t NumF = 0, NumS = 0;
  bool operator==(const Cg &O) const { return Funs == O.Funs && Callers == O.Callers && Callees == O.Callees && NumF == O.NumF; }
  std::string diff(const Cg &O) const {
    std::string D;
    auto one = [&](auto &A, auto &B, const char *W) { for (auto &X : A) if (!B.count(X)) D += std::string(W) + X + "; "; };
    one(Funs, O.Funs, "function lost: ");
    one(O.Funs, Funs, "function gained: ");
    auto mp = [&](auto &A, auto &B, const char *W) { for (auto &[K, V] : A) { auto It = B.find(K); if (It == B.end() || It->second != V) D += std::string(W) + K + " (" + std::to_string(V.size()) + " vs " + std::to_string(It == B.end() ? 0 : It->second.size()) + "); "; } };
    mp(Callers, O.Callers, "callers of ");
    mp(O.Callers, Callers, "callers of (2) ");
    mp(Callees, O.Callees, "callees at ");
    mp(O.Callees, Callees, "callees at (2) ");
    if (NumF != O.NumF) D += "vertex functions " + std::to_string(NumF) + "/" + std::to_string(O.NumF);
    return D.substr(0, 1500);
  }
};
using Pos = std::map<const llvm::Instruction *, std::string>;
static Pos positions(const llvm::Module &M) {
  Pos P;
  for (auto &F : M) { unsigned I = 0; for (auto &BB : F) for (auto &X : BB) P[&X] = F.getName().str() + "#" + std::to_string(I++); }
  return P;
}
static Cg view(const psr::LLVMBasedICFG &I, const llvm::Module &M, const Pos &P, Ctx &C) {
  Cg G;
  auto &CG = I.getCallGraph();
  for (auto *F : CG.getAllVertexFunctions()) { if (!F) { C.violation("null-function", ""); continue; } G.Funs.insert(F->getName().str()); }
  for (auto *S : CG.getAllVertexCallSites()) { if (!S) { C.violation("null-call-site", ""); continue; } if (!P.count(S)) { C.violation("foreign-call-site", ""); continue; } }
  G.NumF = CG.getNumVertexFunctions();
  G.NumS = CG.getNumVertexCallSites();
  for (auto &F : M) {
    for (auto *S : CG.getCallersOf(&F)) { if (!S) { C.violation("null-caller", F.getName().str()); continue; } G.Callers[F.getName().str()].insert(P.at(S)); }
    for (auto &BB : F) for (auto &X : BB) for (auto *T : CG.getCalleesOfCallAt(&X)) G.Callees[P.at(&X)].insert(T->getName().str());
  }
  return G;
}
static Cg without(Cg G, const std::function<bool(const std::string &)> &Drop) {
  Cg R;
  for (auto &F : G.Funs) if (!Drop(F)) R.Funs.insert(F);
  auto site = [&](const std::string &S) { return Drop(S.substr(0, S.find('#'))); };
  for (auto &[F, Ss] : G.Callers) if (!Drop(F)) for (auto &S : Ss) if (!site(S)) R.Callers[F].insert(S);
  for (auto &[S, Fs] : G.Callees) if (!site(S)) for (auto &F : Fs) if (!Drop(F)) R.Callees[S].insert(F);
  R.NumF = R.Funs.size();
  return R;
}

static const char *Tiny[] = {
    "define i32 @main() {\n  ret i32 0\n}\n",
    "@g = global i32 0\ndefine i32 @main() {\n  ret i32 0\n}\n",
    "declare void @ext()\ndefine void @main() {\n  call void @ext()\n  ret void\n}\n",
    "@g = global i32 0\n",
    "define void @f.1(i32* %p) {\n  %q = load i32, i32* %p\n  ret void\n}\ndefine void @main() {\n  %a = alloca i32\n  call void @f.1(i32* %a)\n  call void @f.1(i32* %a)\n  ret void\n}\n",
};

void vfRunCase(Ctx &C) {
  Rng R = C.rng(14);
  bool IsTiny = C.Case < sizeof(Tiny) / sizeof(*Tiny);
  std::string Text;
  if (IsTiny) Text = Tiny[C.Case];
  else {
    IrOpts O;
    O.MaxBlocks = 1 + C.Case % 4;
    O.MaxFuns = 2 + C.Case % 7;
    O.MaxInsts = 7;
    O.Unreach = C.Case % 3 == 0;
    O.Dbg = C.Case % 4 == 0;
    auto Mod = genIr(R, O);
    for (auto &F : *Mod.M) // names with dots, as linkers and optimisers produce them
      if (!F.isDeclaration() && F.getName() != "main" && R.chance(1, 4)) F.setName(F.getName() + "." + std::to_string(R(9)));
    Text = modStr(*Mod.M);
  }
  C.Artifact = Text;
  if (C.Case % 16 == 0) C.note();
  uint64_t H = C.Seed, Edges = 0;
  auto load = [&](llvm::LLVMContext &LC) { llvm::SMDiagnostic D; return llvm::parseAssemblyString(Text, D, LC); };
  llvm::LLVMContext LC1;
  auto M1 = load(LC1);
  if (!M1) { C.violation("harness:parse", ""); return; }
  std::string File = C.OutDir + "/p14_" + std::to_string(getpid()) + ".json";
  auto write = [&](const std::string &S) { std::error_code EC; llvm::raw_fd_ostream OS(File, EC); OS << S; };
  CGT Kinds[] = {CGT::CHA, CGT::RTA, CGT::DTA, CGT::OTF, CGT::NORESOLVE};
  int K = C.Case % 5;
  bool Glob = M1->getFunction("main") && C.Case % 3 == 1;
  std::vector<std::string> EPs = {"main"};
  for (auto *N : {"_GLOBAL__sub_I_gen", "gdtor"}) if (!Glob && M1->getFunction(N) && R.chance(1, 2)) EPs.push_back(N);
  if (!M1->getFunction("main")) EPs = {};
  psr::LLVMProjectIRDB DB(M1.get(), true);
  psr::LLVMTypeHierarchy TH(DB);
  psr::LLVMAliasSet PT(&DB, false);
  psr::LLVMBasedICFG I(&DB, Kinds[K], EPs, &TH, &PT, psr::Soundness::Soundy, Glob);
  Pos P1 = positions(*M1);
  Cg A = view(I, *M1, P1, C);
  for (auto &[S, Fs] : A.Callees) Edges += Fs.size();

  std::string Js;
  { llvm::raw_string_ostream OS(Js); I.printAsJson(OS); }
  // 1. into the same module
  auto D1 = psr::CallGraphData::loadJsonString(Js);
  psr::LLVMBasedICFG I1(&DB, D1);
  ++C.Evaluations;
  auto B = view(I1, *M1, P1, C);
  if (!(A == B)) C.violation("call-graph", A.diff(B));
  // call sites without callees are no edges; all others are vertices
  for (auto &[S, Fs] : B.Callees) if (Fs.empty()) C.violation("empty-vertex", S);
  // 2. through a file
  write(Js);
  psr::LLVMBasedICFG I2(&DB, psr::CallGraphData::deserializeJson(File));
  unlink(File.c_str());
  auto B2 = view(I2, *M1, P1, C);
  if (!(A == B2)) C.violation("call-graph-file", A.diff(B2));
  // 3. printing what was loaded gives the same again
  std::string Js1;
  { llvm::raw_string_ostream OS(Js1); I1.printAsJson(OS); }
  psr::LLVMBasedICFG I3(&DB, psr::CallGraphData::loadJsonString(Js1));
  auto B3 = view(I3, *M1, P1, C);
  if (!(A == B3)) C.violation("call-graph-twice", A.diff(B3));
  // the other observers of the loaded graph
  for (auto &F : *M1) {
    if (llvm::size(I1.getCallsFromWithin(&F)) != llvm::size(I.getCallsFromWithin(&F))) C.violation("calls-from-within", F.getName().str());
    for (auto &BB : F)
      for (auto &X : BB)
        if (I1.isVirtualFunctionCall(&X) != I.isVirtualFunctionCall(&X) || I1.isIndirectFunctionCall(&X) != I.isIndirectFunctionCall(&X)) C.violation("call-kind", instStr(&X));
  }
  // 4. into a fresh copy of the module, as another run of the tool would
  {
    llvm::LLVMContext LC2;
    auto M2 = load(LC2);
    psr::LLVMProjectIRDB DB2(M2.get(), R.chance(1, 2));
    Pos P2 = positions(*M2);
    psr::LLVMBasedICFG IF(&DB2, D1);
    auto BF = view(IF, *M2, P2, C);
    // what the model of the global constructors added is not part of the original module
    auto AF = without(A, [&](const std::string &F) { return M2->getFunction(F) == nullptr; });
    if (!(AF == BF)) C.violation(Glob ? "fresh-copy-globals" : "fresh-copy", AF.diff(BF));
    if (Glob) C.count("fresh_copies_without_model"); else C.count("fresh_copies");
    // unknown functions and instruction ids are skipped
    auto Dx = D1;
    Dx.FToFunctionVertexTy["no_such_function"] = {0, 1, 2};
    size_t Big = DB2.getNumInstructions() + DB2.getNumGlobals();
    if (!Dx.FToFunctionVertexTy.empty())
      for (auto &[F, Ids] : Dx.FToFunctionVertexTy) {
        if (R.chance(1, 2)) Ids.push_back(Big + R(1000) + 1000);
        if (R.chance(1, 4) && DB2.getNumGlobals()) Ids.insert(Ids.begin(), R(DB2.getNumGlobals())); // a global variable's id
      }
    psr::LLVMBasedICFG IX(&DB2, Dx);
    auto BX = view(IX, *M2, P2, C);
    if (!(AF == BX)) C.violation("invalid-entries", AF.diff(BX));
  }

  // 5. alias information; after an OTF call graph it also holds what calls exchange
  {
    std::vector<const llvm::Value *> Vs;
    std::set<const llvm::Value *> SeenC;
    auto add = [&](const llvm::Value *V) { if (V->getType()->isPointerTy()) Vs.push_back(V); };
    auto collect = [&](llvm::Module &M) {
      Vs.clear();
      SeenC.clear();
      for (auto &G : M.globals()) add(&G);
      for (auto &F : M) {
        add(&F);
        if (F.isDeclaration()) continue;
        for (auto &X : F.args()) add(&X);
        for (auto &BB : F)
          for (auto &X : BB) {
            add(&X);
            for (auto &Op : X.operands())
              if (llvm::isa<llvm::ConstantExpr>(Op) && SeenC.insert(Op).second) { add(Op); C.count("constant_expressions"); }
          }
      }
    };
    collect(*M1);
    for (unsigned N = R(4); N-- && !Vs.empty();) { auto *X = Vs[R(Vs.size())], *Y = Vs[R(Vs.size())]; PT.introduceAlias(X, Y); }
    std::vector<unsigned> Cls(Vs.size()); // index of the first value with the same set
    std::vector<std::set<const llvm::Value *>> Sets;
    for (auto *V : Vs) { auto S = PT.getAliasSet(V); Sets.push_back({S->begin(), S->end()}); }
    auto rel = [&](psr::LLVMAliasSet &X, const std::vector<const llvm::Value *> &Ws, const char *Key) {
      uint64_t NAl = 0;
      std::map<const llvm::Value *, unsigned> Ix;
      for (unsigned K = 0; K < Ws.size(); ++K) Ix[Ws[K]] = K;
      for (unsigned K = 0; K < Ws.size(); ++K) {
        auto S = X.getAliasSet(Ws[K]);
        std::set<unsigned> Got, Want;
        for (auto *Y : *S) { auto It = Ix.find(Y); if (It != Ix.end()) Got.insert(It->second); else if (!llvm::isa<llvm::Constant>(Y)) C.violation(std::string(Key) + "-foreign", instStr(Y)); }
        for (unsigned J = 0; J < Vs.size(); ++J) if (Sets[K].count(Vs[J])) Want.insert(J);
        NAl += Want.size() > 1;
        ++C.Evaluations;
        if (Got != Want) {
          std::string D = instStr(Vs[K]).substr(0, 100);
          for (auto J : Want) if (!Got.count(J)) D += " lost: " + instStr(Vs[J]).substr(0, 60);
          for (auto J : Got) if (!Want.count(J)) D += " gained: " + instStr(Vs[J]).substr(0, 60);
          C.violation(Key, D.substr(0, 900));
          return;
        }
      }
      C.count("pointers_with_aliases", NAl);
    };
    std::string AJ;
    { llvm::raw_string_ostream OS(AJ); PT.printAsJson(OS); }
    psr::LLVMAliasSet L(&DB, nlohmann::json::parse(AJ));
    rel(L, Vs, "alias-sets");
    auto Dat = psr::LLVMAliasSetData::loadJsonString(AJ);
    std::string AJ2;
    { llvm::raw_string_ostream OS(AJ2); Dat.printAsJson(OS); }
    psr::LLVMAliasSet L2(&DB, nlohmann::json::parse(AJ2));
    rel(L2, Vs, "alias-sets-data");
    write(AJ);
    auto Dat2 = psr::LLVMAliasSetData::deserializeJson(File);
    unlink(File.c_str());
    if (Dat2.AliasSets != Dat.AliasSets || Dat2.AnalyzedFunctions != Dat.AnalyzedFunctions) C.violation("alias-sets-file", "");
    { // entries that mean nothing in this module are skipped
      auto J = nlohmann::json::parse(AJ);
      static const char *Junk[] = {"99999999", "-1", "", "no_such_function.0", "main.77", "@no_such_function", "abc", "."};
      for (auto &S : J["AliasSets"]) if (R.chance(1, 2)) S.push_back(Junk[R(8)]);
      J["AliasSets"].push_back({Junk[R(8)], Junk[R(8)]});
      J["AnalyzedFunctions"].push_back("no_such_function");
      if (R.chance(1, 2)) J["AnalyzedFunctions"].push_back(17);
      psr::LLVMAliasSet LJ(&DB, J);
      rel(LJ, Vs, "alias-sets-invalid-entries");
    }
    { // printed again from the loaded
      std::string AJ3;
      { llvm::raw_string_ostream OS(AJ3); L.printAsJson(OS); }
      psr::LLVMAliasSet L3(&DB, nlohmann::json::parse(AJ3));
      rel(L3, Vs, "alias-sets-twice");
    }
    if (!Glob) {
      llvm::LLVMContext LC2;
      auto M2 = load(LC2);
      psr::LLVMProjectIRDB DB2(M2.get(), true);
      std::vector<const llvm::Value *> Old = Vs;
      collect(*M2);
      std::vector<const llvm::Value *> New = Vs;
      Vs = Old;
      psr::LLVMAliasSet LF(&DB2, nlohmann::json::parse(AJ));
      rel(LF, New, "alias-sets-fresh-copy");
      // an OTF call graph built on the loaded alias information resolves the same callees
      if (M2->getFunction("main")) {
        psr::LLVMAliasSet PT0(&DB, nlohmann::json::parse(AJ));
        psr::LLVMBasedICFG O1(&DB, CGT::OTF, EPs, &TH, &PT, psr::Soundness::Soundy, false);
        psr::LLVMTypeHierarchy TH2(DB2);
        psr::LLVMBasedICFG O2(&DB2, CGT::OTF, EPs, &TH2, &LF, psr::Soundness::Soundy, false);
        auto V1 = view(O1, *M1, P1, C), V2 = view(O2, *M2, positions(*M2), C);
        if (!(V1 == V2)) C.violation("otf-on-loaded-aliases", V1.diff(V2));
        C.count("otf_on_loaded");
      }
    }
  }
  C.count("call_edges", Edges);
  H = mixn(H, Edges, hstr(Js));
  if (Edges > 2) C.nontrivial(H);
  C.sample(std::to_string(A.Funs.size()) + " functions, " + std::to_string(Edges) + " call edges");
}
