// P30: the model of the C runtime (global constructors and destructors) against what the compiled program really does.
#include "common.h"
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/PhasarLLVM/ControlFlow/EntryFunctionUtils.h"
#include "phasar/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace vf;
using Model = psr::GlobalCtorsDtorsModel;

static const char *Cxx = "clang++-14";
static std::string Rt;
void vfInit(Ctx &C) {
  psr::Logger::disable();
  Rt = C.OutDir + "/p30rt" + std::to_string(getpid());
  std::ofstream(Rt + ".c") << "#include <stdlib.h>\n#include <string.h>\n#include <stdio.h>\n#include <unistd.h>\n"
                              "void event(int X) { char B[32]; int N = snprintf(B, 32, \"%d\\n\", X); if (write(1, B, N) != N) _exit(9); }\n"
                              "int __psrCRuntimeUserEntrySelector(void) { char *E = getenv(\"VF_SEL\"); return E ? atoi(E) : 0; }\n"
                              "int vf_atexit_stub(void (*F)(void *), void *A, void *D) { return 0; }\n";
  if (system(("clang-14 -c -O1 " + Rt + ".c -o " + Rt + ".o").c_str())) exit(4);
  unlink((Rt + ".c").c_str());
}

struct Gen {
  Rng &R;
  int Next = 1;
  explicit Gen(Rng &R) : R(R) {}
  std::vector<std::string> Libs;
  std::string Feats, Init;
  int id() { return Next++; }
  std::string tu(int N, bool Main, bool Two) {
    std::string S = "extern \"C\" void event(int);\nextern \"C\" int __cxa_atexit(void (*)(void *), void *, void *) noexcept;\n", T = std::to_string(N);
    S += "namespace n" + T + " {\nstruct A { int id; A(int i) : id(i) { event(i); } ~A() { event(-id); } };\n"
         "struct B : A { char c; B(int i) : A(i) {} ~B() { event(-1000 - id); } };\n"
         "struct C { A a; B b; C(int i) : a(i), b(i + 500) { event(3000 + i); } };\n"
         "struct D { unsigned char c; D(int i) : c(i) { event(i); } virtual ~D() { event(-c); } };\n"
         "struct E { virtual ~E() { event(-7); } };\n}\nusing namespace n" + T + ";\n";
    bool Default = R.chance(1, 3), Inl = !Default && !Two && R.chance(1, 3);
    std::vector<std::string> Calls;
    int NG = (int)R(7);
    bool Local = false;
    for (int I = 0; I < NG; ++I) {
      std::string V = "g" + T + "_" + std::to_string(I);
      auto X = [&] { return std::to_string(id()); };
      switch (R(14)) {
      case 0: case 1: S += "static A " + V + "(" + X() + ");\n"; break;
      case 2: S += "B " + V + "(" + X() + ");\n"; break;
      case 3: S += "C " + V + "(" + X() + ");\n"; break;
      case 4: S += "A " + V + "[2] = {A(" + X() + "), A(" + X() + ")};\n"; Feats += "array "; break;
      case 5: S += "A " + V + " __attribute__((init_priority(" + std::to_string(101 + R(4) * 50) + ")))(" + X() + ");\n"; Feats += "init_priority "; break;
      case 6: S += "static D " + V + "(" + X() + ");\n"; break;
      case 7: S += "const A &" + V + " = A(" + X() + ");\n"; Feats += "reference "; break;
      case 8: if (Inl) { S += "inline A " + V + "(" + X() + "); A *u" + V + " = &" + V + ";\n"; Feats += "inline "; } break;
      case 9: case 10: { // attribute constructors and destructors
        std::string K = R.chance(1, 2) ? "constructor" : "destructor";
        bool Prio = K == "constructor" ? !Default || R.chance(1, 2) : R.chance(1, 2);
        S += "__attribute__((" + K + (Prio ? "(" + std::to_string(101 + R(4) * 50) + ")" : "") + ")) static void f" + V + "() { event(" + X() + "); }\n";
        Feats += K + " ";
        break;
      }
      case 11: // a local static, initialised by main or by the initialiser of a global
        if (!Local) {
          Local = true;
          S += "static int f" + V + "() { static A s(" + X() + "); return s.id; }\n";
          if (R.chance(1, 2)) S += "int i" + V + " = f" + V + "();\n"; else Calls.push_back("f" + V + "();");
          Feats += "local-static ";
        }
        break;
      case 12: // registered by hand
        if (!Local) {
          Local = true;
          S += "static void h" + V + "(void *p) { event(" + X() + "); }\n";
          std::string Arg = R.chance(1, 2) ? "0" : R.chance(1, 2) ? "new int" : "&argc0";
          S += "static int argc0" + V + ";\nstatic int r" + V + "() { int argc0 = 3; return __cxa_atexit(h" + V + ", " + Arg + ", 0); }\n";
          if (R.chance(1, 2)) S += "int i" + V + " = r" + V + "();\n"; else Calls.push_back("r" + V + "();");
          Feats += "atexit ";
        }
        break;
      case 13: S += "E " + V + ";\n"; break;
      }
    }
    for (int I = (int)R(3); I > 0; --I) {
      std::string L = "lib" + T + "_" + std::to_string(I);
      S += "extern \"C\" void " + L + "() { event(" + std::to_string(id() + 5000) + "); }\n";
      Libs.push_back(L);
    }
    if (!Main && Calls.size()) {
      S += "void init" + T + "() { ";
      for (auto &K : Calls) S += K + " ";
      S += "}\n";
      Feats += "init2 ";
      Init = "init" + T + "();";
    }
    if (Main) {
      if (!Init.empty()) { S += "void " + Init + "\n"; Calls.insert(Calls.begin(), Init); }
      S += R.chance(1, 2) ? "int main() { event(9000); " : "int main(int argc, char **argv) { event(9000 + argc + (argv[1] != 0)); ";
      for (auto &K : Calls) S += K + " ";
      S += "event(9999); return 0; }\n";
    }
    return S;
  }
};

static std::string slurp(const std::string &F) { std::ifstream I(F); return std::string(std::istreambuf_iterator<char>(I), {}); }

struct Prog {
  Ctx &C;
  std::string File;
  // runs an executable and returns its events
  bool run(const std::string &Exe, const std::string &Env, std::string &Out) {
    int RC = system((Env + " timeout 20 " + Exe + " > " + Exe + ".out 2>&1").c_str());
    Out = slurp(Exe + ".out");
    unlink((Exe + ".out").c_str());
    return RC == 0;
  }
  // compile a copy of the module in which main() does nothing but run the model
  bool buildModelExe(const llvm::Module &M, const llvm::Function *Mod, const std::string &Exe) {
    auto Cl = llvm::CloneModule(M);
    for (auto N : {"llvm.global_ctors", "llvm.global_dtors"})
      if (auto *G = Cl->getGlobalVariable(N)) G->eraseFromParent();
    if (auto *Mn = Cl->getFunction("main")) Mn->setName("vf_user_main");
    if (auto *A = Cl->getFunction("__cxa_atexit")) A->setName("vf_atexit_stub");
    auto *F = Cl->getFunction(Mod->getName());
    auto &LC = Cl->getContext();
    auto *I32 = llvm::Type::getInt32Ty(LC);
    auto *PP = llvm::Type::getInt8PtrTy(LC)->getPointerTo();
    auto *Main = llvm::Function::Create(llvm::FunctionType::get(I32, {I32, PP}, false), llvm::Function::ExternalLinkage, "main", *Cl);
    llvm::IRBuilder<> B(llvm::BasicBlock::Create(LC, "", Main));
    B.CreateCall(F, {Main->getArg(0), Main->getArg(1)});
    B.CreateRet(B.getInt32(0));
    { std::ofstream(Exe + ".ll") << modStr(*Cl); }
    int RC = system((std::string(Cxx) + " -w -x ir " + Exe + ".ll -x none " + Rt + ".o -o " + Exe + " 2>" + Exe + ".err").c_str());
    if (RC) C.violation("harness:link", slurp(Exe + ".err"));
    unlink((Exe + ".ll").c_str());
    unlink((Exe + ".err").c_str());
    return !RC;
  }
};

static const char *Fixed[] = {
    "int main() { return 0; }",
    "extern \"C\" void event(int); int main(int argc, char **argv) { event(argc); return 0; }",
    "extern \"C\" void event(int); __attribute__((destructor)) void d1() { event(1); } __attribute__((destructor)) void d2() { event(2); } int main() { event(3); return 0; }",
    "extern \"C\" void event(int); struct A { int i; A(int i) : i(i) { event(i); } ~A() { event(-i); } }; A a(1), b(2), c(3); __attribute__((destructor)) void d1() { event(9); } int main() { return 0; }",
    "extern \"C\" void event(int); extern \"C\" int __cxa_atexit(void (*)(void *), void *, void *) noexcept; static void f() { event(4); } int main() { __cxa_atexit((void (*)(void *))f, 0, 0); return 0; }",
};

void vfRunCase(Ctx &C) {
  Rng R = C.rng(301);
  Gen G(R);
  bool Fix = C.Case < sizeof(Fixed) / sizeof(*Fixed);
  bool Two = !Fix && R.chance(1, 3);
  std::vector<std::string> Srcs;
  if (Fix) Srcs.push_back(Fixed[C.Case]);
  else {
    std::string S1 = Two ? G.tu(1, false, true) : "";
    std::string S2 = G.tu(0, true, Two);
    if (Two) Srcs.push_back(S1);
    Srcs.push_back(S2);
  }
  for (auto &S : Srcs) C.Artifact += "// ---- translation unit\n" + S;
  std::string Opt = R.chance(1, 3) ? " -O1 -Xclang -disable-llvm-passes" : R.chance(1, 3) ? " -O2" : " -O0";
  if (R.chance(1, 2)) Opt += " -fno-threadsafe-statics";
  if (R.chance(1, 2)) Opt += " -fno-exceptions";
  std::string File = C.OutDir + "/p30_" + std::to_string(getpid()), Link;
  Prog P{C, File};
  for (size_t I = 0; I < Srcs.size(); ++I) {
    std::string F = File + "_" + std::to_string(I);
    { std::ofstream(F + ".cpp") << Srcs[I]; }
    int RC = system((std::string(Cxx) + " -std=c++17 -w" + Opt + " -S -emit-llvm " + F + ".cpp -o " + F + ".ll 2>" + F + ".err").c_str());
    if (RC) C.violation("harness:compile", slurp(F + ".err"));
    unlink((F + ".err").c_str());
    unlink((F + ".cpp").c_str());
    if (RC) return;
    Link += " " + F + ".ll";
  }
  std::string LL = File + "_0.ll";
  if (Two) {
    LL = File + "_l.ll";
    if (system(("llvm-link-14 -S" + Link + " -o " + LL).c_str())) { C.violation("harness:llvm-link", ""); return; }
  }
  std::string Native;
  if (system((std::string(Cxx) + " -w -x ir " + LL + " -x none " + Rt + ".o -o " + File + " 2>/dev/null").c_str()) || !P.run(File, "", Native)) { C.violation("harness:native", "cannot build or run"); return; }
  llvm::LLVMContext LC;
  llvm::SMDiagnostic Diag;
  bool BC = R.chance(1, 3);
  if (BC && system(("llvm-as-14 " + LL + " -o " + File + ".bc").c_str())) { C.violation("harness:as", ""); return; }
  auto MP = llvm::parseIRFile(BC ? File + ".bc" : LL, Diag, LC);
  for (auto X : {"", ".bc", "_0.ll", "_1.ll", "_l.ll"}) unlink((File + X).c_str());
  if (!MP) { C.violation("harness:parse", ""); return; }
  if (C.Case % 4 == 0) C.note();
  auto &M = *MP;
  auto bad = [&](const std::string &K, const std::string &D) { C.violation(K, D); };
  auto Lines = [](const std::string &S) { std::string T; for (char X : S) T += X == '\n' ? ' ' : X; return T; };
  std::set<std::string> Orig;
  for (auto &F : M) Orig.insert(F.getName().str());
  psr::LLVMProjectIRDB DB(&M, true);
  size_t Before = DB.getNumInstructions();
  bool Main2 = M.getFunction("main")->arg_size() == 2;
  // entry points
  std::vector<std::vector<std::string>> Requests = {{"main"}};
  if (!G.Libs.empty()) { auto V = G.Libs; V.insert(V.begin() + R(V.size() + 1), "main"); Requests.push_back(V); Requests.push_back({G.Libs[0]}); }
  Requests.push_back({"__ALL__"});
  Requests.push_back({"main", "no_such_function"});
  Requests.push_back({"main"});
  size_t First = R(Requests.size());
  std::swap(Requests[0], Requests[First]);
  size_t NReq = 1 + (R.chance(1, 2) ? 1 + R(2) : 0); // the model is built again for other users of the same module
  if (Fix) NReq = 3;
  for (size_t Q = 0; Q < NReq && Q < Requests.size(); ++Q) {
    auto &EPs = Requests[Q];
    std::string Pre = Q ? "again:" : "";
    std::string Desc;
    for (auto &E : EPs) Desc += E + " ";
    auto Want = psr::getEntryFunctionsMut(DB, EPs);
    auto WantC = psr::getEntryFunctions(DB, EPs);
    if (std::vector<const llvm::Function *>(Want.begin(), Want.end()) != WantC) bad(Pre + "entry-functions", Desc);
    // __ALL__ includes functions with parameters, which the model documents not to support
    const llvm::Function *Mod = nullptr;
    if (Q == 0 && R.chance(1, 2)) {
      psr::LLVMTypeHierarchy TH(DB);
      psr::LLVMBasedICFG ICF(&DB, psr::CallGraphAnalysisType::OTF, EPs, &TH, nullptr, psr::Soundness::Soundy, true);
      Mod = DB.getFunction(Model::ModelName);
      if (!Mod) { bad("no-model", Desc); return; }
      std::set<const llvm::Function *> Seen;
      std::vector<const llvm::Function *> WL = {Mod};
      while (!WL.empty()) { // everything the model calls is reachable in the call graph
        auto *F = WL.back();
        WL.pop_back();
        if (!Seen.insert(F).second) continue;
        for (auto &I : llvm::instructions(F))
          if (auto *CB = llvm::dyn_cast<llvm::CallBase>(&I))
            if (auto *Cal = CB->getCalledFunction()) {
              if (Cal->isIntrinsic()) continue;
              auto Cs = ICF.getCalleesOfCallAt(&I);
              if (std::find(Cs.begin(), Cs.end(), Cal) == Cs.end()) bad("call-graph", Cal->getName().str());
              ++C.Evaluations;
              WL.push_back(Cal);
            }
      }
      C.count("through_icfg");
    } else {
      Mod = Model::buildModel(DB, EPs);
      if (!Mod) { bad(Pre + "no-model", Desc); return; }
      if (Q == 0 && Mod != DB.getFunction(Model::ModelName)) bad("name", "model not found by its name");
    }
    std::string VE;
    llvm::raw_string_ostream OS(VE);
    if (llvm::verifyModule(M, &OS)) { bad(Pre + "invalid-ir", Desc + OS.str()); return; }
    for (auto &F : M) {
      bool New = !Orig.count(F.getName().str());
      if (Model::isPhasarGenerated(F) != New) bad("isPhasarGenerated", F.getName().str());
      if (psr::LLVMBasedICFG::isPhasarGenerated(F) != New) bad("isPhasarGenerated", F.getName().str());
      for (auto &I : llvm::instructions(F)) {
        ++C.Evaluations;
        if (DB.getInstruction(DB.getInstructionId(&I)) != &I) bad(Pre + "ids", F.getName().str() + ": " + instStr(&I));
      }
    }
    size_t N = 0;
    for (auto &F : M) N += F.getInstructionCount();
    if (DB.getNumInstructions() != N) bad(Pre + "ids", "number of instructions " + std::to_string(DB.getNumInstructions()) + " in the module: " + std::to_string(N) + " before: " + std::to_string(Before));
    std::string Exe = File + "_m";
    if (!P.buildModelExe(M, Mod, Exe)) return;
    C.count("models");
    C.count("events", std::count(Native.begin(), Native.end(), '\n'));
    bool Switch = Want.size() > 1;
    std::string MainStart = Native.substr(0, Native.find("900"));
    for (size_t K = 0; K < Want.size(); ++K) {
      auto *W = Want[K];
      if (!W->arg_empty() && W->getName() != "main") continue; // documented: not supported
      if (W->getReturnType()->isVoidTy() == false && W->getName() != "main") continue;
      std::string Got;
      if (!P.run(Exe, Switch ? "VF_SEL=" + std::to_string(K) : "", Got)) { bad(Pre + "crash", Desc + W->getName().str() + ": " + Lines(Got)); break; }
      ++C.Evaluations;
      C.count("traces");
      if (W->getName() == "main") {
        if (Got != Native) bad(Pre + "trace", Desc + "model " + std::to_string(K) + ": " + Lines(Got) + "; program: " + Lines(Native));
      } else if (W->getName().startswith("lib")) {
        C.count("library_entries");
        auto Nl = Got.rfind('\n', Got.size() - 2);
        std::string Last = Got.substr(Nl == std::string::npos ? 0 : Nl + 1), Head = Nl == std::string::npos ? "" : Got.substr(0, Nl + 1);
        if (Head != MainStart || atoi(Last.c_str()) < 5000) bad(Pre + "library-trace", Desc + W->getName().str() + ": " + Lines(Got) + "; program: " + Lines(Native));
      }
    }
    unlink(Exe.c_str());
  }
  (void)Main2;
  C.nontrivial(mixn(hstr(Native), hstr(G.Feats)));
  C.count(Two ? "two_units" : "one_unit");
  std::stringstream FS(G.Feats);
  for (std::string F; FS >> F;) C.count("feature_" + F);
  C.sample("events: " + Lines(Native));
}
