// P13, second part: virtual calls.  Random class hierarchies, compiled by clang, executed, and compared with the call graphs.
#include "exec.h"
#include "phasar/ControlFlow/CallGraphAnalysisType.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/Pointer/LLVMAliasSet.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "classgen.h"
#include <fstream>
#include <unistd.h>
using namespace vf;
using CGT = psr::CallGraphAnalysisType;
using Fn = const llvm::Function *;
using In = const llvm::Instruction *;

void vfInit(Ctx &) { psr::Logger::disable(); }

struct Calls : Observer {
  std::set<std::pair<In, Fn>> Seen;
  std::set<std::pair<In, Fn>> Complete; // seen while no object was under construction or destruction
  static bool special(Fn F) {
    auto N = F->getName();
    return N.startswith("_ZN") && (N.contains("C1E") || N.contains("C2E") || N.contains("D0E") || N.contains("D1E") || N.contains("D2E"));
  }
  void seen(Exec &E, const llvm::CallBase *CS, Fn F) {
    Seen.insert({CS, F});
    for (auto &Fr : E.Stack) if (Fr.F != F && special(Fr.F)) return; // the callee itself may be a destructor
    Complete.insert({CS, F});
  }
  void enter(Exec &E, Fn F, const llvm::CallBase *CS) override { if (CS) seen(E, CS, F); }
  PVal external(Exec &E, const llvm::CallBase *CS, Fn F, std::vector<PVal> &A) override {
    PVal R;
    if (F->getName() == "__cxa_pure_virtual") { E.stop("pure virtual call"); return R; }
    seen(E, CS, F);
    if (F->getName() == "_Znwm" || F->getName() == "_Znam" || F->getName() == "malloc") { R.Kind = PVal::Ptr; R.Obj = E.newObj(CS); return R; }
    R.Kind = CS->getType()->isIntegerTy() ? PVal::Int : PVal::Undef;
    if (R.Kind == PVal::Int) { R.Known = true; R.I = 1; }
    return R;
  }
};

// Programs outside the property's domain whose misses are recorded findings, and C idioms.
static const std::pair<const char *, const char *> Fixed[] = {
    {"second-base:", "extern \"C\" int ext(); struct A { virtual int a() { return 1; } }; struct B { virtual int b() { return 2; } };"
                     "struct D : A, B { int b() override { return 3; } }; int main() { D d; B *p = &d; return p->b(); }"},
    {"template-class:", "template <class T> struct V { T t; virtual int f() { return 4; } }; int main() { V<int> v; V<int> *p = &v; return p->f(); }"},
    {"ops-struct:", "struct S { int a; int (*op)(S *, int); int (*tab[2])(S *, int); int (**dyn)(S *, int); }; static int f1(S *s, int x) { return x; } static int f2(S *s, int x) { return 2; }"
                    "static int (*dyn[2])(S *, int) = {f2, f1}; int main() { S s; s.op = f1; s.tab[0] = f2; s.tab[1] = f1; s.dyn = dyn; S *p = &s; p->op(p, 1); p->tab[1](p, 2); p->tab[0](p, 2); p->dyn[1](p, 4); return 0; }"},
    {"callback-member:", "struct C { virtual int v(int x) { return x; } int (*cb)(C *, int); }; static int f1(C *s, int x) { return x; } int main() { C c; c.cb = f1; C *p = &c; p->v(1); return p->cb(p, 2); }"},
};

void vfRunCase(Ctx &C) {
  Rng R = C.rng(131);
  ClassGen G(R);
  G.NumClasses = 2 + C.Case % 7;
  G.generate();
  std::string Pre;
  if (C.Case < sizeof(Fixed) / sizeof(*Fixed)) { Pre = Fixed[C.Case].first; G.Src = Fixed[C.Case].second; }
  C.Artifact = G.Src;
  std::string Opt = R.chance(1, 3) ? "-O1 -Xclang -disable-llvm-passes" : "-O0";
  std::string File = C.OutDir + "/p13v" + std::to_string(getpid());
  { std::ofstream(File + ".cpp") << G.Src; }
  std::string Cmd = "clang++-14 -std=c++17 -w " + Opt + " -fno-exceptions -Xclang -disable-O0-optnone -S -emit-llvm " + File + ".cpp -o " + File + ".ll 2>" + File + ".err";
  if (system(Cmd.c_str())) {
    std::ifstream E(File + ".err");
    C.violation("harness:compile", std::string(std::istreambuf_iterator<char>(E), {}));
    return;
  }
  if (R.chance(1, 3)) {
    C.count("mem2reg");
    if (system(("opt-14 -S -passes=mem2reg " + File + ".ll -o " + File + ".ll").c_str())) { C.violation("harness:opt", ""); return; }
  }
  llvm::LLVMContext LC;
  llvm::SMDiagnostic Diag;
  auto MP = llvm::parseIRFile(File + ".ll", Diag, LC);
  for (auto X : {".cpp", ".ll", ".err"}) unlink((File + X).c_str());
  if (!MP) { C.violation("harness:parse", ""); return; }
  auto &M = *MP;
  if (C.Case % 8 == 0) C.note();
  Calls Ob;
  std::vector<llvm::Function *> Inits;
  for (auto &F : M) if (F.getName().startswith("_GLOBAL__sub_I")) Inits.push_back(&F);
  Rng RR = C.rng(77);
  for (int K = 0; K < 30; ++K) {
    Exec E(M, Ob, [&](unsigned N) { return (unsigned)RR(N); });
    E.MaxSteps = 6000;
    E.MaxDepth = 14;
    for (auto *F : Inits) if (!E.Stopped) E.run(F, {});
    if (!E.Stopped) E.run(M.getFunction("main"), {});
    C.count("stop_" + (E.Stopped ? E.Why : "none"));
    C.count("executions");
  }
  CGT Kinds[] = {CGT::CHA, CGT::RTA, CGT::DTA, CGT::OTF};
  const char *KN[] = {"CHA", "RTA", "DTA", "OTF"};
  std::map<In, std::set<Fn>> Chas;
  uint64_t H = 0;
  for (int K = 0; K < 4; ++K) {
    psr::LLVMProjectIRDB DB(&M, false);
    psr::LLVMTypeHierarchy TH(DB);
    std::vector<std::string> EPs = {"main"};
    for (auto *F : Inits) EPs.push_back(F->getName().str());
    psr::LLVMBasedICFG ICF(&DB, Kinds[K], EPs, &TH, nullptr, psr::Soundness::Soundy, false);
    auto bad = [&](const std::string &Key, In I, const std::string &D) { C.violation(Pre + KN[K] + ":" + Key, (I ? "in " + I->getFunction()->getName().str() + ": " + instStr(I) + " " : "") + D); };
    for (auto &[CS, F] : K == 0 || K == 3 ? Ob.Seen : Ob.Complete) {
      auto Cs = ICF.getCalleesOfCallAt(CS);
      ++C.Evaluations;
      auto *CB = llvm::cast<llvm::CallBase>(CS);
      if (CB->isIndirectCall()) C.count("dynamic_calls_observed");
      if (std::find(Cs.begin(), Cs.end(), F) == Cs.end()) bad(CB->isIndirectCall() ? "callee-missing" : "direct-callee-missing", CS, "calls " + F->getName().str());
      H = mixn(H, Cs.size(), K);
    }
    for (auto &F : M) { // every virtual call is alone in its function, which names the class and the method
      if (!F.getName().contains("vc_")) continue;
      auto P = F.getName().find("vc_");
      auto Rest = F.getName().drop_front(P + 3);
      unsigned Cl = 0, Me = 0;
      if (Rest.consumeInteger(10, Cl) || !Rest.consume_front("_") || Rest.consumeInteger(10, Me)) continue;
      if (ICF.getCallersOf(&F).empty()) continue;
      for (auto &BB : F)
        for (auto &I : BB) {
          auto *CB = llvm::dyn_cast<llvm::CallBase>(&I);
          if (!CB || !CB->isIndirectCall()) continue;
          C.count("virtual_sites");
          if (!ICF.isVirtualFunctionCall(&I)) bad("virtual-flag", &I, "virtual call not recognised");
          if (!ICF.isIndirectFunctionCall(&I)) bad("indirect-flag", &I, "");
          std::set<std::string> Want, Got;
          for (auto &S : G.overriders(G.owner(Cl, Me), Me, K == 1 ? &G.Instantiated : nullptr)) Want.insert(S);
          std::set<Fn> GF;
          for (auto *X : ICF.getCalleesOfCallAt(&I)) { Got.insert(X->getName().str()); GF.insert(X); }
          auto J = [](const std::set<std::string> &S) { std::string R; for (auto &X : S) R += X + " "; return R; };
          if (K == 0) {
            // a method whose body nobody needs is emitted all the same: the vtable refers to it
            for (auto It = Want.begin(); It != Want.end();) { auto *X = M.getFunction(*It); if (!X) It = Want.erase(It); else ++It; }
            if (Got != Want) bad("cha-set", &I, "got " + J(Got) + "expected " + J(Want));
            Chas[&I] = GF;
          } else if (K < 3) {
            for (auto *X : GF) if (!Chas[&I].count(X)) bad("more-than-cha", &I, X->getName().str());
          }
        }
    }
  }
  if (Ob.Seen.size() > 5) C.nontrivial(H);
  C.count("observed_call_edges", Ob.Seen.size());
  C.sample(std::to_string(G.NumClasses) + " classes, " + std::to_string(Ob.Seen.size()) + " call edges observed");
}
