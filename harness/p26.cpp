// P26: taint configurations (JSON, annotations, callbacks) against the sources they were generated for.
#include "common.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMBasedCFG.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TaintConfig/LLVMTaintConfig.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigBase.h"
#include "phasar/PhasarLLVM/TaintConfig/TaintConfigData.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "nlohmann/json.hpp"
#include <fstream>
#include <unistd.h>
using namespace vf;
using nlohmann::json;
using Val = const llvm::Value *;
using In = const llvm::Instruction *;
using Fn = const llvm::Function *;
using VSet = std::set<Val>;
void vfInit(Ctx &) {
  psr::Logger::disable();
}

static const char *Cats[] = {"source", "sink", "sanitizer"};
struct GFun { std::string Name, Ns; unsigned Params; bool Void, Defined, CLinkage, Static = false, KnR = false; int Annot = -1; };
struct GLocal { std::string Name, Type; unsigned Line; int Annot = -1; };
struct GMember { std::string Struct, Name, Type; std::set<unsigned> Lines; int Annot = -1; };
struct Gen {
  Rng &R;
  bool Cpp, Annot, Opt;
  std::string Src;
  unsigned Line = 1;
  std::vector<GFun> Funs;
  std::vector<GLocal> Locals, Params;
  std::vector<GMember> Members;
  std::vector<std::string> Structs;
  Gen(Rng &R) : R(R) {}
  unsigned put(const std::string &S) { Src += S + "\n"; return Line++; }
  std::string annot(int &A) {
    A = -1;
    if (!Annot || !R.chance(1, 3)) return "";
    A = (int)R(4);
    static const char *Odd[] = {"other.thing", "x", "psr.unknown"};
    return std::string("__attribute__((annotate(\"") + (A == 3 ? Odd[R(3)] : std::string("psr.") + Cats[A]) + "\"))) ";
  }
  std::string type() { static const char *T[] = {"int", "char", "long", "int *", "char *", "unsigned char"}; return T[R(6)]; }
  void generate() {
    put("// generated");
    std::string X = Cpp ? "extern \"C\" " : "";
    for (unsigned I = 0, N = 1 + R(3); I < N; ++I) {
      std::string S = std::string(1, char('P' + I)) + "rec";
      Structs.push_back(S);
      put("struct " + S + " {");
      static const char *Ms[] = {"alpha", "beta", "gamma", "delta", "x", "y"};
      unsigned First = R(3);
      for (unsigned M = 0, K = 1 + R(3); M < K; ++M) {
        GMember G{S, std::string(Ms[First + M]) + char('p' + I), type(), {}};
        std::string A = annot(G.Annot);
        put("  " + G.Type + " " + G.Name + " " + A + ";");
        Members.push_back(G);
      }
      put("};");
    }
    for (unsigned I = 0, N = R(3); I < N; ++I) { int A; std::string S = annot(A); put("int " + S + "glob" + std::to_string(I) + " = 4;"); }
    put(X + "int ext(void);");
    put(X + "void use(void *);");
    for (unsigned I = 0, N = 3 + R(4); I < N; ++I) {
      GFun F{"fun" + std::to_string(I), "", (unsigned)R(4), R.chance(1, 4), R.chance(2, 3), !Cpp};
      if (Cpp) { F.CLinkage = R.chance(1, 3) || !F.Defined; if (!F.CLinkage && R.chance(1, 2)) F.Ns = "ns" + std::to_string(R(2)); }
      if (Opt && F.Defined && R.chance(1, 2)) { F.Static = true; }
      if (!Cpp && F.Defined && F.Params && !Opt && R.chance(1, 4)) F.KnR = true;
      std::string A = annot(F.Annot);
      if (F.KnR) A = "", F.Annot = -1;
      std::string L = F.Ns.empty() ? "" : "namespace " + F.Ns + " { ";
      L += F.CLinkage && Cpp && !F.Static ? "extern \"C\" " : "";
      if (F.Static) { L += "static inline __attribute__((always_inline)) "; F.CLinkage = !Cpp; }
      L += A + (F.Void ? "void " : "int ") + F.Name + "(";
      std::string Decls;
      for (unsigned P = 0; P < F.Params; ++P) {
        GLocal G{"a" + std::to_string(I) + "_" + std::to_string(P), F.KnR ? "int" : P % 2 ? "char *" : R.chance(1, 3) ? "char" : "int", Line};
        std::string PA = F.Defined && !F.KnR ? annot(G.Annot) : "";
        L += (P ? ", " : "") + (F.KnR ? G.Name : G.Type + " " + PA + G.Name);
        Decls += " int " + G.Name + ";";
        if (F.Defined) Params.push_back(G);
      }
      L += ")" + (F.KnR ? Decls : "") + (F.Defined ? std::string(" { ") + (F.Void ? "use(0);" : "return ext();") + " }" : ";");
      put(L + (F.Ns.empty() ? "" : " }"));
      Funs.push_back(F);
    }
    for (unsigned D = 0, ND = 1 + R(3); D < ND; ++D) {
      put((Cpp && R.chance(1, 2) ? "extern \"C\" " : "") + std::string("int drive") + std::to_string(D) + "(int pa, char *pb, struct " + Structs[0] + " *ps) {");
      for (auto &S : Structs) { put("  struct " + S + " v" + S + ";"); put("  use(&v" + S + ");"); }
      std::vector<std::string> Names;
      for (unsigned K = 0, N = 4 + R(10); K < N; ++K) {
        switch (R(5)) {
        case 0: case 1: {
          bool Reuse = R.chance(1, 3);
          GLocal G{Reuse ? "same" : R.chance(1, 4) ? R.pick(Members).Name : "l" + std::to_string(D) + "_" + std::to_string(K), type(), 0};
          std::string A = annot(G.Annot);
          G.Line = put("  " + std::string("{ ") + (R.chance(1, 3) ? "static int dummy; use(&dummy); " : "") + G.Type + " " + A + G.Name + "; use(&" + G.Name + "); }");
          Locals.push_back(G);
          break;
        }
        case 2: {
          auto &M = R.pick(Members);
          std::string Obj = M.Struct == Structs[0] && R.chance(1, 2) ? "ps->" : "v" + M.Struct + ".";
          M.Lines.insert(put(R.chance(1, 2) ? "  " + Obj + M.Name + " = 0;" : "  use((void *)(long)" + Obj + M.Name + ");"));
          break;
        }
        default: {
          auto &F = R.pick(Funs);
          std::string S = "  " + (F.Ns.empty() ? "" : F.Ns + "::") + F.Name + "(";
          unsigned NA = F.Params;
          if (F.KnR && R.chance(1, 2)) NA = R(F.Params + 1);
          for (unsigned P = 0; P < NA; ++P) S += (P ? ", " : "") + std::string(P % 2 && !F.KnR ? "pb" : "pa");
          put(S + ");");
        }
        }
      }
      if (R.chance(1, 3) && !Funs.empty()) { auto &F = R.pick(Funs); put("  use((void *)" + (F.Ns.empty() ? "" : F.Ns + "::") + F.Name + ");"); }
      put("  return 0;");
      put("}");
    }
  }
};

static std::string names(const VSet &S) { std::string O; for (auto *V : S) O += (llvm::isa<llvm::Argument>(V) ? "argument " + llvm::cast<llvm::Argument>(V)->getParent()->getName().str() + "#" : llvm::isa<llvm::Function>(V) ? "function " : "") + (llvm::isa<llvm::Function>(V) ? V->getName().str() : instStr(V)) + "; "; return O; }
struct Expect { VSet Must[3], May[3]; };
static void addFun(Expect &E, int Cat, Fn F) {
  for (auto *U : F->users()) {
    E.May[Cat].insert(U);
    if (auto *CB = llvm::dyn_cast<llvm::CallBase>(U); CB && CB->getCalledOperand() == F) E.Must[Cat].insert(U);
  }
}
static void addVal(Expect &E, int Cat, Val V) { E.Must[Cat].insert(V); E.May[Cat].insert(V); }

static void check(Ctx &C, Rng &R, const std::string &P, const psr::LLVMProjectIRDB &DB, psr::LLVMTaintConfig &TC, const Expect &E) {
  auto *M = DB.getModule();
  std::vector<Val> All;
  for (auto &G : M->globals()) All.push_back(&G);
  for (auto &F : *M) {
    All.push_back(&F);
    for (auto &A : F.args()) All.push_back(&A);
    for (auto &I : llvm::instructions(F)) {
      All.push_back(&I);
      for (auto *Op : I.operand_values()) if (llvm::isa<llvm::ConstantExpr>(Op)) All.push_back(Op);
    }
  }
  VSet Got[3];
  for (auto *V : All) {
    bool B[] = {TC.isSource(V), TC.isSink(V), TC.isSanitizer(V)};
    for (int K = 0; K < 3; ++K) if (B[K]) Got[K].insert(V);
    psr::TaintCategory Cat = TC.getCategory(V);
    static const psr::TaintCategory CE[] = {psr::TaintCategory::Source, psr::TaintCategory::Sink, psr::TaintCategory::Sanitizer};
    bool Any = B[0] || B[1] || B[2], Ok = !Any && Cat == psr::TaintCategory::None;
    for (int K = 0; K < 3; ++K) Ok |= B[K] && Cat == CE[K];
    if (!Ok) C.violation(P + "category", "getCategory disagrees with isSource/isSink/isSanitizer for " + instStr(V));
    ++C.Evaluations;
  }
  for (int K = 0; K < 3; ++K) {
    VSet Lost, More;
    for (auto *V : E.Must[K]) if (!Got[K].count(V)) Lost.insert(V);
    for (auto *V : Got[K]) if (!E.May[K].count(V)) More.insert(V);
    if (!Lost.empty()) C.violation(P + "missing", std::string("not a ") + Cats[K] + ": " + names(Lost));
    if (!More.empty()) C.violation(P + "unexpected", std::string("not configured as ") + Cats[K] + ": " + names(More));
    C.count(std::string("configured_") + Cats[K], E.Must[K].size());
  }
  // seeds
  std::map<In, std::set<Val>> Seeds;
  for (auto *V : Got[0]) {
    if (auto *I = llvm::dyn_cast<llvm::Instruction>(V)) Seeds[I].insert(I);
    else if (auto *A = llvm::dyn_cast<llvm::Argument>(V))
      if (!A->getParent()->isDeclaration()) {
        In S = &A->getParent()->front().front();
        if (llvm::isa<llvm::DbgInfoIntrinsic>(S)) S = S->getNextNonDebugInstruction();
        Seeds[S].insert(A);
      }
  }
  auto GS = TC.makeInitialSeeds();
  if (std::map<In, std::set<Val>>(GS.begin(), GS.end()) != Seeds) C.violation(P + "seeds", std::to_string(GS.size()) + " seeds, expected " + std::to_string(Seeds.size()));
  C.count("seeds", Seeds.size());
  std::string Pr;
  { llvm::raw_string_ostream OS(Pr); TC.print(OS); }
  // queries at instructions, without and with callbacks
  uint64_t Salt = R.next();
  for (int Round = 0; Round < 2; ++Round) {
    auto cb = [&](int K, In I) -> VSet {
      VSet S;
      if (!Round || mixn(Salt, K, (uint64_t)DB.getInstructionId(I)) % 3) return S;
      for (auto &Op : I->operands()) if (!llvm::isa<llvm::MetadataAsValue>(Op.get()) && mixn(Salt, K, Op.getOperandNo()) % 2) S.insert(Op.get());
      if (mixn(Salt, K, 77) % 2) S.insert(I);
      return S;
    };
    if (Round) {
      TC.registerSourceCallBack([&](In I) { return cb(0, I); });
      TC.registerSinkCallBack([&](In I) { return cb(1, I); });
      TC.registerSanitizerCallBack([&](In I) { return cb(2, I); });
    }
    for (auto *I : DB.getAllInstructions()) {
      auto *CB = llvm::dyn_cast<llvm::CallBase>(I);
      Fn Callees[2] = {nullptr, CB ? llvm::dyn_cast<llvm::Function>(CB->getCalledOperand()->stripPointerCasts()) : nullptr};
      for (int W = 0; W < (Callees[1] ? 2 : 1); ++W) {
        Fn Cal = Callees[W];
        VSet Want[3], Have[3];
        for (int K = 0; K < 3; ++K) {
          Want[K] = cb(K, I);
          if (Cal) {
            for (unsigned A = 0; A < std::min<unsigned>(Cal->arg_size(), CB->arg_size()); ++A)
              if (Got[K].count(Cal->getArg(A))) Want[K].insert(CB->getArgOperand(A));
            if (CB->arg_size() < Cal->arg_size()) C.count("calls_with_less_arguments");
          }
        }
        if (!Cal) for (auto *Op : I->operand_values()) if (Got[0].count(Op)) Want[0].insert(Op);
        if (Got[0].count(I)) Want[0].insert(I);
        TC.forAllGeneratedValuesAt(I, Cal, [&](Val V) { Have[0].insert(V); });
        TC.forAllLeakCandidatesAt(I, Cal, [&](Val V) { Have[1].insert(V); });
        TC.forAllSanitizedValuesAt(I, Cal, [&](Val V) { Have[2].insert(V); });
        bool Pred[] = {TC.generatesValuesAt(I, Cal), TC.mayLeakValuesAt(I, Cal), TC.sanitizesValuesAt(I, Cal)};
        for (int K = 0; K < 3; ++K) {
          ++C.Evaluations;
          if (Have[K] != Want[K]) C.violation(P + "values-at", std::string(Cats[K]) + " values at " + instStr(I) + (Cal ? " with callee" : "") + ": " + names(Have[K]) + " expected: " + names(Want[K]));
          if (!Want[K].empty() && !Pred[K]) C.violation(P + "predicate", std::string(Cats[K]) + " predicate false at " + instStr(I));
          // without a reason the predicates hold nowhere
          bool Reason = !Want[K].empty();
          if (K == 0) for (auto *Op : I->operand_values()) Reason |= Got[0].count(Op) > 0;
          if (Cal) for (auto &A : Cal->args()) Reason |= Got[K].count(&A) > 0;
          if (Pred[K] && !Reason) C.violation(P + "predicate", std::string(Cats[K]) + " predicate true without reason at " + instStr(I));
          if (!Want[K].empty()) C.count("values_at");
        }
      }
    }
  }
}

static void parsing(Ctx &C, Rng &R, const json &J, const std::string &File) {
  auto write = [&](const std::string &S) { std::ofstream(File) << S; };
  std::string Text = J.dump(R.chance(1, 2) ? 2 : -1);
  // damaged files: nothing but an empty result, and no crash
  for (int K = 0; K < 4; ++K) {
    std::string T = Text;
    bool Invalid = false;
    json D = J;
    switch (R(7)) {
    case 0: T = T.substr(0, R(T.size())); while (!T.empty() && isspace(T.back())) T.pop_back(); Invalid = T != Text; break;
    case 1: T[R(T.size())] = (char)R(256); break;
    case 2: D["functions"].push_back({{"name", "f"}, {"params", json::object()}, {"ret", "nothing"}}); T = D.dump(); Invalid = true; break;
    case 3: D["functions"].push_back({{"name", "f"}, {"params", {{"sink", {0, "every"}}}}}); T = D.dump(); Invalid = true; break;
    case 4: D["variables"].push_back({{"name", "f"}, {"scope", "g"}, {"cat", "tainted"}}); T = D.dump(); Invalid = true; break;
    case 5: D["functions"].push_back({{"name", 5}, {"params", {{"source", {"a"}}}}}); T = D.dump(); Invalid = true; break;
    default: { static const json Odd[] = {nullptr, 5, "x", json::array(), json::object(), -1, 1e30, true}; D[R.chance(1, 2) ? "functions" : "variables"] = Odd[R(8)]; if (R.chance(1, 2)) D["functions"] = {{{"params", Odd[R(8)]}, {"name", Odd[R(8)]}}}; T = D.dump(); }
    }
    write(T);
    auto P = psr::parseTaintConfigOrNull(File);
    if (Invalid && P) C.violation("parse:invalid-accepted", T);
    C.count(P ? "damaged_accepted" : "damaged_rejected");
  }
  unlink(File.c_str());
  if (psr::parseTaintConfigOrNull(File)) C.violation("parse:missing-file", "");
}

void vfRunCase(Ctx &C) {
  Rng R = C.rng(26);
  Gen G(R);
  G.Cpp = R.chance(1, 2);
  G.Annot = R.chance(1, 3);
  G.Opt = !G.Annot && R.chance(1, 5);
  G.generate();
  C.Artifact = G.Src;
  std::string File = C.OutDir + "/p26-" + std::to_string(getpid());
  { std::ofstream(File + ".src") << G.Src; }
  std::string Cmd = std::string("clang-14 -x ") + (G.Cpp ? "c++ -fno-exceptions" : "c -Wno-everything") + (G.Opt ? " -O1" : " -O0") + " -w -g -fno-discard-value-names -S -emit-llvm " + File + ".src -o " + File + ".ll 2>" + File + ".err";
  if (system(Cmd.c_str())) {
    std::ifstream E(File + ".err");
    C.violation("harness:compile", std::string(std::istreambuf_iterator<char>(E), {}));
    return;
  }
  llvm::LLVMContext LC;
  llvm::SMDiagnostic Diag;
  auto MP = llvm::parseIRFile(File + ".ll", Diag, LC);
  for (auto X : {".src", ".ll", ".err"}) unlink((File + X).c_str());
  if (!MP) { C.violation("harness:parse", ""); return; }
  auto &M = *MP;
  psr::LLVMProjectIRDB DB(&M, false);
  auto funs = [&](const GFun &F) {
    std::vector<Fn> Fs;
    for (auto &X : M) if (X.getName() == F.Name || (X.getSubprogram() && X.getSubprogram()->getName() == F.Name)) Fs.push_back(&X);
    return Fs;
  };
  std::map<std::pair<unsigned, std::string>, Val> Decl; // line and name of a variable
  std::map<unsigned, VSet> Geps;
  std::map<std::pair<std::string, unsigned>, Val> ArgOf;
  for (auto &F : M)
    for (auto &I : llvm::instructions(F)) {
      if (auto *D = llvm::dyn_cast<llvm::DbgDeclareInst>(&I)) Decl[{D->getVariable()->getLine(), D->getVariable()->getName().str()}] = D->getAddress();
      if (auto *Gp = llvm::dyn_cast<llvm::GetElementPtrInst>(&I)) if (Gp->getDebugLoc() && Gp->getSourceElementType()->isStructTy()) Geps[Gp->getDebugLoc().getLine()].insert(Gp);
    }
  Expect E;
  if (G.Annot) {
    C.count("annotated_programs");
    for (auto &L : G.Locals)
      if (L.Annot >= 0 && L.Annot < 3) { auto *A = Decl[{L.Line, L.Name}]; if (A) { addVal(E, L.Annot, A); C.count("annotated_locals"); } }
    for (auto &P : G.Params)
      if (P.Annot >= 0 && P.Annot < 3)
        for (auto &F : M) for (auto &A : F.args()) if (A.getName() == P.Name) { addVal(E, P.Annot, &A); C.count("annotated_parameters"); }
    for (auto &Mb : G.Members)
      if (Mb.Annot >= 0 && Mb.Annot < 3)
        for (auto L : Mb.Lines) for (auto *V : Geps[L]) { addVal(E, Mb.Annot, V); C.count("annotated_members"); }
    for (auto &F : G.Funs)
      if (F.Annot >= 0 && F.Annot < 3)
        for (auto *X : funs(F)) {
          if (X->isDeclaration()) { for (auto *U : X->users()) E.May[F.Annot].insert(U); continue; } // only definitions are annotated
          addFun(E, F.Annot, X);
          C.count("annotated_functions");
        }
    C.note();
    psr::LLVMTaintConfig TC(DB);
    check(C, R, "annotation:", DB, TC, E);
    C.nontrivial(hstr(names(E.Must[0]) + "|" + names(E.Must[1]) + "|" + names(E.Must[2])));
    return;
  }
  // a configuration
  json J = {{"name", "cfg"}, {"version", 1.0}};
  J["functions"] = json::array();
  J["variables"] = json::array();
  std::set<std::string> Done;
  for (auto &F : G.Funs) {
    if (!R.chance(2, 3)) continue;
    auto Fs = funs(F);
    for (unsigned Rep = 0, NR = R.chance(1, 5) ? 2 : 1; Rep < NR; ++Rep) {
      json D = {{"name", F.Name}, {"params", json::object()}};
      if (G.Cpp && !F.CLinkage && !Fs.empty() && R.chance(1, 3)) D["name"] = Fs[0]->getName().str();
      if (!F.Void && R.chance(1, 2)) {
        int Cat = (int)R(3);
        D["ret"] = Cats[Cat];
        for (auto *X : Fs) addFun(E, Cat, X);
      }
      for (int Cat = 0; Cat < 3; ++Cat) {
        if (R.chance(1, 2)) continue;
        json L = json::array();
        if (Cat == 1 && R.chance(1, 3)) {
          L.push_back("all");
          for (auto *X : Fs) for (auto &A : X->args()) addVal(E, 1, &A);
        }
        for (unsigned K = 0, N = R(3); K < N; ++K) {
          unsigned Idx = R(F.Params + 2);
          L.push_back(Idx);
          for (auto *X : Fs) if (Idx < X->arg_size()) addVal(E, Cat, X->getArg(Idx)); else C.count("indices_out_of_range");
        }
        D["params"][Cats[Cat]] = L;
      }
      if (Fs.empty()) C.count("functions_only_in_debug_info");
      J["functions"].push_back(D);
    }
  }
  static const char *NoFun[] = {"unknown", "_Z", "_ZN", "f", "llvm"}; // no function has any of these names
  if (R.chance(1, 3)) J["functions"].push_back({{"name", NoFun[R(5)]}, {"params", {{"source", {0}}}}, {"ret", "source"}});
  auto var = [&](const std::string &Scope, const std::string &Name, unsigned Line, int Cat) {
    json V = {{"scope", Scope}, {"name", Name}, {"cat", Cats[Cat]}};
    if (Line || R.chance(1, 2)) V["line"] = Line;
    J["variables"].push_back(V);
  };
  std::vector<std::function<void()>> Todo;
  if (!G.Opt) {
    for (auto *Ls : {&G.Locals, &G.Params})
      for (auto &L : *Ls) {
        if (!R.chance(1, 3)) continue;
        bool WrongLine = R.chance(1, 5), WrongName = R.chance(1, 8);
        int Cat = (int)R(3);
        Todo.push_back([&, L, WrongLine, WrongName, Cat] {
          var(R.chance(1, 2) ? "drive0" : "main", WrongName ? L.Name + "q" : L.Name, WrongLine ? L.Line + 1000 : L.Line, Cat);
          C.count("variables");
          if (!WrongLine && !WrongName)
            if (auto It = Decl.find({L.Line, L.Name}); It != Decl.end()) addVal(E, Cat, It->second);
        });
      }
    unsigned NM = 0;
    for (auto &Mb : G.Members) {
      if (!R.chance(1, 2)) continue;
      int Cat = (int)R(3);
      ++NM;
      Todo.push_back([&, Cat] {
        var(Mb.Struct, Mb.Name, 0, Cat);
        for (auto L : Mb.Lines) for (auto *V : Geps[L]) { addVal(E, Cat, V); C.count("configured_members"); }
      });
    }
    if (NM > 1) C.count("configurations_with_several_members");
  }
  for (size_t I = Todo.size(); I > 1; --I) std::swap(Todo[I - 1], Todo[R(I)]);
  for (auto &T : Todo) T();
  C.Artifact += "\n/* " + J.dump(2) + " */\n";
  C.note();
  std::string JF = File + ".json";
  { std::ofstream(JF) << J.dump(R.chance(1, 2) ? 2 : -1); }
  auto Data = psr::parseTaintConfigOrNull(JF);
  unlink(JF.c_str());
  if (!Data) { C.violation("parse:valid-rejected", J.dump()); return; }
  if (Data->Functions.size() != J["functions"].size() || Data->Variables.size() != J["variables"].size()) C.violation("parse:entries", "");
  for (size_t I = 0; I < Data->Functions.size() && I < J["functions"].size(); ++I) {
    auto &F = Data->Functions[I];
    auto &D = J["functions"][I];
    auto idx = [&](const char *N, bool &All) { std::vector<uint32_t> V; All = false; if (D["params"].contains(N)) for (auto &X : D["params"][N]) if (X.is_number()) V.push_back(X); else All = true; return V; };
    bool All = false, No = false;
    bool Ok = F.Name == D["name"] && F.SourceValues == idx("source", No) && F.SanitizerValues == idx("sanitizer", No) && F.SinkValues == idx("sink", All);
    Ok = Ok && F.HasAllSinkParam == All && F.ReturnCat == (D.contains("ret") ? psr::toTaintCategory(D["ret"].get<std::string>()) : psr::TaintCategory::None);
    if (!Ok) C.violation("parse:function", D.dump());
  }
  for (size_t I = 0; I < Data->Variables.size() && I < J["variables"].size(); ++I) {
    auto &V = Data->Variables[I];
    auto &D = J["variables"][I];
    if (V.Name != D["name"] || V.Scope != D["scope"] || V.Line != (D.contains("line") ? D["line"].get<size_t>() : 0) || V.Cat != psr::toTaintCategory(D["cat"].get<std::string>())) C.violation("parse:variable", D.dump());
  }
  psr::LLVMTaintConfig TC(DB, *Data);
  check(C, R, "config:", DB, TC, E);
  parsing(C, R, J, JF);
  C.count(G.Opt ? "optimised_programs" : "configured_programs");
  C.nontrivial(hstr(J.dump()));
}
