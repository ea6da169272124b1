// P15: type hierarchies (LLVM- and debug-info-based) and virtual method tables of random C++ class hierarchies, and their JSON round trips.
#include "common.h"
#include "phasar/PhasarLLVM/ControlFlow/LLVMVFTableProvider.h"
#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
#include "phasar/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.h"
#include "phasar/PhasarLLVM/TypeHierarchy/LLVMVFTableData.h"
#include "phasar/Utils/Logger.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "classgen.h"
#include <fstream>
#include <unistd.h>
using namespace vf;
using Fn = const llvm::Function *;
using ST = const llvm::StructType *;
using DT = const llvm::DIType *;

void vfInit(Ctx &) { psr::Logger::disable(); }

static const char *Fixed[] = {
    "int main() { return 0; }",
    "struct S { int a; }; S s; int main() { return s.a; }",
    "struct A { virtual int f() = 0; }; struct B : A { int f() override; }; int B::f() { return 1; } int main() { B b; return b.f(); }",
    "struct A { virtual ~A(); }; A::~A() {} namespace n { struct A : ::A { virtual int f() { return 1; } }; } namespace { struct A2 : n::A { int f() override { return 2; } }; } int main() { A2 a; return a.f(); }",
    "namespace a { struct X { virtual int f() { return 1; } }; } namespace b { struct X : a::X { int f() override { return 3; } }; } namespace { struct X : b::X { int f() override { return 2; } }; } int main() { X x; b::X y; return x.f() + y.f(); }",
    "struct U { union { int a; float b; }; struct { int c; } s; virtual int f() { return a; } }; int main() { U u; return u.f(); }",
    "struct N { struct In { virtual int f() { return 1; } }; struct In2 : In { int f() override { return 2; } }; In2 i; }; int main() { N n; return n.i.f(); }",
    "namespace { struct N { union { int a; float b; }; int g; }; N n; } int main() { return n.a; }",
    "struct A { virtual int f() = delete; virtual int g() { return 1; } }; struct B : A { int f() = delete; }; int main() { B b; return b.g(); }",
};

static std::string mangledClass(const ClassGen &G, int C) {
  auto &K = G.Cs[C];
  std::string L = std::to_string(K.Name.size()) + K.Name;
  if (K.Anon) return "N12_GLOBAL__N_1" + L + "E";
  if (!K.Ns.empty()) return "N" + std::to_string(K.Ns.size()) + K.Ns + L + "E";
  return L;
}
static std::string dtorName(const ClassGen &G, int C, int D) {
  auto S = mangledClass(G, C);
  if (S[0] == 'N') S = S.substr(1, S.size() - 2);
  return "_ZN" + S + "D" + std::to_string(D) + "Ev";
}

struct Run {
  Ctx &C;
  ClassGen *G;
  llvm::Module &M;
  uint64_t H = 0;
  template <typename T> static std::string names(const T &S) { std::string R; for (auto *X : S) R += (X ? X->getName().str() : "<null>") + " "; return R; }

  // Itanium layout for single, non-virtual inheritance; entries are "class method" pairs; method -1/-2: complete/deleting destructor
  bool simple(int Cl) const {
    auto &K = G->Cs[Cl];
    if (K.Bases.size() > 1) return false;
    for (size_t I = 0; I < K.Bases.size(); ++I) if (K.VBase[I] || !simple(K.Bases[I])) return false;
    if (!K.Bases.empty() && !poly(K.Bases[0]) && poly(Cl) && K.Order.size()) {
      // a non-polymorphic base is fine: nothing to inherit
    }
    return true;
  }
  bool poly(int Cl) const {
    auto &K = G->Cs[Cl];
    if (K.Dtor || !K.Decl.empty()) return true;
    for (auto V : K.VBase) if (V) return false; // has a vtable but is handled by the raw oracle only
    for (int B : K.Bases) if (poly(B)) return true;
    return false;
  }
  std::vector<std::pair<int, int>> layout(int Cl) const {
    std::vector<std::pair<int, int>> L;
    auto &K = G->Cs[Cl];
    if (!K.Bases.empty()) L = layout(K.Bases[0]);
    for (auto &E : L) if (E.second < 0) E.first = Cl; // implicitly declared destructors override, too
    for (int Me : K.Order) {
      bool Found = false;
      for (auto &E : L)
        if (Me >= 0 ? E.second == Me : E.second < 0) { E.first = Cl; Found = true; }
      if (Found) continue;
      if (Me >= 0) L.push_back({Cl, Me});
      else { L.push_back({Cl, -1}); L.push_back({Cl, -2}); }
    }
    return L;
  }
  bool entryIs(const std::pair<int, int> &E, Fn F) const {
    if (!F) return false;
    auto N = F->getName().str();
    if (E.second == -1) {
      if (N == dtorName(*G, E.first, 1) || N == dtorName(*G, E.first, 2) || N == "__cxa_pure_virtual") return true;
      auto &K = G->Cs[E.first]; // destructors that only call the one of the base are replaced by it
      return !K.Bases.empty() && entryIs({K.Bases[0], -1}, F);
    }
    if (E.second == -2) return N == dtorName(*G, E.first, 0) || N == "__cxa_pure_virtual";
    auto It = G->Cs[E.first].Decl.find(E.second);
    if (It != G->Cs[E.first].Decl.end() && It->second) return N == "__cxa_pure_virtual";
    return N == G->mangled(E.first, E.second);
  }
  // All function entries of a vtable group, in order, read directly from the IR
  static std::vector<Fn> raw(const llvm::GlobalVariable *V) {
    std::vector<Fn> R;
    for (auto &Op : llvm::cast<llvm::ConstantStruct>(V->getInitializer())->operands()) {
      auto *CA = llvm::dyn_cast<llvm::ConstantArray>(Op);
      if (!CA) continue;
      bool After = false;
      for (auto &E : CA->operands()) {
        auto *P = E->stripPointerCastsAndAliases();
        if (After) R.push_back(llvm::dyn_cast<llvm::Function>(P));
        else if (P->getName().startswith("_ZTI")) After = true;
      }
    }
    return R;
  }
  // the LLVM struct type of a class, found through the type's name
  ST structOf(int Cl) {
    std::string N = (G->Cs[Cl].Anon ? "(anonymous namespace)::" : "") + G->qual(Cl);
    for (auto *T : M.getIdentifiedStructTypes())
      if (T->getName() == "class." + N || T->getName() == "struct." + N) return T;
    return nullptr;
  }
  // Does the module contain the type information that makes D known as derived from B (on some path of bases)?
  bool tiKnown(int D, int B) {
    if (D == B) return true;
    auto *TI = M.getGlobalVariable("_ZTI" + mangledClass(*G, D), true);
    if (!TI || !TI->hasInitializer()) return false;
    for (int X : G->Cs[D].Bases) if (G->derives(X, B) && structOf(X) && tiKnown(X, B)) return true;
    return false;
  }

  void llvmBased(const psr::LLVMTypeHierarchy &T, const std::string &Pre) {
    auto bad = [&](const std::string &K, const std::string &D) { C.violation("llvm:" + Pre + K, D); };
    auto All = T.getAllTypes();
    std::set<ST> AllS(All.begin(), All.end());
    auto Ids = M.getIdentifiedStructTypes();
    if (All.size() != AllS.size() || T.size() != All.size() || T.empty() != All.empty()) bad("types", "duplicate types or wrong size");
    if (AllS != std::set<ST>(Ids.begin(), Ids.end())) bad("types", "not the module's struct types");
    for (auto *X : All) {
      ++C.Evaluations;
      if (!T.hasType(X) || T.getType(X->getName()) != X || T.getTypeName(X) != X->getName()) bad("lookup", X->getName().str());
      auto Sub = T.getSubTypes(X);
      if (!Sub.count(X)) bad("reflexive", X->getName().str());
      for (auto *Y : All) if (T.isSubType(X, Y) != (bool)Sub.count(Y)) bad("isSubType", X->getName().str() + " " + Y->getName().str());
      for (auto *Y : Sub) { // transitive and antisymmetric
        if (!AllS.count(Y)) bad("foreign", X->getName().str());
        if (Y != X && T.isSubType(Y, X)) bad("cycle", X->getName().str());
        for (auto *Z : T.getSubTypes(Y)) if (!Sub.count(Z)) bad("transitive", X->getName().str() + " " + Z->getName().str());
      }
    }
    auto *Foreign = llvm::StructType::create(M.getContext(), "vf.foreign");
    if (T.hasType(Foreign) || !T.getSubTypes(Foreign).empty() || T.getType("no such type")) bad("foreign", "unknown type");
    if (!G) return;
    std::map<ST, int> Known;
    for (int I = 0; I < (int)G->Cs.size(); ++I) if (auto *S = structOf(I)) Known[S] = I;
    for (auto &[S, I] : Known) {
      for (auto &[S2, J] : Known) {
        bool Want = tiKnown(J, I);
        ++C.Evaluations;
        if (Want && I != J) C.count("subtype_pairs");
        if (T.isSubType(S, S2) != Want) bad(Want ? "subtype-missing" : "subtype-extra", S->getName().str() + " <- " + S2->getName().str());
      }
      for (auto *X : T.getSubTypes(S)) if (!Known.count(X)) bad("subtype-extra", S->getName().str() + " <- " + X->getName().str());
    }
  }
  static std::set<std::string> lines(const std::string &S) {
    std::set<std::string> R;
    std::string Cur;
    for (char Ch : S) { if (Ch == '\n') { R.insert(Cur); Cur.clear(); } else Cur += Ch; }
    return R;
  }
  static std::map<std::string, std::string> vftSection(const std::string &S) {
    std::map<std::string, std::string> R;
    auto P = S.find("VFTables:\n");
    std::string Cur;
    std::string Line;
    for (size_t I = P == std::string::npos ? S.size() : P + 10; I < S.size(); ++I) {
      if (S[I] != '\n') { Line += S[I]; continue; }
      if (Line.rfind("Virtual function table for: ", 0) == 0) R[Cur = Line.substr(28)]; else R[Cur] += Line + "\n";
      Line.clear();
    }
    return R;
  }
  void vtables(const psr::LLVMProjectIRDB &DB) {
    psr::LLVMVFTableProvider VP(DB);
    auto bad = [&](const std::string &K, const std::string &D) { C.violation("vft:" + K, D); };
    for (auto *X : M.getIdentifiedStructTypes()) {
      auto *V = VP.getVFTableOrNull(X);
      if (VP.hasVFTable(X) != (V != nullptr)) bad("has", X->getName().str());
      if (!V) continue;
      auto Fs = V->getAllFunctions();
      H = mixn(H, Fs.size());
      if (V->size() != Fs.size() || V->empty() != Fs.empty()) bad("size", "");
      for (unsigned I = 0; I < Fs.size(); ++I) {
        if (V->getFunction(I) != Fs[I]) bad("getFunction", "");
        int Ix = V->getIndex(Fs[I]);
        if (Ix < 0 || (unsigned)Ix > I || Fs[Ix] != Fs[I]) bad("getIndex", "");
      }
      if (V->getFunction(Fs.size()) || V->getFunction(~0u)) bad("getFunction", "beyond the end");
      std::string S;
      llvm::raw_string_ostream OS(S);
      V->print(OS);
      S.clear();
      V->printAsJson(OS);
      OS.flush();
      auto D = psr::LLVMVFTableData::loadJsonString(S);
      if (D.VFT.size() != Fs.size()) { bad("json", S); continue; }
      for (unsigned I = 0; I < Fs.size(); ++I) if (D.VFT[I] != (Fs[I] ? Fs[I]->getName().str() : "__null__")) bad("json", S);
    }
    if (!G) return;
    for (int I = 0; I < (int)G->Cs.size(); ++I) {
      auto *S = structOf(I);
      if (!S) continue;
      auto *TV = M.getGlobalVariable("_ZTV" + mangledClass(*G, I), true);
      auto *V = VP.getVFTableOrNull(S);
      std::vector<Fn> Got = V ? V->getAllFunctions() : std::vector<Fn>();
      if (!TV || !TV->hasInitializer()) { if (!Got.empty()) bad("extra", S->getName().str() + ": " + names(Got)); continue; }
      ++C.Evaluations;
      auto Want = raw(TV);
      if (Got != Want) bad("entries", S->getName().str() + ": " + names(Got) + " expected " + names(Want));
      C.count("vtable_entries", Want.size());
      if (!simple(I)) { C.count("complex_vtables"); continue; }
      auto L = layout(I);
      bool Ok = L.size() == Got.size();
      for (size_t K = 0; Ok && K < L.size(); ++K) Ok = entryIs(L[K], Got[K]);
      if (!Ok) bad("layout", S->getName().str() + ": " + names(Got) + " expected " + std::to_string(L.size()) + " entries");
    }
  }

  void diBased(const psr::DIBasedTypeHierarchy &T, const std::string &Pre) {
    auto bad = [&](const std::string &K, const std::string &D) { C.violation("di:" + Pre + K, D); };
    auto All = T.getAllTypes();
    std::set<DT> AllS(All.begin(), All.end());
    if (All.size() != AllS.size() || T.size() != All.size() || T.empty() != All.empty()) bad("types", "duplicate types or wrong size");
    llvm::DebugInfoFinder DIF;
    DIF.processModule(M);
    std::set<DT> Want;
    std::map<std::string, unsigned> NameCnt;
    for (auto *X : DIF.types())
      if (auto *CT = llvm::dyn_cast<llvm::DICompositeType>(X))
        if (CT->getTag() == llvm::dwarf::DW_TAG_class_type || CT->getTag() == llvm::dwarf::DW_TAG_structure_type || CT->getTag() == llvm::dwarf::DW_TAG_union_type) { Want.insert(X); ++NameCnt[T.getTypeName(X).str()]; }
    if (Want != AllS) bad("types", "not the class types of the debug information");
    auto tname = [&](DT X) { return T.getTypeName(X).str(); };
    for (auto *X : All) {
      ++C.Evaluations;
      if (!T.hasType(X)) bad("lookup", tname(X));
      if (NameCnt[tname(X)] == 1 ? T.getType(tname(X)) != X : tname(X) != "" && !T.getType(tname(X))) bad("lookup", "getType " + tname(X));
      auto Sub = T.getSubTypes(X);
      if (!Sub.count(X)) bad("reflexive", tname(X));
      auto R = T.subTypesOf(X);
      if (std::set<DT>(R.begin(), R.end()) != Sub) bad("subTypesOf", tname(X));
      for (auto *Y : All) if (T.isSubType(X, Y) != (bool)Sub.count(Y)) bad("isSubType", tname(X) + " " + tname(Y));
      for (auto *Y : Sub) {
        if (!AllS.count(Y)) bad("foreign", tname(X));
        for (auto *Z : T.getSubTypes(Y)) if (!Sub.count(Z)) bad("transitive", tname(X) + " " + tname(Z));
      }
    }
    if (!T.getSubTypes(nullptr).empty() || T.hasType(nullptr) || T.getType("no such type")) bad("foreign", "unknown type");
    if (T.getAllVTables().size() != All.size()) { bad("vtables", "number of vtables"); return; }
    if (!G) return;
    std::map<DT, int> Known;
    for (auto *X : All) {
      auto *CT = llvm::cast<llvm::DICompositeType>(X);
      for (int I = 0; I < (int)G->Cs.size(); ++I) {
        auto &K = G->Cs[I];
        auto *Sc = llvm::dyn_cast_or_null<llvm::DINamespace>(CT->getScope());
        if (CT->getName() != K.Name || (CT->getScope() && !Sc && !llvm::isa<llvm::DIFile>(CT->getScope()))) continue;
        if (Sc ? Sc->getName() == K.Ns && (Sc->getName().empty() == K.Anon) : K.Ns.empty() && !K.Anon) Known[X] = I;
      }
    }
    for (auto &[X, I] : Known)
      for (auto &[Y, J] : Known) {
        ++C.Evaluations;
        bool W = I == J || (G->derives(J, I) && !llvm::cast<llvm::DICompositeType>(Y)->isForwardDecl());
        if (W && I != J) C.count("di_subtype_pairs");
        if (T.isSubType(X, Y) != W) bad(W ? "subtype-missing" : "subtype-extra", tname(X) + " <- " + tname(Y));
      }
    // virtual methods declared in a class sit at their index of the vtable
    for (size_t K = 0; K < All.size(); ++K) {
      auto It = Known.find(All[K]);
      if (It == Known.end() || !simple(It->second)) continue;
      auto &V = T.getAllVTables()[K];
      auto Fs = V.getAllFunctions();
      auto L = layout(It->second);
      bool Fwd = llvm::cast<llvm::DICompositeType>(All[K])->isForwardDecl();
      if (Fs.size() > L.size()) { bad("vtables", tname(All[K]) + ": too many entries"); continue; }
      for (size_t S = 0; S < L.size(); ++S) {
        Fn Got = S < Fs.size() ? Fs[S] : nullptr, Exp = nullptr;
        bool Own = L[S].first == It->second && L[S].second >= 0 && !Fwd;
        if (Own) Exp = M.getFunction(G->mangled(L[S].first, L[S].second));
        if (L[S].second < 0) continue; // destructors have no linkage name in the debug information
        ++C.Evaluations;
        if (Exp) C.count("di_vtable_entries");
        if (Got != Exp) bad("vtables", tname(All[K]) + " entry " + std::to_string(S) + ": " + (Got ? Got->getName().str() : "<null>") + " expected " + (Exp ? Exp->getName().str() : "<null>"));
      }
    }
  }
};

void vfRunCase(Ctx &C) {
  Rng R = C.rng(151);
  ClassGen G(R);
  bool Fix = C.Case < sizeof(Fixed) / sizeof(*Fixed);
  bool Single = R.chance(1, 2);
  G.NumClasses = 2 + C.Case % 9;
  G.Rich = true;
  G.Multi = !Single;
  G.ClassesOnly = true;
  if (Fix) G.Src = Fixed[C.Case]; else G.generate();
  C.Artifact = G.Src;
  bool Dbg = Fix || R.chance(3, 4);
  std::string Opt = R.chance(1, 3) ? "-O1 -Xclang -disable-llvm-passes" : "-O0";
  if (Dbg) Opt += R.chance(1, 3) ? " -g -fstandalone-debug" : " -g";
  std::string File = C.OutDir + "/p15" + std::to_string(getpid());
  { std::ofstream(File + ".cpp") << G.Src; }
  std::string Cmd = "clang++-14 -std=c++17 -w " + Opt + " -fno-exceptions -Xclang -disable-O0-optnone -S -emit-llvm " + File + ".cpp -o " + File + ".ll 2>" + File + ".err";
  int RC = system(Cmd.c_str());
  llvm::LLVMContext LC;
  llvm::SMDiagnostic Diag;
  std::unique_ptr<llvm::Module> MP;
  std::string Err;
  if (RC) { std::ifstream E(File + ".err"); Err.assign(std::istreambuf_iterator<char>(E), {}); }
  else MP = llvm::parseIRFile(File + ".ll", Diag, LC);
  for (auto X : {".cpp", ".ll", ".err"}) unlink((File + X).c_str());
  if (RC) { // ambiguous bases and overriders are not worth avoiding
    C.count("rejected_by_the_compiler");
    if (Err.find("error:") == std::string::npos || Fix) C.violation("harness:compile", Err);
    return;
  }
  if (!MP) { C.violation("harness:parse", ""); return; }
  auto &M = *MP;
  if (C.Case % 8 == 0) C.note();
  psr::LLVMProjectIRDB DB(&M, false);
  Run X{C, Fix ? nullptr : &G, M};
  C.count("classes", G.Cs.size());
  C.count(Dbg ? "with_debug_info" : "without_debug_info");
  X.vtables(DB);
  {
    psr::LLVMTypeHierarchy T(DB);
    X.llvmBased(T, "");
    psr::LLVMTypeHierarchy T2(M);
    X.llvmBased(T2, "module:");
    auto Text = str(T);
    std::string J, Dot;
    { llvm::raw_string_ostream OS(J); T.printAsJson(OS); }
    { llvm::raw_string_ostream OS(Dot); T.printAsDot(OS); }
    if (Dot.find("digraph") == std::string::npos) C.violation("llvm:dot", Dot);
    C.count("round_trips");
    auto Data = psr::LLVMTypeHierarchyData::loadJsonString(J);
    psr::LLVMTypeHierarchy L(DB, Data);
    X.llvmBased(L, "loaded:");
    for (auto *S : T.getAllTypes()) if (T.getSubTypes(S) != L.getSubTypes(S)) C.violation("llvm:loaded:subtypes", S->getName().str());
    if (Run::vftSection(Text) != Run::vftSection(str(L))) C.violation("llvm:loaded:vtables", str(L) + "\noriginal:\n" + Text);
    std::string J2;
    { llvm::raw_string_ostream OS(J2); L.printAsJson(OS); }
    auto sorted = [](const std::string &S) { auto V = nlohmann::json::parse(S); std::map<std::string, std::set<std::string>> R; for (auto &[K, A] : V[V["PhasarConfigJsonTypeHierarchyID"].get<std::string>()].items()) for (auto &B : A) for (auto &N : B) R[K].insert(N.get<std::string>()); return R; };
    if (sorted(J) != sorted(J2)) C.violation("llvm:loaded:json", J2 + "\noriginal:\n" + J);
    // types that do not exist in the module are skipped
    auto Data2 = psr::LLVMTypeHierarchyData::loadJsonString(J);
    Data2.TypeGraph["no.such.type"].push_back("no.such.type2");
    for (auto &E : Data2.TypeGraph) if (R.chance(1, 2)) E.second.push_back("no.such.type");
    psr::LLVMTypeHierarchy L2(DB, Data2);
    X.llvmBased(L2, "invalid-entries:");
  }
  {
    psr::DIBasedTypeHierarchy T(DB);
    X.diBased(T, "");
    auto Text = str(T);
    std::string J, Dot;
    { llvm::raw_string_ostream OS(J); T.printAsJson(OS); }
    { llvm::raw_string_ostream OS(Dot); T.printAsDot(OS); }
    if (Dot.find("digraph") == std::string::npos) C.violation("di:dot", Dot);
    auto Data = psr::DIBasedTypeHierarchyData::loadJsonString(J);
    psr::DIBasedTypeHierarchy L(&DB, Data);
    X.diBased(L, "loaded:");
    if (T.getAllTypes() != L.getAllTypes()) C.violation("di:loaded:types", "");
    for (auto *S : T.getAllTypes()) if (T.getSubTypes(S) != L.getSubTypes(S)) C.violation("di:loaded:subtypes", T.getTypeName(S).str());
    if (T.getAllVTables().size() == L.getAllVTables().size())
      for (size_t I = 0; I < T.getAllVTables().size(); ++I)
        if (T.getAllVTables()[I].getAllFunctions() != L.getAllVTables()[I].getAllFunctions()) C.violation("di:loaded:vtables", "");
    if (Text != str(L)) C.violation("di:loaded:text", str(L) + "\noriginal:\n" + Text);
    std::string J2;
    { llvm::raw_string_ostream OS(J2); L.printAsJson(OS); }
    if (J != J2) C.violation("di:loaded:json", J2 + "\noriginal:\n" + J);
  }
  if (G.Cs.size() > 2) C.nontrivial(mixn(X.H, hstr(G.Src)));
  C.sample(std::to_string(G.NumClasses) + " classes: " + G.Src.substr(0, 300));
}
