// Random C++ class hierarchies with virtual methods (single inheritance of non-template classes unless Multi is set).
#pragma once
#include "common.h"
namespace vf {
struct ClassGen {
  Rng &R;
  unsigned NumClasses = 4, NumMethods = 5; // the last method returns a pointer to its own class (covariant)
  bool Multi = false, Globals = true;
  bool Rich = false; // virtual and non-polymorphic bases, anonymous namespaces, equal names in different namespaces, bases named by a typedef
  bool ClassesOnly = false; // no calls, no factories; only objects of all classes
  std::string Src;
  struct Cls {
    std::string Name, Kind, Ns;
    std::vector<int> Bases;
    std::map<int, bool> Decl;  // method -> pure
    bool Dtor = false;
    bool Abstract = false;
    bool Anon = false;              // in the anonymous namespace
    std::vector<bool> VBase;        // virtual base?
    std::vector<int> Order;         // declaration order of the methods; -1: the destructor
    std::vector<int> Path() const { return Bases; }
  };
  std::vector<Cls> Cs;
  std::set<int> Instantiated, Makeable;
  explicit ClassGen(Rng &R) : R(R) {}
  bool derives(int D, int B) const {
    if (D == B) return true;
    for (int X : Cs[D].Bases) if (derives(X, B)) return true;
    return false;
  }
  std::string qual(int C) const { return (Cs[C].Ns.empty() ? "" : Cs[C].Ns + "::") + Cs[C].Name; }
  std::string mangled(int C, int M) const {
    std::string S = "_ZN";
    if (Cs[C].Anon) S += "12_GLOBAL__N_1";
    if (!Cs[C].Ns.empty()) S += std::to_string(Cs[C].Ns.size()) + Cs[C].Ns;
    S += std::to_string(Cs[C].Name.size()) + Cs[C].Name + "2m" + std::to_string(M) + "E";
    return S + sigM(M);
  }
  static std::string sig(int M) { return M % 4 == 0 ? "" : M % 4 == 1 ? "int a" : M % 4 == 2 ? "int *p, int a" : "long l"; }
  static std::string sigM(int M) { return M % 4 == 0 ? "v" : M % 4 == 1 ? "i" : M % 4 == 2 ? "Pii" : "l"; }
  static std::string args(int M) { return M % 4 == 0 ? "" : M % 4 == 1 ? "1" : M % 4 == 2 ? "&gint, 2" : "3"; }
  static std::string ret(int M) { return M % 3 == 0 ? "int" : M % 3 == 1 ? "void" : "int *"; }
  static std::string retS(int M) { return M % 3 == 0 ? "return ext();" : M % 3 == 1 ? "return;" : "return &gint;"; }
  // who implements M for an object of dynamic class C (nearest along the bases); -1: nobody, -2: pure
  int final_(int C, int M) const {
    auto It = Cs[C].Decl.find(M);
    if (It != Cs[C].Decl.end()) return It->second ? -2 : C;
    for (int B : Cs[C].Bases) { int X = final_(B, M); if (X != -1) return X; }
    return -1;
  }
  std::set<std::string> overriders(int C, int M, const std::set<int> *Inst) const {
    std::set<std::string> S;
    for (int D = 0; D < (int)Cs.size(); ++D) {
      if (!derives(D, C) || (Inst && !Inst->count(D))) continue;
      int F = final_(D, M);
      if (F >= 0) S.insert(mangled(F, M));
    }
    return S;
  }
  // the class whose declaration of M a call through a C refers to
  int owner(int C, int M) const {
    if (Cs[C].Decl.count(M)) return C;
    for (int B : Cs[C].Bases) { int X = owner(B, M); if (X != -1) return X; }
    return -1;
  }
  void generate() {
    static const char *Pool[] = {"Shape", "A", "Base", "Widget", "X1", "Node", "LongerClassName", "Io", "Q", "Zed"};
    std::string O = "int gint; extern \"C\" int ext();\n";
    for (int C = 0; C < (int)NumClasses; ++C) {
      Cls K;
      K.Name = std::string(Pool[R(10)]) + (R.chance(1, 2) ? "_" : "") + std::to_string(C);
      K.Kind = R.chance(1, 2) ? "struct" : "class";
      if (R.chance(1, 4)) K.Ns = R.chance(1, 2) ? "ns" : "inner";
      if (Rich) {
        K.Anon = K.Ns.empty() && R.chance(1, 5);
        if (C && R.chance(1, 4)) {
          auto &O = Cs[R(C)];
          bool Used = O.Anon || K.Anon;
          for (auto &X : Cs) if (X.Name == O.Name && X.Ns == K.Ns) Used = true;
          if (!Used) K.Name = O.Name;
        }
      }
      if (C && R.chance(4, 5)) K.Bases.push_back((int)R(C));
      if (Multi && C > 1 && R.chance(1, 2)) { int B = (int)R(C); if (K.Bases.empty() || (!derives2(K.Bases[0], B))) K.Bases.push_back(B); }
      for (size_t I = 0; I < K.Bases.size(); ++I) K.VBase.push_back(Rich && R.chance(1, 6));
      Cs.push_back(K);
      auto &S = Cs.back();
      bool Any = false;
      if (Rich && R.chance(1, 6)) continue;
      for (int M = 0; M < (int)NumMethods; ++M) {
        if (R.chance(1, 2)) { S.Decl[M] = K.Bases.empty() && R.chance(1, 4); Any = true; }
      }
      if (!Any && K.Bases.empty()) S.Decl[(int)R(NumMethods)] = false;
      S.Dtor = R.chance(1, 3);
      for (int M = 0; M < (int)NumMethods; ++M) if (final_(C, M) == -2) S.Abstract = true;
    }
    // forward declarations of the call functions
    std::vector<std::pair<int, int>> Sites;
    for (int C = 0; C < (int)NumClasses; ++C)
      for (int M = 0; M < (int)NumMethods; ++M)
        if (!ClassesOnly && final_(C, M) != -1 && R.chance(2, 3)) Sites.push_back({C, M});
    for (int C = 0; C < (int)NumClasses; ++C) {
      auto &K = Cs[C];
      if (!K.Ns.empty() || K.Anon) O += "namespace " + K.Ns + " { ";
      O += K.Kind + " " + K.Name + ";";
      O += K.Ns.empty() && !K.Anon ? "\n" : " }\n";
    }
    for (auto &[C, M] : Sites) O += "extern \"C\" void vc_" + std::to_string(C) + "_" + std::to_string(M) + "(" + qual(C) + " *p);\n";
    for (int C = 0; C < (int)NumClasses; ++C) {
      auto &K = Cs[C];
      std::vector<std::string> BN;
      for (size_t I = 0; I < K.Bases.size(); ++I) {
        BN.push_back("::" + qual(K.Bases[I]));
        if (Rich && R.chance(1, 4)) { std::string T = "td" + std::to_string(C) + "_" + std::to_string(I); O += "typedef " + qual(K.Bases[I]) + " " + T + ";\n"; BN.back() = T; }
      }
      if (!K.Ns.empty() || K.Anon) O += "namespace " + K.Ns + " { ";
      O += K.Kind + " " + K.Name;
      for (size_t I = 0; I < K.Bases.size(); ++I) O += std::string(I ? ", " : " : ") + (K.VBase[I] ? "public virtual " : "public ") + BN[I];
      O += " {\npublic:\n";
      if (R.chance(1, 2)) O += "  int f" + std::to_string(C) + ";\n";
      std::vector<int> Order;
      for (auto &[M, P] : K.Decl) Order.insert(Order.begin() + R(Order.size() + 1), M);
      int DtorAt = K.Dtor ? (int)R(Order.size() + 1) : -1;
      Cs[C].Order = Order;
      if (DtorAt >= 0) Cs[C].Order.insert(Cs[C].Order.begin() + DtorAt, -1);
      bool CallIn = R.chance(1, 4);
      O += "  " + K.Name + "() { " + (CallIn && !Order.empty() && !K.Decl[Order[0]] ? "m" + std::to_string(Order[0]) + "(" + args(Order[0]) + ");" : "") + " }\n";
      for (size_t I = 0; I <= Order.size(); ++I) {
        if ((int)I == DtorAt) O += "  virtual ~" + K.Name + "() {}\n";
        if (I == Order.size()) break;
        int M = Order[I];
        bool Over = false;
        for (int B : K.Bases) if (final_(B, M) != -1) Over = true;
        O += "  " + std::string(Over && R.chance(1, 2) ? "" : "virtual ") + (M == 4 ? K.Name + " *" : ret(M)) + " m" + std::to_string(M) + "(" + sig(M) + ")" + (Over && R.chance(1, 3) ? " override" : "");
        if (K.Decl[M]) { O += " = 0;\n"; continue; }
        O += " { ";
        if (R.chance(1, 3)) // another call on this, through a function
          for (auto &[SC, SM] : Sites)
            if (derives(C, SC) && R.chance(1, 3)) { O += "if (ext()) vc_" + std::to_string(SC) + "_" + std::to_string(SM) + "(this); "; break; }
        O += (M == 4 ? std::string("return this;") : retS(M)) + " }\n";
      }
      O += "};\n";
      O += K.Ns.empty() && !K.Anon ? "" : "}\n";
    }
    for (auto &[C, M] : Sites) {
      O += "extern \"C\" void vc_" + std::to_string(C) + "_" + std::to_string(M) + "(" + qual(C) + " *p) { ";
      O += R.chance(1, 3) ? qual(C) + " &r = *p; r." : "p->";
      O += "m" + std::to_string(M) + "(" + args(M) + "); }\n";
    }
    if (ClassesOnly) {
      for (int C = 0; C < (int)NumClasses; ++C) {
        std::string N = std::to_string(C);
        unsigned W = R(6);
        if (W == 0 || Cs[C].Abstract) O += "int use" + N + "(" + qual(C) + " *p) { return sizeof(*p); }\n";
        else if (W == 1) O += "static " + qual(C) + " gob" + N + "; void *use" + N + "() { return &gob" + N + "; }\n";
        else if (W == 2) O += "void *use" + N + "() { return new " + qual(C) + "; }\n";
        else if (W < 5) O += "void sink(" + qual(C) + " *p); void use" + N + "() { " + qual(C) + " x; sink(&x); }\n";
        if (!Cs[C].Abstract && W && W < 5) Instantiated.insert(C);
      }
      O += "int main() { return 0; }\n";
      Src = O;
      return;
    }
    // objects
    std::vector<std::string> Gl;
    for (int C = 0; C < (int)NumClasses; ++C)
      if (Globals && !Cs[C].Abstract && R.chance(1, 6)) { O += "static " + qual(C) + " gob" + std::to_string(C) + ";\n"; Instantiated.insert(C); }
    auto GlobSet = Instantiated;
    // factories
    for (int C = 0; C < (int)NumClasses; ++C) {
      int Last = -1;
      for (int D = 0; D < (int)NumClasses; ++D) if (derives(D, C) && !Cs[D].Abstract) Last = D;
      if (Last < 0) continue;
      Makeable.insert(C);
      O += qual(C) + " *make" + std::to_string(C) + "(int k) {\n";
      if (!Cs[C].Abstract && R.chance(1, 6)) {
        // an object as (part of) a member: first or later, alone, in arrays, in a nested struct
        static const char *Dim[] = {"", "[1]", "[2]", "[2][2]"};
        unsigned D = R(4), Nest = R(3);
        std::string H = "Holder" + std::to_string(C);
        O += "  struct " + H + "I { " + (R.chance(1, 2) ? "int before; " : "") + qual(C) + " inner" + Dim[D] + "; };\n";
        O += "  struct " + H + " { " + (R.chance(1, 2) ? "int pre; " : "") + H + "I n" + (Nest == 1 ? "[2]" : "") + "; }; static " + H + " h; if (ext()) return &h.n" + (Nest == 1 ? "[1]" : "") + ".inner" + (D == 0 ? "" : D == 3 ? "[1][0]" : "[0]") + ";\n";
        Instantiated.insert(C);
      }
      if (!Cs[C].Abstract && R.chance(1, 12)) { O += "  static " + qual(C) + " grid[2][2]; if (ext()) return &grid[1][1];\n"; Instantiated.insert(C); }
      if (!Cs[C].Abstract && R.chance(1, 8)) { O += "  if (ext()) return new " + qual(C) + "[2];\n"; Instantiated.insert(C); }
      if (!Cs[C].Abstract && R.chance(1, 4)) { O += "  static " + qual(C) + " loc; if (ext()) return &loc;\n"; Instantiated.insert(C); }
      for (int D = 0; D < (int)NumClasses; ++D)
        if (derives(D, C) && !Cs[D].Abstract && R.chance(2, 3)) {
          if (GlobSet.count(D) && R.chance(1, 2)) O += "  if (ext()) return &gob" + std::to_string(D) + ";\n";
          else { O += "  if (ext()) return new " + qual(D) + "();\n"; Instantiated.insert(D); }
        }
      O += "  return new " + qual(Last) + "();\n}\n";
      Instantiated.insert(Last);
    }
    O += "int main() {\n  int k = ext();\n";
    for (int C = 0; C < (int)NumClasses; ++C) {
      std::string N = std::to_string(C);
      if (!Makeable.count(C)) continue;
      O += "  { " + qual(C) + " *p = make" + N + "(k);\n";
      if (!Cs[C].Abstract && R.chance(1, 3)) { bool Arr = R.chance(1, 3); O += "    " + qual(C) + " l" + (Arr ? "[2]" : "") + "; if (ext()) p = " + (Arr ? "l" : "&l") + ";\n"; Instantiated.insert(C); }
      O += "    {\n";
      for (auto &[SC, SM] : Sites)
        if (derives(C, SC)) O += "    if (ext()) vc_" + std::to_string(SC) + "_" + std::to_string(SM) + "(p);\n";
      if (Cs[C].Dtor && R.chance(1, 2)) O += "    if (ext()) delete p;\n";
      O += "    }\n  }\n";
    }
    O += "  return 0;\n}\n";
    Src = O;
  }
  bool derives2(int A, int B) const { return derives(A, B) || derives(B, A); }
};
} // namespace vf
