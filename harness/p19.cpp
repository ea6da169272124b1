// P19: the generic containers and helpers against standard-library models over random histories.
#include "common.h"
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/Average.h"
#include "phasar/Utils/BoxedPointer.h"
#include "phasar/Utils/EnumFlags.h"
#include "phasar/Utils/EquivalenceClassMap.h"
#include "phasar/Utils/IotaIterator.h"
#include "phasar/Utils/MaybeUniquePtr.h"
#include "phasar/Utils/RepeatIterator.h"
#include "phasar/Utils/StableVector.h"
#include "phasar/Utils/Table.h"
#include "phasar/Utils/Utilities.h"

#include <cmath>
#include <deque>
#include <forward_list>
#include <list>
#include <unordered_set>

using namespace vf;

// An element type that knows how many of it are alive, and which.
struct Elem {
  static std::set<const Elem *> &live() { static std::set<const Elem *> L; return L; }
  static long &bad() { static long B = 0; return B; }
  std::string V;
  Elem() { reg(); }
  Elem(int I) : V("value " + std::to_string(I) + " of some length") { reg(); }
  Elem(const Elem &O) : V(O.V) { O.chk(); reg(); }
  Elem(Elem &&O) noexcept : V(std::move(O.V)) { O.chk(); reg(); }
  Elem &operator=(const Elem &O) { O.chk(); chk(); V = O.V; return *this; }
  Elem &operator=(Elem &&O) noexcept { O.chk(); chk(); V = std::move(O.V); return *this; }
  ~Elem() { if (!live().erase(this)) ++bad(); }
  void reg() { if (!live().insert(this).second) ++bad(); }
  void chk() const { if (!live().count(this)) ++bad(); }
  friend bool operator==(const Elem &A, const Elem &B) { return A.V == B.V; }
  friend bool operator!=(const Elem &A, const Elem &B) { return A.V != B.V; }
  friend bool operator<(const Elem &A, const Elem &B) { return A.V < B.V; }
};
static Elem mk(Elem *, int I) { return Elem(I); }
static int mk(int *, int I) { return I; }
static std::string shw(const Elem &E) { return E.V; }
static std::string shw(int I) { return std::to_string(I); }

struct Tr {
  std::string S;
  uint64_t H = 3;
  template <typename... T> void operator()(const char *N, T... A) {
    S += std::string(" ") + N + "(";
    ((S += std::to_string((long)A) + ","), ...);
    S += ")";
    H = mixn(H, hstr(N), A...);
    if (S.size() > 4000) S.erase(0, 1500);
  }
};

// ------------------------------------------------------------------ StableVector
template <typename T> static void stableVector(Ctx &C, Rng &R) {
  using SV = psr::StableVector<T>;
  size_t Before = Elem::live().size();
  long BadBefore = Elem::bad();
  Tr T_;
  {
    struct Slot {
      SV V;
      std::vector<T> M;
      std::vector<T *> Addr; // where each element lives
    };
    std::vector<std::unique_ptr<Slot>> S;
    for (int I = 0; I < 3; ++I) S.push_back(std::make_unique<Slot>());
    int Next = 0;
    auto fail = [&](const char *K, const std::string &D) { C.violation(std::string("stablevector:") + K, D + " after" + T_.S); };
    auto check = [&](Slot &X) {
      if (X.V.size() != X.M.size() || X.V.empty() != X.M.empty()) return fail("size", std::to_string(X.V.size()) + " vs " + std::to_string(X.M.size()));
      const SV &CV = X.V;
      for (size_t I = 0; I < X.M.size(); ++I) {
        if (&X.V[I] != X.Addr[I]) return fail("address", "element " + std::to_string(I) + " moved");
        if (!(CV[I] == X.M[I])) return fail("index", "element " + std::to_string(I) + " is " + shw(CV[I]));
      }
      size_t N = 0;
      for (auto &E : X.V) { if (N >= X.M.size() || &E != X.Addr[N]) return fail("iteration", "at " + std::to_string(N)); ++N; }
      if (N != X.M.size()) return fail("iteration-length", std::to_string(N));
      N = 0;
      for (auto It = CV.begin(); It != CV.end(); It++) { if (N >= X.M.size() || &*It != X.Addr[N]) return fail("const-iteration", "at " + std::to_string(N)); ++N; }
      if (N != X.M.size()) return fail("const-iteration-length", std::to_string(N));
      typename SV::const_iterator CI = X.V.begin();
      if (CI != CV.cbegin() || !(X.V.begin() == X.V.begin())) return fail("iterator-equality", "");
      if (!X.M.empty() && (&X.V.front() != X.Addr.front() || &X.V.back() != X.Addr.back() || &CV.front() != X.Addr.front() || &CV.back() != X.Addr.back())) return fail("front-back", "");
      C.count("stablevector_elements_checked", X.M.size());
    };
    auto readdr = [&](Slot &X) { X.Addr.clear(); for (size_t I = 0; I < X.V.size(); ++I) X.Addr.push_back(&X.V[I]); };
    for (unsigned N = 10 + R(50); N--;) {
      auto &X = *S[R(3)];
      auto &Y = *S[R(3)];
      unsigned Op = R(15);
      C.count("stablevector_operations");
      switch (Op) {
      case 0: case 1: case 2: case 3: { // grow, often across a block boundary
        static const unsigned Ns[] = {1, 2, 5, 31, 32, 33, 64, 90, 200};
        unsigned K = Ns[R(std::size(Ns))];
        if (R.chance(1, 3)) { size_t P = 32; while (P <= X.M.size()) P <<= 1; K = P - X.M.size() + R(2); }
        if (X.M.size() + K > 1500) break;
        T_("grow", K);
        while (K--) {
          T E = mk((T *)nullptr, Next++);
          if (R.chance(1, 3)) X.V.push_back(E);
          else if (R.chance(1, 2)) { T F = E; X.V.push_back(std::move(F)); }
          else if (auto &Ref = X.V.emplace_back(E); &Ref != &X.V.back()) fail("emplace-reference", "");
          X.M.push_back(E);
          X.Addr.push_back(&X.V[X.V.size() - 1]);
        }
        break;
      }
      case 4: case 5: {
        static const unsigned Ns[] = {1, 1, 2, 31, 32, 33, 64, 90};
        unsigned K = std::min<size_t>(Ns[R(std::size(Ns))], X.M.size());
        T_("pop", K);
        while (K--) {
          if (R.chance(1, 3)) { T E = X.V.pop_back_val(); if (!(E == X.M.back())) fail("pop_back_val", shw(E)); }
          else X.V.pop_back();
          X.M.pop_back();
          X.Addr.pop_back();
        }
        break;
      }
      case 6: case 7: {
        size_t K = R(X.M.size() + 1);
        if (R.chance(1, 3)) { size_t P = 32; while (P < X.M.size()) P <<= 1; P >>= R(4); K = X.M.size() > P ? X.M.size() - P : K; }
        T_("pop_n", K);
        X.V.pop_back_n(K);
        X.M.resize(X.M.size() - K, mk((T *)nullptr, 0));
        X.Addr.resize(X.M.size());
        break;
      }
      case 8: T_("clear"); X.V.clear(); X.M.clear(); X.Addr.clear(); break;
      case 9: T_("shrink"); X.V.shrink_to_fit(); break;
      case 10: { // copy: independent and equal
        T_("copy", &X == &Y);
        if (&X == &Y) break;
        SV Cp = Y.V.clone();
        if (!(Cp == Y.V) || Cp != Y.V) fail("copy-not-equal", "");
        for (size_t I = 0; I < Cp.size(); ++I) if (&Cp[I] == Y.Addr[I]) fail("copy-aliases", "");
        X.V = std::move(Cp);
        X.M = Y.M;
        readdr(X);
        break;
      }
      case 11: { // moving keeps the elements where they are
        T_("move");
        SV Mv(std::move(X.V));
        if (X.V.size() || !X.V.empty()) fail("moved-from-not-empty", "");
        if (R.chance(1, 2)) { X.V.push_back(mk((T *)nullptr, 5)); X.V.pop_back(); }
        X.V = std::move(Mv);
        break;
      }
      case 12: {
        T_("swap", &X == &Y);
        if (R.chance(1, 2)) X.V.swap(Y.V); else swap(X.V, Y.V);
        if (&X != &Y) { std::swap(X.M, Y.M); std::swap(X.Addr, Y.Addr); }
        break;
      }
      case 13: {
        bool E = X.M == Y.M;
        if ((X.V == Y.V) != E || (X.V != Y.V) == E) fail("equality", std::to_string(E));
        if (!X.M.empty()) { // differing in one element only
          SV Cp = X.V.clone();
          size_t I = R(Cp.size());
          Cp[I] = mk((T *)nullptr, -1);
          if (Cp == X.V) fail("equality-single-element", std::to_string(I) + " of " + std::to_string(Cp.size()));
          if (!(X.V[I] == X.M[I])) fail("copy-shares-storage", "");
        }
        break;
      }
      case 14: if (!X.M.empty()) { size_t I = R(X.M.size()); X.V[I] = mk((T *)nullptr, Next); X.M[I] = mk((T *)nullptr, Next++); } break;
      }
      check(X);
      if (&X != &Y) check(Y);
      if (std::is_same_v<T, Elem>) {
        size_t Want = Before;
        for (auto &P : S) Want += 2 * P->M.size();
        if (Elem::live().size() != Want) fail("live-objects", std::to_string(Elem::live().size()) + " instead of " + std::to_string(Want));
      }
      if (C.CaseViol) break;
    }
    C.nontrivial(T_.H);
  }
  if (Elem::live().size() != Before) C.violation("stablevector:leak", std::to_string(Elem::live().size() - Before) + " elements outlive the vector after" + T_.S);
  if (Elem::bad() != BadBefore) C.violation("stablevector:lifetime", "operations on dead or doubly constructed elements after" + T_.S);
  Elem::bad() = BadBefore;
  C.sample("StableVector" + T_.S);
}

// ------------------------------------------------------------------ Table
template <typename V> static void table(Ctx &C, Rng &R) {
  using Tab = psr::Table<int, int, V>;
  std::vector<Tab> T(2);
  std::vector<std::map<std::pair<int, int>, V>> M(2);
  Tr T_;
  auto val = [&] { return mk((V *)nullptr, R(50)); };
  auto fail = [&](const char *K, const std::string &D = "") { C.violation(std::string("table:") + K, D + " after" + T_.S); };
  auto check = [&](unsigned I) {
    auto &X = T[I];
    const auto &CX = X;
    auto &Y = M[I];
    size_t N = 0;
    CX.foreachCell([&](int Rw, int Cl, const V &Vl) { ++N; auto It = Y.find({Rw, Cl}); if (It == Y.end() || !(It->second == Vl)) fail("foreach"); });
    if (N != Y.size()) fail("foreach-count");
    auto Vec = CX.cellVec();
    auto Set = CX.cellSet();
    if (Vec.size() != Y.size() || Set.size() != Y.size()) fail("cells");
    for (auto &Ce : Vec) { auto It = Y.find({Ce.getRowKey(), Ce.getColumnKey()}); if (It == Y.end() || !(It->second == Ce.getValue()) || !Set.count(Ce)) fail("cellvec"); }
    std::set<int> Rows;
    for (auto &[K, Vl] : Y) Rows.insert(K.first);
    for (int A = 0; A < 7; ++A) {
      std::map<int, V> Ro, Co;
      for (auto &[K, Vl] : Y) { if (K.first == A) Ro.insert({K.second, Vl}); if (K.second == A) Co.insert({K.first, Vl}); }
      const auto &GR = CX.row(A);
      if (GR.size() != Ro.size()) fail("row-size");
      for (auto &[K, Vl] : GR) if (!Ro.count(K) || !(Ro.at(K) == Vl)) fail("row");
      auto GC = CX.column(A);
      if (GC.size() != Co.size()) fail("column-size");
      for (auto &[K, Vl] : GC) if (!Co.count(K) || !(Co.at(K) == Vl)) fail("column");
      if (CX.containsColumn(A) != !Co.empty()) fail("containsColumn");
      if (!Ro.empty() && !CX.containsRow(A)) fail("containsRow");
      for (int B = 0; B < 7; ++B) {
        auto It = Y.find({A, B});
        if (CX.contains(A, B) != (It != Y.end())) fail("contains");
        const V &G = CX.get(A, B);
        if (!(G == (It == Y.end() ? V() : It->second))) fail("get", shw(G));
      }
    }
    for (int A : Rows) if (!CX.rowMap().count(A)) fail("rowMap");
    if (!Y.empty() && CX.empty()) fail("empty");
    if (CX.size() < Rows.size() || CX.size() != CX.rowMap().size()) fail("size");
    C.count("table_cells_checked", 49);
  };
  for (unsigned N = 10 + R(40); N--;) {
    unsigned I = R(2), Op = R(12);
    int A = R(6), B = R(6);
    T_("t", I, Op, A, B);
    auto &X = T[I];
    auto &Y = M[I];
    switch (Op) {
    case 0: case 1: case 2: case 3: { auto V1 = val(); X.insert(A, B, V1); Y[{A, B}] = V1; break; }
    case 4: case 5: { auto G = X.remove(A, B); auto It = Y.find({A, B}); if (!(G == (It == Y.end() ? V() : It->second))) fail("remove-value", shw(G)); if (It != Y.end()) Y.erase(It); 
      bool Any = false; for (auto &[K, Vl] : Y) Any |= K.first == A; (void)Any; break; }
    case 6: X.remove(A); for (auto It = Y.begin(); It != Y.end();) It = It->first.first == A ? Y.erase(It) : std::next(It); break;
    case 7: if (R.chance(1, 4)) { X.clear(); Y.clear(); if (!X.empty() || X.size()) fail("clear"); } break;
    case 8: { auto V1 = val(); X.get(A, B) = V1; Y[{A, B}] = V1; break; }
    case 9: { auto V1 = val(); X.row(A)[B] = V1; Y[{A, B}] = V1; break; }
    case 10: { auto V1 = val(); X.foreachCell([&](int Rw, int Cl, V &Vl) { if (Rw == A) Vl = V1; }); for (auto &[K, Vl] : Y) if (K.first == A) Vl = V1; break; }
    case 11: { Tab Cp(T[1 - I]); if (!(Cp == T[1 - I])) fail("copy-equality"); T[I] = std::move(Cp); M[I] = M[1 - I]; check(1 - I); break; }
    }
    check(I);
    C.count("table_operations");
    if (C.CaseViol) return;
  }
  C.nontrivial(T_.H);
}

// ------------------------------------------------------------------ EquivalenceClassMap
static void eqClasses(Ctx &C, Rng &R) {
  psr::EquivalenceClassMap<int, std::string> E;
  std::map<int, std::string> M;
  Tr T_;
  auto fail = [&](const char *K) { C.violation(std::string("eqclassmap:") + K, "after" + T_.S); };
  for (unsigned N = 5 + R(40); N--;) {
    int K = R(20);
    std::string V = M.count(K) ? M[K] : "v" + std::to_string(R(6));
    unsigned Op = R(9);
    T_("e", Op, K, V.back() - '0');
    bool New = !M.count(K);
    auto cont = [&](auto &&P) { if (P.second != New || *P.first != K) fail("insert-result"); };
    if (Op == 0) cont(E.insert(K, V));
    else if (Op == 1) cont(E.insert(std::pair<int, std::string>(K, V)));
    else if (Op == 2) { std::pair<int, std::string> P(K, V); cont(E.insert(P)); }
    else if (Op == 3) { const int CK = K; cont(E.try_emplace(CK, V)); }
    else if (Op == 4) { int CK = K; cont(E.try_emplace(std::move(CK), V)); }
    else if (Op == 5) { std::vector<std::pair<int, std::string>> P{{K, V}}; E.insert(P.begin(), P.end()); }
    else if (Op == 6 && R.chance(1, 10)) { E.clear(); M.clear(); continue; }
    else continue;
    M[K] = V;
    std::set<std::string> Vals;
    for (auto &[A, B] : M) Vals.insert(B);
    if (E.size() != Vals.size() || E.numEquivalenceClasses() != Vals.size()) fail("class-count");
    std::set<std::string> Seen;
    size_t Keys = 0;
    for (auto &[Ks, V2] : E.equivalenceClasses()) {
      if (!Seen.insert(V2).second) fail("duplicate-class");
      for (int A : Ks) { ++Keys; if (!M.count(A) || M[A] != V2) fail("class-member"); }
    }
    if (Keys != M.size()) fail("key-count");
    for (int A = 0; A < 21; ++A) {
      auto F = E.findValue(A);
      if (E.count(A) != M.count(A) || F.has_value() != (M.count(A) != 0) || (F && *F != M[A])) fail("find");
      auto It = E.find(A);
      if ((It != E.end()) != (M.count(A) != 0) || (It != E.end() && It->second != M[A])) fail("find-iterator");
    }
    C.count("eqclass_lookups", 21);
  }
  C.nontrivial(T_.H);
}

// ------------------------------------------------------------------ MaybeUniquePtr
struct alignas(8) Obj {
  static int &alive() { static int A = 0; return A; }
  int Id;
  explicit Obj(int I) : Id(I) { ++alive(); }
  virtual ~Obj() { --alive(); Id = -77; }
};
struct DObj : Obj { std::string Pad = "derived object with a heap string"; using Obj::Obj; };
template <bool RA> static void maybeUnique(Ctx &C, Rng &R) {
  using P = psr::MaybeUniquePtr<Obj, RA>;
  Tr T_;
  int Before = Obj::alive();
  auto fail = [&](const char *K) { C.violation(std::string("maybeuniqueptr:") + K, "after" + T_.S); };
  {
    std::vector<std::unique_ptr<Obj>> Ext; // objects owned elsewhere
    for (int I = 0; I < 3; ++I) Ext.push_back(std::make_unique<Obj>(100 + I));
    struct Sh { Obj *Ptr = nullptr; bool Own = false; };
    std::vector<P> V(4);
    std::vector<Sh> S(4);
    int Next = 0;
    auto check = [&] {
      int Owned = 0;
      for (unsigned I = 0; I < V.size(); ++I) {
        if (V[I].get() != S[I].Ptr || V[I].owns() != S[I].Own || bool(V[I]) != (S[I].Ptr != nullptr)) fail("state");
        if (S[I].Ptr && (V[I]->Id != S[I].Ptr->Id || (*V[I]).Id < 0)) fail("deref");
        Owned += S[I].Own;
        if (!(V[I] == S[I].Ptr) || V[I] != S[I].Ptr) fail("compare-pointer");
        for (unsigned J = 0; J < V.size(); ++J) if ((V[I] == V[J]) != (S[I].Ptr == S[J].Ptr)) fail("compare");
      }
      if (Obj::alive() != Before + (int)Ext.size() + Owned) fail("live-objects");
      C.count("uniqueptr_states");
    };
    for (unsigned N = 10 + R(40); N--;) {
      unsigned I = R(V.size()), J = R(V.size()), Op = R(10);
      T_("u", Op, I, J);
      switch (Op) {
      case 0: V[I] = std::make_unique<Obj>(Next++); S[I] = {V[I].get(), true}; break;
      case 1: V[I] = std::make_unique<DObj>(Next++); S[I] = {V[I].get(), true}; break;
      case 2: { auto *E = Ext[R(3)].get(); P Tmp(E); V[I].reset(); V[I] = std::move(Tmp); S[I] = {E, false}; break; }
      case 3: if (I == J) break; V[I].reset(); V[I] = std::move(V[J]); S[I] = S[J]; S[J] = {}; break;
      case 4: V[I].reset(); S[I] = {}; break;
      case 5: { P Tmp(std::move(V[I])); if (V[I].get() || V[I].owns()) fail("moved-from"); if (R.chance(1, 2)) V[I] = std::move(Tmp); else S[I] = {}; break; }
      case 6: if (S[I].Own) { std::unique_ptr<Obj> U(V[I].release()); if (V[I].owns() || U.get() != S[I].Ptr) fail("release"); U.release(); V[I] = P(S[I].Ptr, true); } break;
      case 7: if (R.chance(1, 2)) V[I].swap(V[J]); else swap(V[I], V[J]); std::swap(S[I], S[J]); break;
      case 8: { std::unique_ptr<Obj> Nul; V[I] = std::move(Nul); S[I] = {}; break; }
      case 9: V[I].reset(std::make_unique<DObj>(Next++)); S[I] = {V[I].get(), true}; break;
      }
      check();
      if (C.CaseViol) break;
    }
    C.nontrivial(T_.H);
  }
  if (Obj::alive() != Before) fail("leak");
}

// ------------------------------------------------------------------ AdjacencyList
static void adjacency(Ctx &C, Rng &R) {
  using G = psr::AdjacencyList<std::string, unsigned>;
  using Tr2 = psr::GraphTraits<G>;
  G Gr;
  std::vector<std::string> Nodes;
  std::vector<std::vector<unsigned>> Adj;
  std::vector<unsigned> Roots;
  Tr T_;
  auto fail = [&](const char *K) { C.violation(std::string("adjacency:") + K, "after" + T_.S); };
  for (unsigned N = 10 + R(60); N--;) {
    unsigned Op = R(10), A = Nodes.empty() ? 0 : R(Nodes.size()), B = Nodes.empty() ? 0 : R(Nodes.size());
    T_("g", Op, A, B);
    if (Op < 3 || Nodes.empty()) {
      std::string L = "n" + std::to_string(R(9));
      auto V = Tr2::addNode(Gr, L);
      if (V != Nodes.size()) fail("vertex-id");
      Nodes.push_back(L);
      Adj.emplace_back();
    } else if (Op < 6) { Tr2::addEdge(Gr, A, B); Adj[A].push_back(B); }
    else if (Op == 6) { Tr2::dedupOutEdges(Gr, A); auto &X = Adj[A]; std::sort(X.begin(), X.end()); X.erase(std::unique(X.begin(), X.end()), X.end()); }
    else if (Op == 7) { if (std::find(Roots.begin(), Roots.end(), A) == Roots.end()) { Tr2::addRoot(Gr, A); Roots.push_back(A); } }
    else if (Op == 8) {
      if (!Adj[A].empty()) {
        size_t I = R(Adj[A].size());
        auto It = Tr2::removeEdge(Gr, A, Tr2::outEdges(Gr, A).begin() + I);
        auto Ed = Adj[A][I];
        // the remaining edges are kept; the returned iterator continues with one not yet seen
        std::multiset<unsigned> Rest(Adj[A].begin() + I + 1, Adj[A].end()), Got(It, Tr2::outEdges(Gr, A).end());
        if (Got != Rest) fail("removeEdge-continuation");
        Adj[A].erase(Adj[A].begin() + I);
        (void)Ed;
      }
    } else if (Op == 9) {
      bool Last = R.chance(1, 2);
      unsigned V = Last ? Nodes.size() - 1 : A;
      bool Ref = false;
      for (auto &X : Adj) for (auto E : X) Ref |= E == V;
      for (auto X : Roots) Ref |= X == V;
      if (Ref) continue;
      bool Ok = Tr2::pop(Gr, V);
      if (Ok != (V + 1 == Nodes.size())) fail("pop-result");
      if (Ok) { Nodes.pop_back(); Adj.pop_back(); }
    }
    if (Tr2::size(Gr) != Nodes.size() || Tr2::roots_size(Gr) != Roots.size()) fail("size");
    if (std::vector<unsigned>(Tr2::roots(Gr).begin(), Tr2::roots(Gr).end()) != Roots) fail("roots");
    std::vector<unsigned> Vs;
    for (auto V : Tr2::vertices(Gr)) Vs.push_back(V);
    if (Vs.size() != Nodes.size()) fail("vertices");
    for (unsigned V = 0; V < Nodes.size(); ++V) {
      if (Vs.size() == Nodes.size() && Vs[V] != V) fail("vertices");
      if (Tr2::node(Gr, V) != Nodes[V] || Tr2::nodes(std::as_const(Gr))[V] != Nodes[V]) fail("node");
      std::multiset<unsigned> X(Adj[V].begin(), Adj[V].end()), Y(Tr2::outEdges(Gr, V).begin(), Tr2::outEdges(Gr, V).end());
      if (X != Y || Tr2::outDegree(Gr, V) != Adj[V].size()) fail("edges");
      Adj[V].assign(Tr2::outEdges(Gr, V).begin(), Tr2::outEdges(Gr, V).end()); // order is unspecified after removals
    }
    C.count("graph_vertices_checked", Nodes.size());
    if (C.CaseViol) return;
  }
  C.nontrivial(T_.H);
}

// ------------------------------------------------------------------ helpers
enum class Fl : unsigned { None = 0, A = 1, B = 2, D = 4, E = 0x80000000u };
static void helpers(Ctx &C, Rng &R) {
  using namespace psr;
  Tr T_;
  { // remove_by_index on every iterator category
    unsigned N = R(20);
    std::vector<int> V, Idx, Want;
    for (unsigned I = 0; I < N; ++I) {
      V.push_back(1000 + I);
      if (R.chance(1, 3)) Idx.push_back(I); else Want.push_back(1000 + I);
    }
    if (Idx.size() > 1 && R.chance(1, 4)) { while (Idx.size() > 1) { Want.push_back(1000 + Idx.back()); Idx.pop_back(); } std::sort(Want.begin(), Want.end()); }
    for (int I : Idx) T_("ix", I);
    auto go = [&](auto Cont, const char *K) {
      auto E = remove_by_index(Cont, Idx);
      std::vector<int> Got(Cont.begin(), E);
      if (Got != Want) C.violation(std::string("remove_by_index:") + K, "n=" + std::to_string(N) + T_.S);
      C.count("removals", Idx.size());
    };
    go(V, "vector");
    go(std::list<int>(V.begin(), V.end()), "list");
    go(std::forward_list<int>(V.begin(), V.end()), "forward_list");
    go(std::deque<int>(V.begin(), V.end()), "deque");
    std::vector<std::string> SV, SW;
    for (int X : V) SV.push_back("a rather long string number " + std::to_string(X));
    for (int X : Want) SW.push_back("a rather long string number " + std::to_string(X));
    SV.erase(remove_by_index(SV, Idx.begin(), Idx.end()), SV.end());
    if (SV != SW) C.violation("remove_by_index:strings", T_.S);
  }
  { // intersectWith
    std::set<int> A, B;
    for (unsigned N = R(20); N--;) (R.chance(1, 2) ? A : B).insert(R(15));
    std::set<int> W;
    for (int X : A) if (B.count(X)) W.insert(X);
    std::set<int> G1 = A;
    intersectWith(G1, B);
    std::unordered_set<int> G2(A.begin(), A.end());
    intersectWith(G2, std::unordered_set<int>(B.begin(), B.end()));
    if (G1 != W || std::set<int>(G2.begin(), G2.end()) != W) C.violation("intersectWith", "");
    C.count("intersections");
  }
  { // power set
    std::set<int> A;
    for (unsigned N = R(7); N--;) A.insert(R(100));
    auto P = computePowerSet(A);
    bool Ok = P.size() == (1u << A.size());
    for (auto &X : P) Ok &= std::includes(A.begin(), A.end(), X.begin(), X.end());
    if (!Ok) C.violation("powerset", "of " + std::to_string(A.size()) + " elements has " + std::to_string(P.size()));
  }
  { // ids: numeric ones first, in numeric order; the others lexicographically
    std::vector<std::string> Id;
    for (int I = 0; I < 8; ++I) {
      unsigned K = R(4);
      std::string S;
      if (K < 2) S = std::to_string((int)R(2000) - (R.chance(1, 5) ? 1000 : 0));
      else S = std::string(1, "fgmxyz_"[R(7)]) + std::to_string(R(20)) + (K == 3 ? "." + std::to_string(R(12)) : "");
      Id.push_back(S);
    }
    StringIDLess L;
    auto num = [](const std::string &S) { return isdigit(S[0]) || S[0] == '-'; };
    for (auto &A : Id)
      for (auto &B : Id) {
        bool W = num(A) ? (num(B) ? std::stol(A) < std::stol(B) : true) : num(B) ? false : A < B;
        if (L(A, B) != W) C.violation("stringidless", "'" + A + "' < '" + B + "'");
        C.count("id_comparisons");
      }
  }
  { // flags
    unsigned A = R(256) | (R.chance(1, 3) ? 0x80000000u : 0), B = R(256) | (R.chance(1, 3) ? 0x80000000u : 0);
    Fl X = (Fl)A, Y = (Fl)B;
    bool Ok = (unsigned)(Fl)(X & Y) == (A & B) && (unsigned)(X | Y) == (A | B) && (unsigned)(X ^ Y) == (A ^ B) && (unsigned)~X == ~A && hasFlag(X, Y) == ((A & B) == B) &&
              bool(X & Y) == ((A & B) != 0);
    Fl Z = X; Z |= Y; Ok &= (unsigned)Z == (A | B);
    Z = X; Z &= Y; Ok &= (unsigned)Z == (A & B);
    Z = X; Z ^= Y; Ok &= (unsigned)Z == (A ^ B);
    Z = X; setFlag(Z, Y); Ok &= (unsigned)Z == (A | B);
    Z = X; unsetFlag(Z, Y); Ok &= (unsigned)Z == (A & ~B);
    Z = X; setFlag(Z, Y, false); Ok &= (unsigned)Z == (A & ~B);
    Z = X; setFlag(Z, Y, true); Ok &= (unsigned)Z == (A | B);
    if (!Ok) C.violation("enumflags", std::to_string(A) + " " + std::to_string(B));
  }
  { // average
    Sampler S;
    double Sum = 0;
    unsigned N = R(50);
    for (unsigned I = 0; I < N; ++I) { size_t X = R(1 + R(100000)); S.addSample(X); Sum += X; }
    if (S.getNumSamples() != N || (N && std::fabs(S.getAverage() - Sum / N) > 1e-6 * (1 + Sum / N))) C.violation("sampler", std::to_string(S.getAverage()) + " vs " + std::to_string(Sum / (N ? N : 1)));
  }
  { // ranges
    int A = (int)R(10) - 5, B = A + R(10), W = A;
    for (int X : psr::iota(A, B)) if (X != W++) C.violation("iota", "");
    if (W != B) C.violation("iota", "end");
    size_t N = R(9), K = 0;
    for (const auto &S : psr::repeat(std::string("repeated"), N)) { ++K; if (S != "repeated" || K > N) { C.violation("repeat", ""); break; } }
    if (K != N) C.violation("repeat", "count");
  }
  { // boxed pointers follow their box
    int X = R(9), Y = 7;
    int *P = &X, *Q = &Y, *Nul = nullptr;
    BoxedPtr<int> B(&P), B2(&P), B3(&Q), B4(&Nul), B5;
    BoxedConstPtr<int> CB(B);
    bool Ok = *B == X && B == B2 && B != B3 && bool(B) && !B4 && !B5 && CB.get() == &X && *CB == X && (size_t)hash_value(B) == (size_t)hash_value(B2) && CB == BoxedConstPtr<int>(B2) && CB != BoxedConstPtr<int>(B3);
    P = &Y;
    Ok &= *B == 7 && *CB == 7 && B != B3 && B.get() == &Y && (B < B3) == (&P < &Q) && (B >= B3) == !(B < B3);
    if (!Ok) C.violation("boxedptr", "");
  }
  C.nontrivial(mixn(T_.H, R.next()));
}

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  auto R = C.rng();
  ++C.Evaluations;
  switch (C.Case % 8) {
  case 0: case 1: stableVector<Elem>(C, R); break;
  case 2: stableVector<int>(C, R); break;
  case 3: R.chance(1, 2) ? table<Elem>(C, R) : table<int>(C, R); break;
  case 4: eqClasses(C, R); break;
  case 5: R.chance(1, 2) ? maybeUnique<true>(C, R) : maybeUnique<false>(C, R); break;
  case 6: adjacency(C, R); break;
  case 7: helpers(C, R); break;
  }
}
