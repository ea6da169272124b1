// P04: edge-function algebra, identity and storage.
#include "idegen.h"
#include "phasar/Domain/LatticeDomain.h"
#include <thread>
#include <unordered_set>
using namespace vf;

// ------------------------------------------------------------------ values
using LD = psr::LatticeDomain<int>;
// no JoinLatticeTraits: top/bottom are carried by the functions
struct NL {
  int V = 0;
  friend bool operator==(NL A, NL B) { return A.V == B.V; }
  friend bool operator!=(NL A, NL B) { return A.V != B.V; }
};
inline llvm::raw_ostream &operator<<(llvm::raw_ostream &OS, NL V) { return OS << "NL" << V.V; }

template <typename L> std::vector<L> allValues();
template <> std::vector<BV> allValues<BV>() {
  std::vector<BV> R{BV::top()};
  for (unsigned I = 0; I < 16; ++I) R.push_back({(uint8_t)I});
  return R;
}
template <> std::vector<LD> allValues<LD>() {
  std::vector<LD> R{psr::Top{}, psr::Bottom{}};
  for (int I = -4; I < 9; ++I) R.push_back(I);
  return R;
}
// reference lattice operations
static BV rjoin(BV A, BV B) { return BV::join(A, B); }
static LD rjoin(const LD &A, const LD &B) {
  if (A.index() == 0) return B;
  if (B.index() == 0) return A;
  if (A.index() == 1 && B.index() == 1 && std::get<int>(A) == std::get<int>(B)) return A;
  return psr::Bottom{};
}
static bool same(BV A, BV B) { return A.V == B.V; }
static bool same(const LD &A, const LD &B) {
  return A.index() == B.index() && (A.index() != 1 || std::get<int>(A) == std::get<int>(B));
}
static bool isTopV(BV A) { return A.V & 0x80; }
static bool isTopV(const LD &A) { return A.index() == 0; }
template <typename L> static bool leq(const L &A, const L &B) { return same(rjoin(A, B), B); }

// random monotone function, evaluated pointwise
struct Pt {
  unsigned A = 0, B = 0;
  friend bool operator==(Pt X, Pt Y) { return X.A == Y.A && X.B == Y.B; }
};
static BV applyPt(Pt P, BV V) { return KGv::mk(P.A, P.B)(V); }
static LD applyPt(Pt P, const LD &V) {
  if (V.index() != 1) return V;
  int X = std::get<int>(V);
  int Mul = P.A % 3; // 0: maps every proper value to one
  return (X * Mul + (int)P.B) % 9;
}

// ------------------------------------------------------------------ user functions
// N: bound handed to the default join (0: none); Heap: payload forces ref-counting
template <typename L, int N, bool Heap> struct UF;
template <typename L, int N> struct UComp;

template <typename L, int N> EdgeFunction<L> ujoin(const EdgeFunction<L> &A, const EdgeFunction<L> &B) {
  if constexpr (N > 0) return psr::JoinEdgeFunction<L, (uint8_t)N>::create(A, B);
  else return psr::AllBottom<L>{};
}
struct Empty0 {};
template <typename L, int N, bool Heap> struct UF {
  using l_t = L;
  Pt P;
  [[no_unique_address]] std::conditional_t<Heap, std::string, Empty0> Pay;
  explicit UF(Pt Q) : P(Q) {
    if constexpr (Heap) Pay = "some payload that does not fit inline " + std::to_string(P.A * 100 + P.B);
  }
  L computeTarget(psr::ByConstRef<L> V) const { return applyPt(P, V); }
  static EdgeFunction<L> compose(EdgeFunctionRef<UF> T, const EdgeFunction<L> &S) {
    if (auto D = psr::defaultComposeOrNull(T, S)) return D;
    return UComp<L, N>{{T, S}};
  }
  static EdgeFunction<L> join(EdgeFunctionRef<UF> T, const EdgeFunction<L> &O) {
    if (auto D = psr::defaultJoinOrNull<L, (uint8_t)N>(T, O)) return D;
    return ujoin<L, N>(T, O);
  }
  friend bool operator==(const UF &A, const UF &B) noexcept { return A.P == B.P; }
  friend llvm::hash_code hash_value(const UF &A) noexcept { return llvm::hash_combine(A.P.A, A.P.B); }
};
template <typename L, int N> struct UComp : psr::EdgeFunctionComposer<L> {
  static EdgeFunction<L> join(EdgeFunctionRef<UComp> T, const EdgeFunction<L> &O) {
    if (auto D = psr::defaultJoinOrNull<L, (uint8_t)N>(T, O)) return D;
    return ujoin<L, N>(T, O);
  }
};

template <typename L> struct Ent {
  EdgeFunction<L> EF;
  std::vector<L> Tab;
  std::string How;
};
template <typename L> std::vector<L> table(const EdgeFunction<L> &E, const std::vector<L> &Vs) {
  std::vector<L> R;
  for (auto &V : Vs) R.push_back(E.computeTarget(V));
  return R;
}
template <typename L> std::string tabStr(const std::vector<L> &T) {
  std::string S;
  for (auto &V : T) S += str(V) + " ";
  return S;
}
template <typename L> bool sameTab(const std::vector<L> &A, const std::vector<L> &B) {
  for (size_t I = 0; I < A.size(); ++I)
    if (!same(A[I], B[I])) return false;
  return true;
}

template <typename L, int N> void algebra(Ctx &C, Rng &R) {
  auto Vs = allValues<L>();
  std::vector<Ent<L>> Pool;
  auto Add = [&](EdgeFunction<L> E, std::vector<L> T, std::string How) { Pool.push_back({std::move(E), std::move(T), std::move(How)}); };
  { // the leaves, with independently computed tables
    Add(EdgeIdentity<L>{}, Vs, "id");
    L Bot = std::is_same_v<L, BV> ? Vs[16] : Vs[1];
    Add(psr::AllBottom<L>{}, std::vector<L>(Vs.size(), Bot), "allbot");
    Add(psr::AllTop<L>{}, std::vector<L>(Vs.size(), Vs[0]), "alltop");
    for (int I = 0; I < 3; ++I) {
      L K = Vs[2 + R(std::is_same_v<L, BV> ? 14 : Vs.size() - 2)];
      psr::ConstantEdgeFunction<L> CE;
      CE.Value = psr::NonTopBotValue<L>::unwrap(K);
      Add(std::move(CE), std::vector<L>(Vs.size(), K), "const " + str(K));
    }
    for (int I = 0; I < 4; ++I) {
      Pt P{(unsigned)R(16), (unsigned)R(std::is_same_v<L, BV> ? 16 : 9)};
      if (std::is_same_v<L, BV> && P.A == 15) P.A = 7; // user functions are not constant
      std::vector<L> T;
      for (auto &V : Vs) T.push_back(applyPt(P, V));
      if (R.chance(1, 2)) Add(UF<L, N, true>(P), T, "heap");
      else Add(UF<L, N, false>(P), T, "small");
    }
  }
  for (auto &E : Pool)
    if (!sameTab(table(E.EF, Vs), E.Tab))
      C.violation("leaf-value", E.How + " computes " + tabStr(table(E.EF, Vs)) + " expected " + tabStr(E.Tab));

  auto IsAB = [](const EdgeFunction<L> &E) { return llvm::isa<psr::AllBottom<L>>(E); };
  auto IsAT = [](const EdgeFunction<L> &E) { return llvm::isa<psr::AllTop<L>>(E); };
  unsigned Ops = 30 + R(40);
  for (unsigned O = 0; O < Ops; ++O) {
    size_t IA = R(Pool.size()), IB = R(Pool.size());
    if (R.chance(1, 8)) IB = IA;
    bool Comp = R.chance(1, 2);
    EdgeFunction<L> Res;
    { // keep only the result alive
      EdgeFunction<L> A = Pool[IA].EF, B = Pool[IB].EF;
      Res = Comp ? (R.chance(1, 2) ? A.composeWith(B) : EdgeFunction<L>::compose(A, B))
                 : (R.chance(1, 2) ? A.joinWith(B) : EdgeFunction<L>::join(A, B));
    }
    C.count(Comp ? "compositions" : "joins");
    auto &FA = Pool[IA];
    auto &FB = Pool[IB];
    std::string How = "(" + FA.How + (Comp ? " ; " : " | ") + FB.How + ")";
    if (How.size() > 200) How = How.substr(0, 200) + "..";
    if (!Res) { C.violation("null-result", How); continue; }
    auto T = table(Res, Vs);
    bool Exact = true, Sound = true;
    std::vector<L> Exp;
    for (size_t I = 0; I < Vs.size(); ++I) {
      L W = Comp ? FB.EF.computeTarget(FA.Tab[I]) : rjoin(FA.Tab[I], FB.Tab[I]);
      Exp.push_back(W);
      if (!leq(W, T[I])) Sound = false;
      if (!same(W, T[I])) Exact = false;
    }
    if (!Sound)
      C.violation(Comp ? "compose-unsound" : "join-unsound", How + " = " + str(Res) + " gives " + tabStr(T) + " expected at least " + tabStr(Exp));
    else if (!Exact && !IsAB(Res) && !(Comp && IsAT(FA.EF)))
      C.violation(Comp ? "compose-imprecise" : "join-imprecise", How + " = " + str(Res) + " gives " + tabStr(T) + " expected " + tabStr(Exp));
    // The library documents where it gives up: joins with identity or beyond the bound N, and
    // compositions of AllBottom with a non-constant function.
    if (!Exact && IsAB(Res)) {
      bool Allowed = Comp ? IsAB(FA.EF) || FA.How.size() > 30 || FB.How.size() > 30 : !(FA.EF.isConstant() && FB.EF.isConstant());
      if (!Allowed) C.violation("gave-up", How + " is AllBottom, expected " + tabStr(Exp));
      C.count("gave_up");
    } else
      C.count("exact_results");
    // neutral and absorbing elements, idempotence
    if (Comp && llvm::isa<EdgeIdentity<L>>(FB.EF) && Res != FA.EF) C.violation("compose-id-right", How);
    if (Comp && llvm::isa<EdgeIdentity<L>>(FA.EF) && Res != FB.EF) C.violation("compose-id-left", How);
    if (Comp && FB.EF.isConstant() && !sameTab(T, FB.Tab)) C.violation("compose-constant", How);
    if (!Comp && IsAT(FA.EF) && Res != FB.EF) C.violation("join-top", How);
    if (!Comp && IsAT(FB.EF) && Res != FA.EF) C.violation("join-top", How);
    if (!Comp && (IsAB(FA.EF) || IsAB(FB.EF)) && !IsAB(Res)) C.violation("join-bottom", How);
    if (!Comp && FA.EF == FB.EF && Res != FA.EF) C.violation("join-idempotent", How + " = " + str(Res));
    if (Res.isConstant())
      for (auto &V : T)
        if (!same(V, T[0])) { C.violation("constant-not-constant", How + " = " + str(Res) + ": " + tabStr(T)); break; }
    if (Res.depth() < 1 || Res.depth() > 4000) C.violation("depth", How + " depth " + std::to_string(Res.depth()));
    if (to_string(Res).empty()) C.violation("print", How);
    if (Pool.size() < 26 && Res.depth() < 40) Add(Res, T, How);
    else if (Res.depth() < 40 && R.chance(1, 2)) { auto &X = Pool[10 + R(Pool.size() - 10)]; X = Ent<L>{Res, T, How}; }
  }
  // long chains that differ in one link
  for (unsigned K = 0; K < 12; ++K) {
    unsigned Len = 2 + R(8), At = R(Len), NB = std::min<size_t>(10, Pool.size());
    EdgeFunction<L> A, B;
    std::string How;
    for (unsigned I = 0; I < Len; ++I) {
      auto &X = Pool[R(8) ? 6 + R(NB - 6) : R(NB)], &Y = I == At ? Pool[6 + R(NB - 6)] : X;
      A = I ? A.composeWith(X.EF) : X.EF;
      B = I ? B.composeWith(Y.EF) : Y.EF;
      How += " ; " + X.How + (I == At ? "/" + Y.How : "");
    }
    auto TA = table(A, Vs), TB = table(B, Vs);
    if (A == B && !sameTab(TA, TB)) C.violation("equality-wrong-chain", How + ": " + tabStr(TA) + " / " + tabStr(TB));
    if ((A == B) != (B == A)) C.violation("equality-asymmetric", How);
    C.count(A == B ? "equal_chains" : "different_chains");
  }
  // equality is an equivalence that implies equal behaviour (and equal hashes where defined)
  std::string TS;
  for (auto &A : Pool) {
    for (auto &B : Pool) {
      bool Eq = A.EF == B.EF;
      if (Eq != (B.EF == A.EF) || Eq == (A.EF != B.EF)) C.violation("equality-asymmetric", A.How + " vs " + B.How);
      if (&A == &B && !Eq) C.violation("equality-irreflexive", A.How);
      if (Eq && !sameTab(A.Tab, B.Tab)) C.violation("equality-wrong", A.How + " == " + B.How + ": " + tabStr(A.Tab) + " / " + tabStr(B.Tab));
      if (Eq && &A != &B) C.count("equal_pairs");
      bool Hashable = llvm::isa<UF<L, N, true>>(A.EF) || llvm::isa<UF<L, N, false>>(A.EF) || !A.EF.isRefCounted();
      if (Eq && Hashable && A.EF.getHashCode() != B.EF.getHashCode()) C.violation("hash-mismatch", A.How + " vs " + B.How);
      if (Eq && ((A.EF < B.EF) || (B.EF < A.EF))) C.violation("order-equal", A.How);
      if (!Eq && (A.EF < B.EF) == (B.EF < A.EF)) C.violation("order-total", A.How + " vs " + B.How);
    }
    TS += tabStr(A.Tab);
  }
  // ascending chains of joins stabilise (the solver relies on it)
  {
    EdgeFunction<L> J = psr::AllTop<L>{};
    unsigned Changes = 0, Last = 0;
    std::vector<L> JT = table(J, Vs);
    for (unsigned I = 0; I < 300; ++I) {
      auto Nx = J.joinWith(R.pick(Pool).EF);
      auto NT = table(Nx, Vs);
      for (size_t K = 0; K < Vs.size(); ++K)
        if (!leq(JT[K], NT[K])) { C.violation("join-descends", str(J) + " -> " + str(Nx)); break; }
      if (Nx != J) { ++Changes; Last = I; }
      J = std::move(Nx);
      JT = NT;
    }
    if (Last > 250) C.violation("join-chain", "still changing after " + std::to_string(Last) + " joins (" + std::to_string(Changes) + " changes)");
    C.count("chain_changes", Changes);
  }
  C.nontrivial(hstr(TS));
  C.sample(Pool.back().How + " = " + to_string(Pool.back().EF));
}

// AllTop/AllBottom that carry their value (no lattice traits)
static void noTraits(Ctx &C, Rng &R) {
  using E = EdgeFunction<NL>;
  std::vector<std::pair<E, int>> P;
  for (int I = 0; I < 3; ++I) {
    int V = (int)R(4);
    P.push_back({psr::AllBottom<NL>{NL{V}}, V});
    P.push_back({psr::AllTop<NL>{NL{V}}, V + 100});
  }
  for (auto &[A, VA] : P)
    for (auto &[B, VB] : P) {
      if ((A == B) != (VA == VB)) C.violation("carried-value-equality", str(A) + " " + std::to_string(VA) + " " + std::to_string(VB));
      if (A.computeTarget(NL{7}).V != VA % 100) C.violation("carried-value", std::to_string(VA));
      auto Cm = A.composeWith(B);
      if (Cm.computeTarget(NL{9}).V != VB % 100) C.violation("carried-compose", std::to_string(VA) + " " + std::to_string(VB));
      auto Id = A.composeWith(EdgeIdentity<NL>{});
      if (Id != A) C.violation("carried-compose-id", std::to_string(VA));
      auto J = A.joinWith(B);
      int Exp = VA < 100 ? VA : VB;
      if (J.computeTarget(NL{1}).V != Exp % 100) C.violation("carried-join", std::to_string(VA) + " " + std::to_string(VB));
      C.count("carried_pairs");
    }
}

// ------------------------------------------------------------------ storage
static void storage(Ctx &C, Rng &R) {
  using E = EdgeFunction<BV>;
  psr::DefaultEdgeFunctionSingletonCache<HeapKG> Cache;
  long Base = LiveHeapEFs.load();
  struct Sh { int Kind = 0; KGv F; uint64_t Obj = 0; bool operator==(const Sh &O) const { return Kind == O.Kind && F == O.F && Obj == O.Obj; } };
  // Kind 0 null, 1 identity, 2 small, 3 heap, 4 cached
  std::string Trace;
  uint64_t NextObj = 1;
  {
    std::vector<E> S(3 + R(8));
    std::vector<Sh> H(S.size());
    unsigned Ops = 100 + R(200);
    auto rk = [&] { auto K = KGv::mk(R(16), R(16)); if (K.isId()) K = KGv{1, 0}; return K; };
    for (unsigned O = 0; O < Ops; ++O) {
      size_t I = R(S.size()), J = R(S.size());
      unsigned Op = R(16);
      Trace += (char)('a' + Op);
      switch (Op) {
      case 0: S[I] = nullptr; H[I] = {}; break;
      case 1: S[I] = EdgeIdentity<BV>{}; H[I] = {1, {}, 0}; break;
      case 2: { auto K = rk(); S[I] = SmallKG{K}; H[I] = {2, K, 0}; break; }
      case 3: { auto K = rk(); S[I] = HeapKG(K); H[I] = {3, K, NextObj++}; break; }
      case 4: case 5: {
        auto K = KGv::mk(R(3), R(2)); if (K.isId()) K = KGv{1, 0};
        uint64_t Obj = 0;
        for (auto &X : H) if (X.Kind == 4 && X.F == K) Obj = X.Obj;
        HeapKG Probe(K);
        if ((Cache.lookup(Probe) != nullptr) != (Obj != 0))
          C.violation("cache-lookup", "cached function " + std::to_string(K.K) + "/" + std::to_string(K.G) + " lookup disagrees with liveness; trace " + Trace);
        if (!Obj) Obj = NextObj++;
        S[I] = Cache.createEdgeFunction(K); H[I] = {4, K, Obj}; break;
      }
      case 6: S[I] = S[J]; H[I] = H[J]; break;
      case 7: if (I != J) { S[I] = std::move(S[J]); H[I] = H[J]; H[J] = {}; } break;
      case 8: { using std::swap; swap(S[I], S[J]); swap(H[I], H[J]); break; }
      case 9: { E T(S[I]); E U(std::move(T)); S[J] = U; H[J] = H[I]; if (T) C.violation("moved-from", "not null"); break; }
      case 10: if (S.size() < 14) { S.push_back(S[I]); H.push_back(H[I]); } break;
      case 11: if (S.size() > 3) { S.erase(S.begin() + I); H.erase(H.begin() + I); } break;
      case 12: { // hash containers
        llvm::DenseSet<E> DS;
        llvm::DenseMap<E, int> DM;
        std::set<E> OS;
        for (size_t K = 0; K < S.size(); ++K) { DS.insert(S[K]); DM[S[K]] = H[K].F.K * 16 + H[K].F.G + H[K].Kind * 1000; OS.insert(S[K]); }
        auto Val = [&](const Sh &X) { return X.Kind * 1000 + X.F.K * 16 + X.F.G; };
        std::set<int> Exp;
        for (auto &X : H) Exp.insert(X.Kind == 4 ? 3000 + X.F.K * 16 + X.F.G : Val(X));
        if (DS.size() != Exp.size()) C.violation("dense-set", std::to_string(DS.size()) + " distinct functions, expected " + std::to_string(Exp.size()));
        for (size_t K = 0; K < S.size(); ++K) if (!DM.count(S[K])) C.violation("dense-map", "lost key");
        for (int K = 0; K < 5; ++K) DS.erase(R.pick(S));
        C.count("hash_containers");
        break;
      }
      case 13: // through EdgeFunctionRef: composing with identity returns the very same object
        if (S[I]) { S[J] = S[I].composeWith(EdgeIdentity<BV>{}); H[J] = H[I]; } break;
      case 14: if (S[I]) { S[J] = S[I].joinWith(psr::AllTop<BV>{}); H[J] = H[I]; } break;
      case 15: { E &A = S[I]; A = *&A; break; } // self assignment
      }
      // observe every slot
      std::map<uint64_t, const void *> Addr;
      long HeapObjs = 0;
      for (size_t K = 0; K < S.size(); ++K) {
        auto &X = H[K];
        auto &F = S[K];
        std::string At = " slot " + std::to_string(K) + " after " + Trace;
        if ((bool)F != (X.Kind != 0) || (F == nullptr) != (X.Kind == 0) || F.isValid() != (X.Kind != 0)) { C.violation("null-state", At); return; }
        if (F.isRefCounted() != (X.Kind >= 3)) C.violation("refcounted-flag", At);
        if (F.isCached() != (X.Kind == 4)) C.violation("cached-flag", At);
        if (X.Kind == 0) { if (F.getHashCode() != 0 && false) {} continue; }
        if (llvm::isa<EdgeIdentity<BV>>(F) != (X.Kind == 1)) C.violation("isa-identity", At);
        if (llvm::isa<SmallKG>(F) != (X.Kind == 2)) C.violation("isa-small", At);
        if (llvm::isa<HeapKG>(F) != (X.Kind >= 3)) C.violation("isa-heap", At);
        for (uint8_t V : {0x80, 0, 5, 10, 15})
          if (!same(F.computeTarget(BV{V}), X.Kind == 1 ? BV{V} : X.F(BV{V}))) { C.violation("stored-value", At); break; }
        if (X.Kind >= 3) {
          const auto *P = llvm::cast<HeapKG>(F);
          if (P->Payload != "payload-" + std::to_string(X.F.K * 16 + X.F.G)) C.violation("stored-payload", At);
          auto [It, New] = Addr.try_emplace(X.Obj, F.getOpaqueValue());
          if (New) ++HeapObjs;
          else if (It->second != F.getOpaqueValue()) C.violation("object-duplicated", At);
          auto *Ca = F.getCacheOrNull<HeapKG>();
          if ((X.Kind == 4) != (Ca == &Cache)) C.violation("cache-owner", At);
        }
      }
      std::set<const void *> As;
      for (auto &[K, V] : Addr) As.insert(V);
      if (As.size() != Addr.size()) C.violation("objects-merged", Trace);
      if (LiveHeapEFs.load() - Base != HeapObjs) {
        C.violation("ref-count", std::to_string(LiveHeapEFs.load() - Base) + " heap objects alive, expected " + std::to_string(HeapObjs) + " after " + Trace);
        return;
      }
      C.count("storage_steps");
    }
    C.nontrivial(hstr(Trace));
  }
  if (LiveHeapEFs.load() != Base) C.violation("leak", std::to_string(LiveHeapEFs.load() - Base) + " objects left after " + Trace);
  for (unsigned K = 0; K < 16; ++K)
    for (unsigned G = 0; G < 16; ++G) {
      HeapKG P(KGv::mk(K, G));
      if (Cache.lookup(P)) C.violation("cache-stale", "entry left after all references died");
    }
}

// reference counts are shared between threads
static void threads(Ctx &C, Rng &R) {
  using E = EdgeFunction<BV>;
  long Base = LiveHeapEFs.load();
  {
    std::vector<E> Shared;
    for (int I = 0; I < 4; ++I) Shared.push_back(HeapKG(KGv::mk(1 + R(15), R(16))));
    std::atomic<int> Bad{0}, Go{0};
    std::vector<std::thread> Ts;
    uint64_t Seed = R.next();
    for (int T = 0; T < 4; ++T)
      Ts.emplace_back([&, T] {
        Rng Q(mixn(Seed, T));
        ++Go;
        while (Go < 4) {}
        std::vector<E> Mine(6);
        for (int I = 0; I < 6000; ++I) {
          auto &D = Mine[Q(6)];
          if (Q.chance(3, 4)) D = Shared[Q(4)];
          else D = nullptr;
          if (D && llvm::cast<HeapKG>(D)->Payload.substr(0, 8) != "payload-") ++Bad;
        }
      });
    for (auto &T : Ts) T.join();
    if (Bad) C.violation("thread-payload", "object damaged");
    if (LiveHeapEFs.load() - Base != 4) C.violation("thread-ref-count", std::to_string(LiveHeapEFs.load() - Base) + " alive, expected 4");
  }
  if (LiveHeapEFs.load() != Base) C.violation("thread-leak", std::to_string(LiveHeapEFs.load() - Base));
  C.count("threaded_copies", 24000);
}

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  switch (C.Case % 4) {
  case 0: R.chance(1, 2) ? algebra<BV, 0>(C, R) : algebra<BV, 2>(C, R); break;
  case 1: R.chance(1, 2) ? algebra<LD, 0>(C, R) : algebra<LD, 3>(C, R); break;
  case 2: storage(C, R); break;
  case 3: noTraits(C, R); if (C.Case % 64 == 3) threads(C, R); else storage(C, R); break;
  }
}
