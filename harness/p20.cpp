// P20: graph minimisation and reversal against partition refinement.
#include "common.h"
#include "phasar/Utils/AdjacencyList.h"
#include "phasar/Utils/DFAMinimizer.h"
#include "phasar/Utils/GraphTraits.h"

using namespace vf;

// A weighted graph type of our own, built on the trait interface.
struct WEdge {
  unsigned To = 0;
  int W = 0;
  friend bool operator==(WEdge A, WEdge B) { return A.To == B.To && A.W == B.W; }
  friend bool operator!=(WEdge A, WEdge B) { return !(A == B); }
  friend bool operator<(WEdge A, WEdge B) { return std::pair(A.To, A.W) < std::pair(B.To, B.W); }
};
struct WGraph {
  std::vector<std::string> N;
  std::vector<std::vector<WEdge>> A;
  std::vector<unsigned> Rt;
};
namespace psr {
template <> struct GraphTraits<WGraph> {
  using graph_type = WGraph;
  using value_type = std::string;
  using vertex_t = unsigned;
  using edge_t = WEdge;
  static inline constexpr auto Invalid = std::numeric_limits<vertex_t>::max();
  template <typename TT> static vertex_t addNode(WGraph &G, TT &&V) { G.N.push_back(std::forward<TT>(V)); G.A.emplace_back(); return G.N.size() - 1; }
  static void addRoot(WGraph &G, unsigned V) { G.Rt.push_back(V); }
  static llvm::ArrayRef<unsigned> roots(const WGraph &G) { return G.Rt; }
  static void addEdge(WGraph &G, unsigned F, WEdge E) { G.A[F].push_back(E); }
  static llvm::ArrayRef<WEdge> outEdges(const WGraph &G, unsigned V) { return G.A[V]; }
  static size_t outDegree(const WGraph &G, unsigned V) { return G.A[V].size(); }
  static void dedupOutEdges(WGraph &G, unsigned V) { auto &X = G.A[V]; std::sort(X.begin(), X.end()); X.erase(std::unique(X.begin(), X.end()), X.end()); }
  static llvm::ArrayRef<std::string> nodes(const WGraph &G) { return G.N; }
  static llvm::MutableArrayRef<std::string> nodes(WGraph &G) { return G.N; }
  static auto vertices(const WGraph &G) { return psr::iota(0u, (unsigned)G.N.size()); }
  static const std::string &node(const WGraph &G, unsigned V) { return G.N[V]; }
  static std::string &node(WGraph &G, unsigned V) { return G.N[V]; }
  static size_t size(const WGraph &G) { return G.N.size(); }
  static size_t roots_size(const WGraph &G) { return G.Rt.size(); }
  static bool pop(WGraph &G, unsigned V) { if (V + 1 != G.N.size()) return false; G.N.pop_back(); G.A.pop_back(); return true; }
  static unsigned target(WEdge E) { return E.To; }
  static WEdge withEdgeTarget(WEdge E, unsigned T) { return {T, E.W}; }
  static int weight(WEdge E) { return E.W; }
};
} // namespace psr
template <typename G> static auto mkEdge(unsigned To, int W) {
  if constexpr (std::is_same_v<G, WGraph>) return WEdge{To, W};
  else return To;
}
static int weightOf(unsigned) { return 0; }
static int weightOf(WEdge E) { return E.W; }
static unsigned targetOf(unsigned E) { return E; }
static unsigned targetOf(WEdge E) { return E.To; }

template <typename G> struct Run {
  using T = psr::GraphTraits<G>;
  Ctx &C;
  Rng &R;
  // coarsest bisimulation of the disjoint union of graphs; returns classes
  static std::vector<std::vector<int>> refine(const std::vector<const G *> &Gs) {
    std::vector<std::vector<int>> Cl;
    for (auto *X : Gs) Cl.emplace_back(T::size(*X), 0);
    size_t Old = 0;
    while (true) {
      std::map<std::pair<std::string, std::pair<int, std::set<std::pair<int, int>>>>, int> Sig;
      auto N = Cl;
      for (size_t K = 0; K < Gs.size(); ++K)
        for (unsigned V = 0; V < T::size(*Gs[K]); ++V) {
          std::set<std::pair<int, int>> S;
          for (auto E : T::outEdges(*Gs[K], V)) S.insert({weightOf(E), Cl[K][targetOf(E)]});
          auto Key = std::pair(str(T::node(*Gs[K], V)), std::pair(Cl[K][V], S));
          N[K][V] = Sig.try_emplace(Key, (int)Sig.size()).first->second;
        }
      Cl = N;
      if (Sig.size() == Old) return Cl;
      Old = Sig.size();
    }
  }
  void run() {
    G Gr;
    unsigned N = 1 + R(12), NL = 1 + R(3), NW = 1 + R(2);
    bool Dag = R.chance(2, 3);
    for (unsigned I = 0; I < N; ++I) T::addNode(Gr, "L" + std::to_string(R(NL)));
    std::string Desc;
    for (unsigned V = 0; V < N; ++V)
      for (unsigned K = R(4); K--;) {
        if (Dag && V == 0) break;
        unsigned To = Dag ? R(V) : R(N);
        T::addEdge(Gr, V, mkEdge<G>(To, R(NW)));
      }
    if (R.chance(1, 2)) for (unsigned V = 0; V < N; ++V) T::dedupOutEdges(Gr, V);
    for (unsigned V = 0; V < N; ++V) if (R.chance(1, 4) || (V + 1 == N && T::roots_size(Gr) == 0)) T::addRoot(Gr, V);
    for (unsigned V = 0; V < N; ++V) {
      Desc += std::to_string(V) + ":" + T::node(Gr, V) + "->";
      for (auto E : T::outEdges(Gr, V)) Desc += std::to_string(targetOf(E)) + "/" + std::to_string(weightOf(E)) + ",";
      Desc += " ";
    }
    Desc += " roots";
    for (auto V : T::roots(Gr)) Desc += " " + std::to_string(V);
    C.Artifact = Desc;
    const G Orig = Gr;
    auto Eq = psr::minimizeGraph(Orig);
    auto Cl = refine({&Orig})[0];
    // 1. merged vertices are indistinguishable
    unsigned Merged = 0;
    for (unsigned A = 0; A < N; ++A)
      for (unsigned B = 0; B < A; ++B)
        if (Eq[A] == Eq[B]) {
          ++Merged;
          if (Cl[A] != Cl[B]) C.violation("merged-distinguishable", std::to_string(A) + " and " + std::to_string(B) + " in " + Desc);
        }
    C.count("merged_pairs", Merged);
    C.count("distinguishable_pairs", N * (N - 1) / 2 - Merged);
    // 2. on acyclic graphs, vertices that unfold to the same tree are merged
    if (Dag) {
      std::map<std::pair<std::string, std::vector<std::pair<int, int>>>, int> Sig;
      std::vector<int> St(N);
      for (unsigned V = 0; V < N; ++V) {
        std::vector<std::pair<int, int>> S;
        for (auto E : T::outEdges(Orig, V)) S.push_back({weightOf(E), St[targetOf(E)]});
        if (S.size() == 2 && S[1] < S[0]) std::swap(S[0], S[1]);
        St[V] = Sig.try_emplace({T::node(Orig, V), S}, (int)Sig.size()).first->second;
      }
      for (unsigned A = 0; A < N; ++A)
        for (unsigned B = 0; B < A; ++B)
          if (St[A] == St[B]) {
            C.count("identical_subtrees");
            if (Eq[A] != Eq[B]) C.violation("not-merged", std::to_string(A) + " and " + std::to_string(B) + " in " + Desc);
          }
    }
    // 3. the quotient graph accepts the same paths from its roots and has one vertex per reachable class
    G Src = Orig;
    G Q = psr::createEquivalentGraphFrom(std::move(Src), Eq);
    std::set<unsigned> Reach, RC;
    std::vector<unsigned> Wl(T::roots(Orig).begin(), T::roots(Orig).end());
    while (!Wl.empty()) {
      auto V = Wl.back();
      Wl.pop_back();
      if (!Reach.insert(V).second) continue;
      RC.insert(Eq[V]);
      for (auto E : T::outEdges(Orig, V)) Wl.push_back(targetOf(E));
    }
    if (T::size(Q) != RC.size()) C.violation("quotient-size", std::to_string(T::size(Q)) + " vertices for " + std::to_string(RC.size()) + " classes of " + Desc);
    auto Cl2 = refine({&Orig, &Q});
    std::set<int> R1, R2, A1, A2;
    std::set<unsigned> RootCl;
    for (auto V : T::roots(Orig)) { R1.insert(Cl2[0][V]); RootCl.insert(Eq[V]); }
    for (auto V : T::roots(Q)) R2.insert(Cl2[1][V]);
    for (auto V : Reach) A1.insert(Cl2[0][V]);
    for (unsigned V = 0; V < T::size(Q); ++V) A2.insert(Cl2[1][V]);
    if (R1 != R2) C.violation("quotient-roots", "roots accept different paths: " + Desc);
    if (A1 != A2) C.violation("quotient-vertices", Desc);
    if (T::roots_size(Q) != RootCl.size()) C.violation("quotient-root-count", std::to_string(T::roots_size(Q)) + " roots: " + Desc);
    for (unsigned V = 0; V < T::size(Q); ++V) {
      auto Es = T::outEdges(Q, V);
      for (size_t I = 0; I < Es.size(); ++I)
        for (size_t J = 0; J < I; ++J) if (Es[I] == Es[J]) C.violation("quotient-duplicate-edge", Desc);
    }
    // 4. reversal
    G Rv = psr::reverseGraph(Orig);
    std::multiset<std::tuple<unsigned, unsigned, int>> E1, E2;
    std::set<unsigned> Sinks, RR(T::roots(Rv).begin(), T::roots(Rv).end());
    bool Ok = T::size(Rv) == N;
    for (unsigned V = 0; V < N && Ok; ++V) {
      Ok &= T::node(Rv, V) == T::node(Orig, V);
      for (auto E : T::outEdges(Orig, V)) E1.insert({targetOf(E), V, weightOf(E)});
      for (auto E : T::outEdges(Rv, V)) E2.insert({V, targetOf(E), weightOf(E)});
      if (T::outDegree(Orig, V) == 0) Sinks.insert(V);
    }
    if (!Ok || E1 != E2 || Sinks != RR || T::roots_size(Rv) != Sinks.size()) C.violation("reverse", Desc);
    if (Merged) C.nontrivial(hstr(Desc));
    C.sample(Desc);
  }
};

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  auto R = C.rng();
  ++C.Evaluations;
  if (R.chance(1, 2)) Run<WGraph>{C, R}.run();
  else Run<psr::AdjacencyList<std::string, unsigned>>{C, R}.run();
}
