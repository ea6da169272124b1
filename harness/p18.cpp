// P18: BitVectorSet against std::set over random histories of several sets sharing the global element table.
#include "common.h"
#include "phasar/Utils/BitVectorSet.h"
#include "phasar/Utils/Utilities.h"

#include "llvm/ADT/StringRef.h"

using namespace vf;

template <typename T> static T mkElem(unsigned I);
template <> int mkElem<int>(unsigned I) { return (int)(I * 7919u) - 5000; }
template <> std::string mkElem<std::string>(unsigned I) { return "element-number-" + std::to_string(I * 31); }
static char Pool[4096];
template <> const char *mkElem<const char *>(unsigned I) { return &Pool[I]; }

template <typename T> struct Hist {
  using BS = psr::BitVectorSet<T>;
  using SS = std::set<T>;
  Ctx &C;
  Rng &R;
  std::vector<BS> B;
  std::vector<SS> S;
  unsigned U; // universe size of this history
  unsigned Base;
  uint64_t H = 7;
  std::string Trace;

  Hist(Ctx &C, Rng &R, unsigned Base) : C(C), R(R), Base(Base) {
    static const unsigned Us[] = {3, 10, 40, 63, 64, 65, 70, 130, 200};
    U = Us[R(std::size(Us))];
    unsigned N = 2 + R(5);
    B.resize(N);
    S.resize(N);
  }
  T elem() { return mkElem<T>(Base + R(U)); }
  void fail(const char *What, size_t I, const std::string &D = "") {
    C.violation(What, "set " + std::to_string(I) + " " + D + " after: " + (Trace.size() > 2500 ? Trace.substr(Trace.size() - 2500) : Trace));
  }
  void check(size_t I) {
    const BS &X = B[I];
    BS &XM = B[I];
    const SS &Y = S[I];
    if (X.size() != Y.size()) fail("size", I, std::to_string(X.size()) + " vs " + std::to_string(Y.size()));
    if (X.empty() != Y.empty()) fail("empty", I);
    for (unsigned E = 0; E < U + 2; ++E) {
      auto V = mkElem<T>(Base + E);
      if ((X.count(V) != 0) != (Y.count(V) != 0) || X.find(V) != (Y.count(V) != 0)) { fail("membership", I); break; }
    }
    C.count("memberships", U + 2);
    auto collect = [&](auto &&Beg, auto &&End, const char *W) {
      SS Got;
      size_t N = 0;
      for (auto It = Beg; It != End; ++It) {
        Got.insert(*It);
        if (++N > Y.size() + 3) break;
      }
      if (N != Y.size() || Got != Y) fail(W, I, "iterated " + std::to_string(N) + " of " + std::to_string(Y.size()));
      C.count("iterated_elements", N);
    };
    collect(X.begin(), X.end(), "const-iteration");
    collect(XM.begin(), XM.end(), "iteration");
    { // post-increment and positional access agree with iteration order
      std::vector<T> Ord;
      auto It = X.begin();
      for (size_t K = 0; K < Y.size() && It != X.end(); ++K) Ord.push_back(*It++);
      if (Ord.size() == Y.size()) {
        if (It != X.end()) fail("post-increment", I);
        if (!Y.empty()) {
          size_t K = R(Y.size());
          auto J = X.begin();
          J += K;
          if (J == X.end() || !(*J == Ord[K])) fail("advance", I);
          auto Q = X.begin();
          if (K && !(*(Q + K) == Ord[K])) fail("iterator-plus", I);
          if (!(*Q == Ord[0])) fail("iterator-plus-modifies", I);
          auto BI = X.begin(), EI = X.end();
          if ((size_t)(EI - BI) != Y.size() || (size_t)(J - BI) != K) fail("iterator-distance", I);
        }
      } else fail("post-increment", I);
    }
    std::string P = str(X);
    // printed: every member once
    size_t Commas = 0;
    for (size_t Q = 0; (Q = P.find(", ", Q)) != std::string::npos; ++Q) ++Commas;
    if (P.size() < 2 || P.front() != '<' || P.back() != '>' || (Y.empty() ? P != "<>" : Commas != Y.size() - 1)) fail("printed", I, P);
  }
  void relations() {
    for (size_t I = 0; I < B.size(); ++I)
      for (size_t J = 0; J < B.size(); ++J) {
        bool E = S[I] == S[J];
        if ((B[I] == B[J]) != E || (B[I] != B[J]) == E) fail("equality", I, "vs " + std::to_string(J));
        if (E && (size_t)hash_value(B[I]) != (size_t)hash_value(B[J])) fail("hash", I, "vs " + std::to_string(J));
        if (E) C.count("equal_pairs");
        bool L = B[I] < B[J], G = B[J] < B[I];
        if (E ? (L || G) : (L == G)) fail("order-trichotomy", I, "vs " + std::to_string(J));
        bool Inc = std::includes(S[I].begin(), S[I].end(), S[J].begin(), S[J].end());
        if (B[I].includes(B[J]) != Inc) fail("includes", I, "vs " + std::to_string(J));
        for (size_t K = 0; K < B.size(); ++K)
          if (L && B[J] < B[K] && !(B[I] < B[K])) fail("order-transitivity", I);
      }
    C.count("pair_relations", B.size() * B.size());
  }
  static SS uni(const SS &A, const SS &B2) { SS X = A; X.insert(B2.begin(), B2.end()); return X; }
  static SS inter(const SS &A, const SS &B2) { SS X; for (auto &E : A) if (B2.count(E)) X.insert(E); return X; }
  void step() {
    size_t I = R(B.size()), J = R(B.size()), K = R(B.size());
    unsigned Op = R(21);
    Trace += " " + std::to_string(Op) + "(" + std::to_string(I) + "," + std::to_string(J) + ")";
    H = mixn(H, Op, I, J);
    switch (Op) {
    case 0: case 1: case 2: case 3: { auto E = elem(); B[I].insert(E); S[I].insert(E); break; }
    case 4: case 5: { auto E = elem(); if (!S[I].empty() && R.chance(3, 4)) E = *std::next(S[I].begin(), R(S[I].size())); B[I].erase(E); S[I].erase(E); break; }
    case 6: B[I].insert(B[J]); S[I] = uni(S[I], S[J]); break;
    case 7: if (I == J) { B[I].erase(B[I]); S[I].clear(); } else { B[I].erase(B[J]); for (auto &E : S[J]) S[I].erase(E); } break;
    case 8: { auto X = B[I].setUnion(B[J]); auto Y = uni(S[I], S[J]); B[K] = std::move(X); S[K] = Y; break; }
    case 9: { auto X = B[I].setIntersect(B[J]); auto Y = inter(S[I], S[J]); B[K] = std::move(X); S[K] = Y; break; }
    case 10: B[I].setUnionWith(B[J]); S[I] = uni(S[I], S[J]); break;
    case 11: B[I].setIntersectWith(B[J]); S[I] = inter(S[I], S[J]); break;
    case 12: if (R.chance(1, 2)) { B[I].clear(); S[I].clear(); } break;
    case 13: B[I] = B[J]; S[I] = S[J]; break;
    case 14: { std::vector<T> V; for (unsigned N = R(9); N--;) V.push_back(elem()); B[I] = BS(V.begin(), V.end()); S[I] = SS(V.begin(), V.end()); break; }
    case 15: { std::vector<T> V; for (unsigned N = R(9); N--;) V.push_back(elem()); B[I].insert(V.begin(), V.end()); S[I].insert(V.begin(), V.end()); break; }
    case 16: B[I] = BS(size_t(R(140))); S[I].clear(); break;
    case 17: B[I].reserve(R(300)); break;
    case 18: { auto A = elem(), D = elem(); B[I] = BS{A, D}; S[I] = SS{A, D}; break; }
    case 19: psr::intersectWith(B[I], B[J]); S[I] = inter(S[I], S[J]); break;
    case 20: { // iterate over one set while another one (or a temporary) learns new elements
      size_t N = 0;
      SS Got;
      auto grow = [&] { if (J == I) { BS Tmp; Tmp.insert(mkElem<T>(Base + U + R(3))); } else { auto E = mkElem<T>(Base + R(U + 20)); B[J].insert(E); S[J].insert(E); } };
      if (R.chance(1, 2)) {
        const BS &X = B[I];
        for (const auto &E : X) { Got.insert(E); grow(); if (++N > S[I].size() + 3) break; }
      } else {
        for (const auto &E : B[I]) { Got.insert(E); grow(); if (++N > S[I].size() + 3) break; }
      }
      if (N != S[I].size() || Got != S[I]) fail("iteration-while-others-grow", I, "saw " + std::to_string(N) + " of " + std::to_string(S[I].size()));
      C.count("iterations_while_growing");
      break;
    }
    }
    check(I);
    check(K);
  }
  void run() {
    for (unsigned N = 20 + R(60); N--;) {
      step();
      if (R.chance(1, 4)) relations();
      C.count("operations");
      if (C.CaseViol > 6) return;
    }
    relations();
    for (size_t I = 0; I < B.size(); ++I) check(I);
    size_t Sz = 0;
    for (auto &X : S) Sz += X.size();
    if (Sz > 5) C.nontrivial(H);
    C.sample(Trace);
  }
};

void vfInit(Ctx &) {}
void vfRunCase(Ctx &C) {
  auto R = C.rng();
  unsigned BaseI = 0, BaseS = 0, BaseP = 0;
  for (int K = 0; K < 12 && C.CaseViol == 0; ++K) {
    ++C.Evaluations;
    unsigned W = R(3);
    // later histories meet a table that already holds elements, in any order
    if (W == 0) { Hist<int> X(C, R, BaseI); X.run(); BaseI += R.chance(1, 2) ? 30 : 0; }
    else if (W == 1) { Hist<std::string> X(C, R, BaseS); X.run(); BaseS += R.chance(1, 2) ? 30 : 0; }
    else { Hist<const char *> X(C, R, BaseP); X.run(); BaseP += R.chance(1, 2) ? 30 : 0; }
  }
}
