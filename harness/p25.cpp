// P25: the Hexastore against a set of triples.
#include "common.h"
#include "phasar/DB/Hexastore.h"
#include "phasar/Utils/Logger.h"
#include <array>
#include <filesystem>
#include <unistd.h>
using namespace vf;
void vfInit(Ctx &) { psr::Logger::disable(); }
using T3 = std::array<std::string, 3>;

void vfRunCase(Ctx &C) {
  ++C.Evaluations;
  auto R = C.rng();
  bool Odd = C.Case % 2; // names as they are in programs vs. any string
  static const char *Plain[] = {"n1", "n2", "n3", "main", "_Z3fooi", "@g", "%5", "a.b", "edge", "x", "y", "z"};
  static const char *Any[] = {"name", "id", "sid", "pid", "oid", "rowid", "spo_subject", "a b", "\"", "a\"b", "'", "it's", "''", "", "%1%", "%", "%3", "\n", "a\nb", ";", "--", "-- x", "\xc3\xa4", "call i32 @f(i8* \"x\")", "NULL", "null", "*", "_", "\\", "main", "N1", "n1", "1", "1.0", "01"};
  std::vector<std::string> Names;
  for (unsigned N = 2 + R(6); N--;) Names.push_back(Odd ? Any[R(sizeof Any / sizeof *Any)] : Plain[R(12)]);
  auto name = [&] { return R.pick(Names); };
  std::string File = R.chance(1, 12) ? C.OutDir + "/p25-" + std::to_string(getpid()) + ".db" : ":memory:";
  struct Cleanup { std::string F; ~Cleanup() { if (F[0] != ':') { std::error_code E; std::filesystem::remove(F, E); std::filesystem::remove(F + "-journal", E); } } } Cl{File};
  if (File[0] != ':') std::filesystem::remove(File);
  auto HS = std::make_unique<psr::Hexastore>(File);
  std::set<T3> Model;
  std::string Log;
  uint64_t H = 0;
  auto show = [](const std::string &S) { std::string O; for (char X : S) O += X == '\n' ? std::string("\\n") : std::string(1, X); return O; };
  auto sh3 = [&](const T3 &T) { return "(" + show(T[0]) + " | " + show(T[1]) + " | " + show(T[2]) + ")"; };
  auto query = [&](const T3 &Q) {
    std::set<T3> Want, Got;
    for (auto &T : Model) if ((Q[0] == "?" || Q[0] == T[0]) && (Q[1] == "?" || Q[1] == T[1]) && (Q[2] == "?" || Q[2] == T[2])) Want.insert(T);
    auto Res = HS->get(Q, R(8));
    for (auto &X : Res) Got.insert({X.Subject, X.Predicate, X.Object});
    std::string K;
    for (int I = 0; I < 3; ++I) K += Q[I] == "?" ? '?' : "spo"[I];
    Log += "get " + sh3(Q) + "\n";
    C.Artifact = Log;
    C.count("queries");
    C.count("queries_" + K);
    C.count("rows", Want.size());
    H = mixn(H, Want.size());
    std::string P = Odd ? "any:" : "plain:";
    for (auto &T : Want) if (!Got.count(T)) { C.violation(P + K + ":missing", sh3(Q) + " does not find " + sh3(T)); break; }
    for (auto &T : Got) if (!Want.count(T)) { C.violation(P + K + ":extra", sh3(Q) + " finds " + sh3(T)); break; }
    if (Res.size() != Got.size()) C.violation(P + K + ":duplicates", sh3(Q) + ": " + std::to_string(Res.size()) + " rows for " + std::to_string(Got.size()) + " entries");
  };
  C.note();
  for (unsigned Op = 0, N = 6 + R(30); Op < N; ++Op) {
    switch (R(8)) {
    case 0: case 1: case 2: case 3: {
      T3 T{name(), name(), name()};
      Log += "put " + sh3(T) + "\n";
      C.count(Model.count(T) ? "duplicate_puts" : "puts");
      HS->put(T);
      Model.insert(T);
      break;
    }
    case 4: if (File[0] != ':') { // what is stored, stays
        HS.reset();
        HS = std::make_unique<psr::Hexastore>(File);
        Log += "reopen\n";
        C.count("reopened");
      } break;
    default: {
      T3 Q{name(), name(), name()};
      if (!Model.empty() && R.chance(1, 2)) { auto It = Model.begin(); std::advance(It, R(Model.size())); Q = *It; }
      for (auto &X : Q) if (R.chance(1, 2)) X = "?";
      query(Q);
    }
    }
  }
  for (int M = 0; M < 8; ++M) {
    T3 Q{name(), name(), name()};
    if (!Model.empty() && R.chance(3, 4)) { auto It = Model.begin(); std::advance(It, R(Model.size())); Q = *It; }
    for (int I = 0; I < 3; ++I) if (M & (1 << I)) Q[I] = "?";
    query(Q);
  }
  C.nontrivial(H);
  C.sample(Log);
}
