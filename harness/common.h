// Shared harness runtime: deterministic RNG, case loop, verdict and evidence records.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/Support/raw_ostream.h"
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t Z) {
  Z += 0x9e3779b97f4a7c15ULL;
  Z = (Z ^ (Z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  Z = (Z ^ (Z >> 27)) * 0x94d049bb133111ebULL;
  return Z ^ (Z >> 31);
}
inline uint64_t mix2(uint64_t A, uint64_t B) { return mix(mix(A) ^ (B * 0x9e3779b97f4a7c15ULL + 0x1234567)); }
template <typename... T> uint64_t mixn(uint64_t A, T... B) {
  ((A = mix2(A, (uint64_t)B)), ...);
  return A;
}
inline uint64_t hstr(const std::string &S) {
  uint64_t H = 1469598103934665603ULL;
  for (unsigned char C : S) { H ^= C; H *= 1099511628211ULL; }
  return mix(H);
}

struct Rng {
  uint64_t S;
  explicit Rng(uint64_t Seed = 1) : S(mix(Seed)) {}
  uint64_t next() { S += 0x9e3779b97f4a7c15ULL; return mix(S); }
  uint64_t operator()(uint64_t N) { return N ? next() % N : 0; } // [0,N)
  int range(int A, int B) { return A + (int)(*this)((uint64_t)(B - A + 1)); }
  bool chance(unsigned Num, unsigned Den) { return (*this)(Den) < Num; }
  template <typename V> auto &pick(V &C) { return C[(*this)(C.size())]; }
};

struct Ctx {
  uint64_t Seed = 1;
  uint64_t Case = 0;
  bool Thorough = false;
  bool Verbose = false;
  std::string OutDir;
  std::map<std::string, uint64_t> Counters;
  std::set<uint64_t> Distinct;
  std::vector<std::string> Samples;
  uint64_t Evaluations = 0;
  unsigned NumViol = 0, CaseViol = 0;
  std::map<std::string, unsigned> KeyViol;
  FILE *Out = nullptr;
  std::string Artifact; // e.g. IR of the current case

  Rng rng(uint64_t Salt = 0) const { return Rng(mixn(Seed, Case, Salt)); }
  void count(const std::string &K, uint64_t N = 1) { Counters[K] += N; }
  void nontrivial(uint64_t H) { Distinct.insert(H); }
  void sample(const std::string &S) {
    if (Samples.size() < 3) Samples.push_back(S.substr(0, 1500));
  }
  // Record the current artifact before running something that may crash or hang.
  void note() {
    fprintf(Out, "{\"t\":\"note\",\"case\":%" PRIu64 ",\"x\":\"%s\"}\n", Case, esc(Artifact.substr(0, 60000)).c_str());
    fflush(Out);
  }
  static std::string esc(const std::string &S) {
    std::string R;
    for (unsigned char C : S) {
      if (C == '"' || C == '\\') { R += '\\'; R += (char)C; }
      else if (C == '\n') R += "\\n";
      else if (C < 0x20 || C >= 0x7f) { char B[8]; snprintf(B, 8, "\\u%04x", C); R += B; }
      else R += (char)C;
    }
    return R;
  }
  // Key: stable classification of the violation; Detail: what was observed.
  void violation(const std::string &Key, const std::string &Detail) {
    ++NumViol;
    ++CaseViol;
    if (++KeyViol[Key] > 3) return; // per case and key
    fprintf(Out, "{\"t\":\"viol\",\"case\":%" PRIu64 ",\"key\":\"%s\",\"detail\":\"%s\",\"artifact\":\"%s\"}\n",
            Case, esc(Key).c_str(), esc(Detail.substr(0, 3000)).c_str(),
            CaseViol == 1 ? esc(Artifact.substr(0, 60000)).c_str() : "");
    fflush(Out);
    if (Verbose) fprintf(stderr, "VIOL case %" PRIu64 " %s: %s\n", Case, Key.c_str(), Detail.c_str());
  }
};

inline std::string modStr(const llvm::Module &M) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  M.print(OS, nullptr);
  return OS.str();
}
template <typename T> std::string str(const T &V) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  OS << V;
  return OS.str();
}
inline std::string instStr(const llvm::Value *V) {
  if (!V) return "<null>";
  std::string S;
  llvm::raw_string_ostream OS(S);
  V->print(OS);
  OS.flush();
  size_t P = S.find_first_not_of(" \n\t");
  return P == std::string::npos ? S : S.substr(P);
}

} // namespace vf

// Every harness defines this.
void vfRunCase(vf::Ctx &C);
void vfInit(vf::Ctx &C);

#ifndef VF_NO_MAIN
int main(int argc, char **argv) {
  vf::Ctx C;
  uint64_t From = 0, To = 1;
  std::string OutF = "/dev/stdout";
  for (int I = 1; I < argc; ++I) {
    std::string A = argv[I];
    auto Nx = [&] { return std::string(argv[++I]); };
    if (A == "--seed") C.Seed = strtoull(Nx().c_str(), 0, 10);
    else if (A == "--from") From = strtoull(Nx().c_str(), 0, 10);
    else if (A == "--to") To = strtoull(Nx().c_str(), 0, 10);
    else if (A == "--out") OutF = Nx();
    else if (A == "--dir") C.OutDir = Nx();
    else if (A == "--thorough") C.Thorough = true;
    else if (A == "-v") C.Verbose = true;
  }
  C.Out = fopen(OutF.c_str(), "a");
  if (!C.Out) return 3;
  vfInit(C);
  for (uint64_t I = From; I < To; ++I) {
    C.Case = I;
    C.CaseViol = 0;
    C.KeyViol.clear();
    C.Artifact.clear();
    fprintf(C.Out, "{\"t\":\"start\",\"case\":%" PRIu64 "}\n", I);
    fflush(C.Out);
    vfRunCase(C);
  }
  std::string S = "{\"t\":\"end\",\"evaluations\":" + std::to_string(C.Evaluations) + ",\"counters\":{";
  bool First = true;
  for (auto &[K, V] : C.Counters) {
    S += (First ? "\"" : ",\"") + vf::Ctx::esc(K) + "\":" + std::to_string(V);
    First = false;
  }
  S += "},\"distinct\":[";
  First = true;
  for (auto H : C.Distinct) {
    S += (First ? "" : ",") + std::string("\"") + std::to_string(H) + "\"";
    First = false;
  }
  S += "],\"samples\":[";
  First = true;
  for (auto &P : C.Samples) {
    S += (First ? "\"" : ",\"") + vf::Ctx::esc(P) + "\"";
    First = false;
  }
  S += "]}\n";
  fputs(S.c_str(), C.Out);
  fclose(C.Out);
  fflush(nullptr);
  _Exit(0);
}
#endif
