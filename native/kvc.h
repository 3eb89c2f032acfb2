// Shared helpers of the bounded contract runs: the contracts evaluated at run time on the real code.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
namespace kvc {
inline std::uint64_t g_seed = 1;
inline bool g_thorough = false;
inline std::uint64_t g_cases = 0;
inline int g_fails = 0;
inline std::string g_case;
struct Rng {
  std::uint64_t s;
  explicit Rng(std::uint64_t x = 0) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { s = next() * 0xD1342543DE82EF95ull; }
  std::uint64_t next() {
    std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
  std::int64_t in(std::int64_t a, std::int64_t b) { return a + (std::int64_t)below((std::uint64_t)(b - a) + 1); }
  bool coin() { return next() & 1; }
  // values of all magnitudes
  std::uint64_t skew() { int k = (int)below(65); std::uint64_t v = next(); return k == 0 ? 0 : v >> (64 - k); }
};
// integers appearing in the verifier's counterexample, tried as additional inputs
inline std::vector<std::uint64_t> model_values() {
  std::vector<std::uint64_t> r;
  const char *p = std::getenv("KVC_MODEL");
  if (!p) return r;
  std::ifstream in(p);
  std::string l;
  while (std::getline(in, l)) {
    auto k = l.find(" = ");
    if (k == std::string::npos) continue;
    r.push_back((std::uint64_t)std::strtoull(l.c_str() + k + 3, nullptr, 10));
    if (l[k + 3] == '-') r.back() = (std::uint64_t)std::strtoll(l.c_str() + k + 3, nullptr, 10);
  }
  return r;
}
inline void begin(const std::string &c) { g_case = c; ++g_cases; }
inline void fail(const std::string &msg) {
  if (g_fails++ < 20) { std::printf("FAIL %s: %s\n", g_case.c_str(), msg.c_str()); std::fflush(stdout); }
  if (g_fails > 20) { std::printf("CASES %llu\n", (unsigned long long)g_cases); std::fflush(stdout); std::_Exit(1); }
}
// names the running case so that a crash or hang can be attributed
inline void announce() { std::printf("CASE %s\n", g_case.c_str()); std::fflush(stdout); }
inline void init(int argc, char **argv) {
  if (argc > 1) g_seed = std::strtoull(argv[1], nullptr, 10);
  if (argc > 2) g_thorough = std::string(argv[2]) == "thorough";
}
inline int done() {
  std::printf("CASES %llu\n", (unsigned long long)g_cases);
  std::fflush(stdout);
  std::_Exit(g_fails ? 1 : 0);
}
template <typename... A> std::string str(A &&...a) { std::ostringstream s; ((s << a), ...); return s.str(); }
} // namespace kvc
#define KCHECK(c, ...) do { if (!(c)) kvc::fail(kvc::str(__VA_ARGS__)); } while (0)
