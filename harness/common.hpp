// Common machinery of the monitors: seeded cases, verdicts, counters.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ULL;
    uint64_t x = s;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // [lo, hi]
  int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (double)(next() >> 11) * 0x1.0p-53; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  template <typename C>
  auto& pick(C& c) { return c[below(c.size())]; }
  template <typename C>
  void shuffle(C& c) {
    for (size_t i = c.size(); i > 1; i--) std::swap(c[i - 1], c[below(i)]);
  }
};

struct Violation { // not a std::exception: what catches those must not swallow it
  std::string key, msg;
  Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char* what() const noexcept { return msg.c_str(); }
};

// A generated case that turned out unusable: counted, decides nothing.
struct Skip {};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  return hash_bytes(s.data(), s.size(), h);
}

inline std::string num(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

struct Ctx {
  Rng rng{1};
  uint64_t seed = 0, index = 0;
  bool thorough = false, sanitized = false;
  std::string describe; // what the case is, for reports
  bool nontrivial = false;
  uint64_t hash   = 0; // identity of the case
  std::map<std::string, uint64_t>* counters = nullptr;
  uint64_t evaluations = 0; // by the library, in this case

  void count(const std::string& k, uint64_t n = 1) { (*counters)[k] += n; }
  void desc(const std::string& s) {
    describe += s;
    describe += '\n';
    static const bool trace = getenv("VH_TRACE") != nullptr;
    if (trace) fprintf(stderr, "[case %llu] %s\n", (unsigned long long)index, s.c_str());
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg) {
    throw Violation(key, msg);
  }
  void require(bool ok, const char* key, const std::string& msg) {
    if (!ok) fail(key, msg);
  }
};

// Implemented by each monitor.
extern const char* RULE; // how cases are made, what makes one non-trivial
void setup(bool thorough);
void run_case(Ctx&);
void finish(std::map<std::string, uint64_t>& counters);

} // namespace vh
