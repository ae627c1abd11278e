// A small property-based testing engine: seeded generators producing textual cases, an oracle run
// on each case in a forked worker, and delta-debugging of any failing case down to a replay file.
//
// A case is a list of lines.  Several cases may be chained in one replay file (a line "===" between
// them): they then run in one process, one after the other, which is how a failure that needs state
// left behind by an earlier case is kept reproducible.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // uniform in [lo, hi]
  int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? lo : lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int64_t)(next() % (uint64_t)den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[next() % i]); }
};

inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x2545F4914F6CDD1Dull + b); return r.next(); }

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
#define CHECK_THAT(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << msg; throw pbt::Fail(o_.str()); } } while (0)

using Case = std::vector<std::string>;

// What one run of a case reports besides pass or fail.
struct Ctx {
  bool nontrivial = false;
  std::set<std::string> labels;
  std::string scratch;  // a private directory that exists while the case runs
  void label(const std::string& l) { labels.insert(l); }
};

struct Prop {
  std::string id;
  std::string rule;                              // how cases are made, what is non-trivial
  std::function<Case(Rng&, int /*size 0..100*/)> gen;
  std::function<void(const Case&, Ctx&)> run;    // throws Fail
  int cpu_limit_s = 20;                          // CPU seconds one case may take (normally well under a millisecond)
};

int main_driver(int argc, char** argv, const std::vector<Prop>& props);

inline std::vector<std::string> split(const std::string& s) {
  std::istringstream is(s); std::vector<std::string> v; std::string t; while (is >> t) v.push_back(t); return v; }
inline bool to_int(const std::string& s, long long& v) {
  try { size_t p; v = std::stoll(s, &p); return p == s.size(); } catch (...) { return false; } }
std::string hex(const std::string& bytes);
std::string unhex(const std::string& h);
}
