// A small property-based testing engine.
//
// Every random decision of a case is one draw from a choice sequence (as in
// Hypothesis): a case IS its sequence, so shrinking edits the sequence, replay
// feeds it back, and libFuzzer can drive the same property by decoding bytes
// into draws.  0 is always the simplest draw.
#pragma once

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

/// Set while a fuzzing engine is between cases, whose own time is real.
inline std::atomic<bool> realClock{false};

/// The property does not hold on this case.
struct Failure {
  std::string msg;
};
/// The case fell outside the property's domain (counted, never a verdict).
struct Discard {};

/// Shared with the parent process, so that a crash leaves the case behind.
struct Trail {
  volatile uint32_t n = 0;
  volatile uint32_t overflow = 0;
  uint64_t v[1u << 16];
};

class Src {
 public:
  enum class Mode { kRandom, kReplay, kBytes };

  static Src random(uint64_t seed, Trail* trail) {
    Src s;
    s.m_mode = Mode::kRandom;
    s.m_state = seed;
    s.m_trail = trail;
    return s;
  }
  static Src replay(std::vector<uint64_t> choices, Trail* trail) {
    Src s;
    s.m_mode = Mode::kReplay;
    s.m_in = std::move(choices);
    s.m_trail = trail;
    return s;
  }
  static Src bytes(const uint8_t* data, size_t size, Trail* trail = nullptr) {
    Src s;
    s.m_trail = trail;
    s.m_mode = Mode::kBytes;
    s.m_data = data;
    s.m_size = size;
    return s;
  }

  /// Uniform draw from [0, n); 0 is the simplest.
  uint64_t choose(uint64_t n) {
    if (n <= 1) {
      return 0;
    }
    uint64_t v = 0;
    switch (m_mode) {
      case Mode::kRandom:
        v = next() % n;
        break;
      case Mode::kReplay:
        v = m_pos < m_in.size() ? m_in[m_pos] : 0;
        ++m_pos;
        if (v >= n) {
          v = n - 1;
        }
        break;
      case Mode::kBytes: {
        int width = n <= 256 ? 1 : (n <= 65536 ? 2 : 8);
        for (int i = 0; i < width; ++i) {
          v = v << 8 | (m_pos < m_size ? m_data[m_pos] : 0);
          ++m_pos;
        }
        v %= n;
        break;
      }
    }
    m_out.push_back(v);
    if (m_trail) {
      if (m_trail->n < (1u << 16)) {
        m_trail->v[m_trail->n] = v;
        m_trail->n = m_trail->n + 1;
      } else {
        m_trail->overflow = 1;
      }
    }
    return v;
  }

  int range(int lo, int hi) {
    return lo + static_cast<int>(choose(static_cast<uint64_t>(hi - lo) + 1));
  }
  size_t size(size_t lo, size_t hi) { return lo + choose(hi - lo + 1); }
  /// True with probability p (num/256 resolution); shrinks to false.
  bool chance(double p) {
    return choose(256) >= 256 - static_cast<uint64_t>(p * 256 + 0.5);
  }
  /// Weighted index; shrinks to 0.
  size_t weighted(std::initializer_list<int> w) {
    uint64_t total = 0;
    for (int x : w) total += x;
    uint64_t v = choose(total);
    size_t i = 0;
    for (int x : w) {
      if (v < static_cast<uint64_t>(x)) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[choose(v.size())];
  }
  /// Uniform real in [lo, hi]: mostly full resolution, sometimes a coarse grid
  /// value, sometimes an end point.
  double real(double lo, double hi) {
    switch (weighted({2, 1, 5})) {
      case 0:  // coarse grid
        return lo + (hi - lo) * static_cast<double>(choose(17)) / 16.0;
      case 1:
        return choose(2) ? hi : lo;
      default:
        return lo + (hi - lo) * (static_cast<double>(choose(1ull << 40)) /
                                 static_cast<double>((1ull << 40) - 1));
    }
  }
  /// Real in [-m, m] around 0; shrinks to 0.
  double coord(double m) {
    switch (weighted({1, 2, 5})) {
      case 0:
        return 0.0;
      case 1: {
        double mag = static_cast<double>(choose(17)) / 16.0 * m;
        return choose(2) ? -mag : mag;
      }
      default: {
        double mag = static_cast<double>(choose(1ull << 40)) /
                     static_cast<double>(1ull << 40) * m;
        return choose(2) ? -mag : mag;
      }
    }
  }
  /// +-1
  double sgn() { return choose(2) ? -1.0 : 1.0; }

  /// Marks the case as non-trivial by the property's stated rule.
  void nontrivial() { m_nontrivial = true; }
  bool isNontrivial() const { return m_nontrivial; }
  /// Classifies the case.
  void label(const std::string& l) { m_labels.insert(l); }
  const std::set<std::string>& labels() const { return m_labels; }
  /// A listed-or-not finding hit by this case (see findings()).
  void finding(const std::string& id, const std::string& what) {
    m_findings.emplace(id, what);
  }
  const std::map<std::string, std::string>& findings() const { return m_findings; }

  /// Human-readable description, only built when somebody reads it.
  bool verbose = false;
  std::ostringstream out;
  /// Where notes also go as they come, so that a crash does not lose them.
  std::FILE* echo = nullptr;
  void echoed() {
    if (echo) {
      auto all = out.str();
      std::fwrite(all.data() + m_echoed, 1, all.size() - m_echoed, echo);
      std::fflush(echo);
      m_echoed = all.size();
    }
  }

  const std::vector<uint64_t>& choices() const { return m_out; }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t v : m_out) {
      h = (h ^ v) * 1099511628211ull;
      h ^= h >> 29;
    }
    return h;
  }

 private:
  uint64_t next() {  // splitmix64
    uint64_t z = (m_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }

  Mode m_mode = Mode::kRandom;
  uint64_t m_state = 0;
  std::vector<uint64_t> m_in;
  const uint8_t* m_data = nullptr;
  size_t m_size = 0;
  size_t m_pos = 0;
  Trail* m_trail = nullptr;
  size_t m_echoed = 0;
  std::vector<uint64_t> m_out;
  bool m_nontrivial = false;
  std::set<std::string> m_labels;
  std::map<std::string, std::string> m_findings;
};

using PropFn = void (*)(Src&);

/// One executable check; several of them decide a listed property.
struct Sub {
  const char* property;  // "C01"
  const char* name;      // "kinematics-accept"
  PropFn fn;
  int quick;     // cases in the quick tier
  int thorough;  // cases in the thorough tier
  const char* rule;
};

std::vector<Sub>& registry();

struct Register {
  Register(Sub s) { registry().push_back(s); }
};

#define PBT_CONCAT2(a, b) a##b
#define PBT_CONCAT(a, b) PBT_CONCAT2(a, b)
/// PROPERTY("C01", "name", quick, thorough, "rule") { body using Src& s }
#define PROPERTY(prop, name, quick, thorough, rule)                       \
  static void PBT_CONCAT(prop_fn_, __LINE__)(pbt::Src & s);               \
  static pbt::Register PBT_CONCAT(prop_reg_, __LINE__){                   \
      {prop, name, PBT_CONCAT(prop_fn_, __LINE__), quick, thorough, rule}}; \
  static void PBT_CONCAT(prop_fn_, __LINE__)([[maybe_unused]] pbt::Src & s)

#define NOTE(expr)     \
  do {                 \
    if (s.verbose) {   \
      s.out << expr;   \
      s.echoed();      \
    }                  \
  } while (0)

#define FAIL(expr)                      \
  do {                                  \
    std::ostringstream fail_out_;       \
    fail_out_.precision(17);            \
    fail_out_ << expr;                  \
    throw pbt::Failure{fail_out_.str()}; \
  } while (0)

#define REQUIRE(cond, expr)                         \
  do {                                              \
    if (!(cond)) {                                  \
      FAIL(expr << " [" #cond "]");                 \
    }                                               \
  } while (0)

/// |a-b| within abs + rel*max(|a|,|b|); false for NaN.
inline bool near(double a, double b, double abs = 1e-9, double rel = 1e-9) {
  if (a == b) return true;
  double m = std::max(std::fabs(a), std::fabs(b));
  return std::fabs(a - b) <= abs + rel * m;
}

template <typename T>
std::string show(const std::vector<T>& v);
inline std::string show(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string show(size_t v) { return std::to_string(v); }
inline std::string show(int v) { return std::to_string(v); }
template <typename T>
std::string show(const std::vector<T>& v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) {
    r += (i ? ", " : "") + show(v[i]);
  }
  return r + "]";
}

}  // namespace pbt
