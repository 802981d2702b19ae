// Property-based testing engine: every random decision of a case is a bounded
// draw from a Source.  The draws of the running case live in a shared file, so
// that the driver (check.py) can replay and shrink a case even if it crashed
// or hung the process.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

// layout of the shared file
struct Shared {
  uint64_t magic;
  uint64_t heartbeat;  // number of cases started
  uint64_t running;    // 1 while a case is executed
  uint64_t count;      // number of choices of the running case
  uint64_t choices[1];
};
constexpr uint64_t kMaxChoices = 1u << 18;

class Source {
 public:
  // [0, n), n >= 1.  0 is always the simplest choice.
  uint64_t draw(uint64_t n);
  // [lo, hi]
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(
                    draw(static_cast<uint64_t>(hi - lo) + 1u));
  }
  // true with probability num/den, false is simpler
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool coin() { return draw(2) == 1; }
  uint64_t bits64() {
    uint64_t hi = draw(1ull << 32);
    return (hi << 32) | draw(1ull << 32);
  }
  // index into weights; index 0 is the simplest
  size_t weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for (auto x : w) total += x;
    uint64_t v = draw(total);
    size_t i = 0;
    for (auto x : w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return 0;
  }
  // skewed length in [0, max]
  size_t length(size_t max) {
    size_t cap = max;
    switch (draw(4)) {
      case 0: cap = 2; break;
      case 1: cap = 6; break;
      case 2: cap = 20; break;
      default: break;
    }
    if (cap > max) cap = max;
    return draw(cap + 1);
  }
  template <class C>
  auto pick(const C& c) -> decltype(c[0]) {
    return c[draw(c.size())];
  }

  // ---- observation of the generated cases
  void cls(const std::string& label) { labels_[label] = true; }
  void nontrivial() { nontrivial_ = true; }
  // description of the case, written out for samples and replays
  bool describing() const { return describe_; }
  void note(const std::string& s) {
    if (describe_ && notes_.size() < 12000) {
      notes_ += s;
      notes_ += '\n';
    }
  }

  // ---- engine side
  enum class Mode { Random, Replay };
  void startRandom(uint64_t seed, Shared* sh);
  void startReplay(std::vector<uint64_t> choices, Shared* sh = nullptr);
  uint64_t hash() const { return hash_; }
  bool isNontrivial() const { return nontrivial_; }
  const std::map<std::string, bool>& labels() const { return labels_; }
  const std::string& notes() const { return notes_; }
  void setDescribe(bool d) { describe_ = d; }
  uint64_t drawn() const { return pos_; }
  // the choices so far, for another run of the same case
  std::vector<uint64_t> soFar() const {
    return sh_ ? std::vector<uint64_t>(sh_->choices, sh_->choices + pos_) : replay_;
  }

 private:
  void reset();
  uint64_t rnd();
  Mode mode_{Mode::Random};
  uint64_t s_[4];
  std::vector<uint64_t> replay_;
  uint64_t pos_{0};
  Shared* sh_{nullptr};
  uint64_t hash_{0};
  bool nontrivial_{false};
  bool describe_{false};
  std::map<std::string, bool> labels_;
  std::string notes_;
};

[[noreturn]] inline void fail(const std::string& msg) { throw Fail{msg}; }

// ---- to be defined by a check ----------------------------------------------
// one generated case, throws Fail on a violation
void pbt_case(Source& s);
// called once before the first case
void pbt_init();
// strict re-execution of the named known finding; returns a description of the
// failure, or an empty string if it does not fail any more
std::string pbt_known(const std::string& name);

// escape for messages
std::string esc(const std::string& s);
std::string num(double d);

}  // namespace pbt

#define PBT_CHECK(cond, stream)                                    \
  do {                                                             \
    if (!(cond)) {                                                 \
      std::ostringstream pbt_os_;                                  \
      pbt_os_.precision(17);                                       \
      pbt_os_ << stream << " [" #cond "]";                         \
      ::pbt::fail(pbt_os_.str());                                  \
    }                                                              \
  } while (0)
#define PBT_NOTE(s, stream)              \
  do {                                   \
    if ((s).describing()) {              \
      std::ostringstream pbt_os_;        \
      pbt_os_.precision(17);             \
      pbt_os_ << stream;                 \
      (s).note(pbt_os_.str());           \
    }                                    \
  } while (0)
