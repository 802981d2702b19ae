// Linearizability of a short history against a sequential model.
#pragma once

#include <cstdint>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace lin {

// Model: copyable; bool apply(const Op&) checks the recorded result and
// updates the state; std::string key() identifies the state.
template <class Op>
struct Event {
  Op op;
  uint64_t invoked, returned;
  int thread;
};

template <class Op, class Model>
class Checker {
 public:
  explicit Checker(const std::vector<Event<Op>>& h) : h_(h) {}

  bool check(const Model& initial) { return search(0, initial); }

 private:
  bool search(uint64_t done, const Model& m) {
    if (done == (1ull << h_.size()) - 1) return true;
    if (!seen_.insert({done, m.key()}).second) return false;
    // an operation may come first if no other pending one returned before it
    uint64_t minReturn = ~0ull;
    for (size_t i = 0; i < h_.size(); ++i) {
      if (!(done >> i & 1) && h_[i].returned < minReturn) {
        minReturn = h_[i].returned;
      }
    }
    for (size_t i = 0; i < h_.size(); ++i) {
      if ((done >> i & 1) || h_[i].invoked > minReturn) continue;
      Model n = m;
      if (n.apply(h_[i].op) && search(done | (1ull << i), n)) return true;
    }
    return false;
  }

  const std::vector<Event<Op>>& h_;
  std::set<std::pair<uint64_t, std::string>> seen_;
};

}  // namespace lin
