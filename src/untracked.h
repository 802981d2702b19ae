// Containers in memory of malloc, which the race detector of dsched does not
// see: records of a test must not order its threads.
#pragma once

#include <cstdlib>
#include <string>
#include <vector>

namespace untracked {

template <class T>
struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <class U>
  Alloc(const Alloc<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const Alloc&) const { return true; }
  bool operator!=(const Alloc&) const { return false; }
};
template <class T>
using Vec = std::vector<T, Alloc<T>>;
using Str = std::basic_string<char, std::char_traits<char>, Alloc<char>>;

inline std::string str(const Str& s) { return std::string(s.data(), s.size()); }

}  // namespace untracked
