// Counting, guarding, failure-injecting allocator used by the container harnesses.
#pragma once
#include "mc.h"
#include <cstdlib>
#include <new>
#include <string>
#include <vector>
#include <utility>

namespace h {

struct AllocState
{
  std::vector<std::pair<void*, std::size_t>> live; // block, bytes
  long allocs = 0, frees = 0;
  long fail_at = -1, fail_at2 = -1; // fail the k-th allocation from now (0-based)
  bool failed = false;
  std::string bad;
  void reset()
  {
    for(auto& b : live) std::free(b.first);
    live.clear();
    allocs = frees = 0;
    fail_at = fail_at2 = -1;
    failed = false;
    bad.clear();
  }
};

inline AllocState& alloc_state()
{
  static AllocState s;
  return s;
}

template<class T> struct CountAlloc
{
  using value_type = T;
  CountAlloc() = default;
  template<class U> CountAlloc(const CountAlloc<U>&) {}
  T* allocate(std::size_t n)
  {
    auto& s = alloc_state();
    const long k = s.allocs++;
    if(k == s.fail_at || k == s.fail_at2) {
      s.failed = true;
      throw std::bad_alloc();
    }
    if(n > 100000) { s.bad = "absurd allocation size"; throw std::bad_alloc(); }
    void* p = std::malloc(n * sizeof(T) + (n == 0));
    std::memset(p, 0x01, n * sizeof(T));
    s.live.emplace_back(p, n * sizeof(T));
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n)
  {
    auto& s = alloc_state();
    if(p == nullptr) {
      if(n) s.bad = "null released with a nonzero size";
      return;
    }
    auto it = s.live.begin();
    while(it != s.live.end() && it->first != p) ++it;
    if(it == s.live.end()) { s.bad = "released a block that is not live"; return; }
    if(it->second != n * sizeof(T)) {
      s.bad = "released with a size different from the requested one";
    }
    s.live.erase(it);
    ++s.frees;
    std::free(p);
  }
  template<class U> bool operator==(const CountAlloc<U>&) const { return true; }
  template<class U> bool operator!=(const CountAlloc<U>&) const { return false; }
};

} // namespace h
