// Fixed-capacity list: keeps reference models off the heap.
#pragma once
#include <cstdlib>
#include <initializer_list>
#include <optional>

namespace h {
template<class T, int N> struct List
{
  T d[N];
  int n = 0;
  List() = default;
  explicit List(size_t k, T v = T()) { for(size_t i = 0; i < k; ++i) push_back(v); }
  List(std::initializer_list<T> l) { for(auto& x : l) push_back(x); }
  void push_back(const T& v) { if(n >= N) abort(); d[n++] = v; }
  size_t size() const { return size_t(n); }
  void clear() { n = 0; }
  void resize(size_t k) { while(size_t(n) < k) push_back(T()); n = int(k); }
  T& operator[](size_t i) { return d[i]; }
  const T& operator[](size_t i) const { return d[i]; }
  T* begin() { return d; }
  T* end() { return d + n; }
  const T* begin() const { return d; }
  const T* end() const { return d + n; }
};
} // namespace h
