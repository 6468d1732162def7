// Objects that can be destroyed and overwritten on demand: an expression built
// from such a temporary must not need it any more.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>

class Pool
{
  struct Item { void* p; size_t n; void (*destroy)(void*); };
  std::vector<Item> items;

  public:
  Pool() = default;
  Pool(const Pool&) = delete;
  Pool(Pool&& o) : items(std::move(o.items)) { o.items.clear(); }
  // Move a temporary here and hand it out as a temporary again.
  template<class T> std::decay_t<T>&& operator()(T&& t)
  {
    using U = std::decay_t<T>;
    void* p = ::operator new(sizeof(U));
    new(p) U(std::forward<T>(t));
    items.push_back({p, sizeof(U), [](void* q) { static_cast<U*>(q)->~U(); }});
    return static_cast<U&&>(*static_cast<U*>(p));
  }
  // Destroy them all and leave recognisable garbage behind.
  void kill()
  {
    for(Item& i : items) if(i.destroy) { i.destroy(i.p); i.destroy = nullptr; std::memset(i.p, 0xBC, i.n); }
  }
  ~Pool() { kill(); for(Item& i : items) ::operator delete(i.p); }
};
