// Stateless explicit exploration of real code: see /verif/DESIGN.md.
//
// A scenario is a function whose only nondeterminism is mc::choose(n).  The
// explorer enumerates the complete choice tree depth first, runs the scenario
// once per leaf, and records every failed MC_CHECK with its choice vector.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>

namespace mc {

struct Fail
{
  std::string site, detail;
};

/// Next nondeterministic answer in 0..n-1.
int choose(int n);
/// True for the deeper bounds.
bool thorough();
/// Count k library operations executed and compared.
void step(uint64_t k = 1);
/// Record the hash of an observed model state / outcome.
void state(uint64_t h);
/// True when this execution's trace is wanted (first of a scenario, or replay).
bool tracing();
void trace(const std::string& s);

/// Register a scenario.
void add(const std::string& name, std::function<void()> fn);

[[noreturn]] void fail(const char* site, const std::string& detail);
[[noreturn]] void fail(const std::string& site, const std::string& detail);

/// FNV-style accumulator for state hashes.
struct Hash
{
  uint64_t h = 1469598103934665603ull;
  Hash& raw(uint64_t v)
  {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 1099511628211ull;
    return *this;
  }
  Hash& operator()(double d)
  {
    // Round so that states do not multiply through rounding noise.
    if(d != d) return raw(0x7ff8dead);
    if(d > 1e15 || d < -1e15) return raw(d > 0 ? 0x7ff0 : 0xfff0);
    const double s = d * 1e6;
    return raw(uint64_t(int64_t(s < 0 ? s - .5 : s + .5)));
  }
  Hash& operator()(int i) { return raw(uint64_t(int64_t(i)) * 7919u + 13u); }
  operator uint64_t() const { return h; }
};

inline uint64_t
hash_str(const char* s)
{
  uint64_t h = 1469598103934665603ull;
  for(; *s; ++s) h = (h ^ uint64_t(uint8_t(*s))) * 1099511628211ull;
  return h;
}

} // namespace mc

#define MC_STR_(x) #x
#define MC_STR(x) MC_STR_(x)

/// Check; `detail` is streamed only on failure.
#define MC_CHECK(cond, site, detail)                                           \
  do {                                                                         \
    if(!(cond)) {                                                              \
      std::ostringstream mc_os_;                                               \
      mc_os_.precision(17);                                                    \
      mc_os_ << detail;                                                        \
      ::mc::fail(site, mc_os_.str());                                          \
    }                                                                          \
  } while(0)

#define MC_TRACE(x)                                                            \
  do {                                                                         \
    if(::mc::tracing()) {                                                      \
      std::ostringstream mc_os_;                                               \
      mc_os_ << x;                                                             \
      ::mc::trace(mc_os_.str());                                               \
    }                                                                          \
  } while(0)
