// Controlled execution of library calls on two or three real threads.
//
// The operation TUs are compiled with -fsanitize=thread but linked without its
// runtime: rt_sched.cpp answers the __tsan_* calls, so every memory access of
// the library's own code goes through the scheduler and the race detector.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>

namespace sx {

// What an operation observed, on the calling thread's stack.
struct Out
{
  int n = 0;
  double v[400];
  void operator()(double d) { if(n < 400) v[n] = d; ++n; }
};

struct All; // the shared inputs (inputs.h)

struct Op
{
  const char* group;
  const char* name;
  void* fn;
  void (*call)(void* fn, const All& in, Out& o);
  bool random; // result legitimately depends on a shared seed
};

void reg(const Op& op);
// Build the k-th set of shared inputs (inputs.cpp).
const All* make_inputs(int k);

} // namespace sx
