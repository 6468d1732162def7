// The random sources of the process, under the exploration's control.
#include "random.h"
#include <string>

namespace g09 {
Source& source() { static Source s; return s; }
static unsigned answer()
{
  Source& s = source();
  s.used = true;
  if(s.answers.empty()) return 1;
  const unsigned a = s.answers[std::min(s.next, s.answers.size() - 1)];
  ++s.next;
  return a;
}
} // namespace g09

extern "C" int rand() noexcept { return int(g09::answer() & unsigned(RAND_MAX)); }
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return g09::answer(); }

namespace g09 { namespace {
struct R { R() {
  mc::add("scalars", scalars); mc::add("scalar types", types); mc::add("scalars reach", reach); mc::add("sweep", sweep);
  mc::add("rejected double", rejected<double>); mc::add("rejected float", rejected<float>);
} } r; } }
