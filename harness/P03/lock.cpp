#include "lock.h"
#include <map>
namespace p03 {
std::vector<std::pair<std::string, Make>>& factories() { static std::vector<std::pair<std::string, Make>> f; return f; }
namespace {
// loose(op): results are rounded from here on.
void lockstep(const std::string& key, int ops, int depth, double tol, bool exact_start, bool (*loose)(int))
{
  static std::map<std::string, Machines> made;
  Machines& ms = made[key];
  if(ms.empty()) for(auto& f : factories()) if(f.first == key) ms.push_back(f.second());
  MC_CHECK(ms.size() >= 12, "configurations", key << ": " << ms.size());
  const int start = mc::choose(3);
  for(auto& m : ms) m->reset(start);
  bool exact = exact_start;
  std::string line = "start " + std::to_string(start);
  for(int k = 0; k < depth; ++k) {
    const int op = mc::choose(ops);
    line += ", " + std::to_string(op);
    if(loose(op)) exact = false;
    for(auto& m : ms) m->apply(op);
    mc::step(ms.size());
    const mat a = ms[0]->a(), b = ms[0]->b();
    const vec v = ms[0]->v();
    const double s = ms[0]->s, t = exact ? 0 : tol * (1 + ms[0]->largest());
    for(size_t i = 1; i < ms.size(); ++i) {
      const Machine& m = *ms[i];
      const auto differ = [&](const char* what) { return std::string(what) + " after operations " + line + " in " + m.name + " and " + ms[0]->name + ": "; };
      if(!ref::near(m.a(), a, t)) { MC_CHECK(false, "first matrix", differ("matrix") << m.a() << " and " << a); }
      if(!ref::near(m.b(), b, t)) { MC_CHECK(false, "second matrix", differ("matrix") << m.b() << " and " << b); }
      if(!ref::near(m.v(), v, t)) { MC_CHECK(false, "vector", differ("vector") << m.v() << " and " << v); }
      if(!ref::near(m.s, s, t)) { MC_CHECK(false, "number", differ("number") << m.s << " and " << s); }
    }
    mc::state(mc::Hash()(int(ref::hash(a) % 1000000007))(int(ref::hash(b) % 1000000007))(int(ref::hash(v) % 1000000007))(s));
    if(ms[0]->largest() > 1e30) return;
  }
}
bool square_loose(int op) { return op == 8 || op == 26 || op == 33; }
bool never(int) { return false; }
bool always(int) { return true; }
struct R { R() {
  const int d = mc::thorough() ? 4 : 3;
  for(const char* n : {"2", "3", "4"}) for(const char* e : {"double", "float"}) {
    const std::string key = std::string("square ") + e + " " + n;
    mc::add(key, [key, d, e] { lockstep(key, SquareOps, d, e[0] == 'd' ? 1e-9 : 1e-4, true, square_loose); });
  }
  for(const char* n : {"2x3", "3x4", "4x2"}) {
    const std::string key = std::string("oblong double ") + n;
    mc::add(key, [key, d] { lockstep(key, OblongOps, d + 1, 1e-9, true, never); });
  }
  mc::add("maps double", [d] { lockstep("maps double", MapOps, d, 1e-9, false, always); });
  mc::add("maps float", [] { lockstep("maps float", MapOps, 2, 2e-4, false, always); });
} } r;
} }
