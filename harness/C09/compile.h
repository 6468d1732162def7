// What the compiler accepts.  Every configuration of a small program is given
// to the compiler the library is built with; the fixed-size form of a call has
// to be accepted exactly when its documented conditions hold.
#pragma once
#include "mc.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>

namespace c09 {
using std::string;

inline string dir()
{
  static const string d = [] {
    char b[4096];
    const ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    string s(b, size_t(n));
    return s.substr(0, s.rfind('/'));
  }();
  return d;
}
inline string repo() { const char* r = std::getenv("CML_REPO"); return r ? r : "/repo"; }
inline string gxx() { return "g++ -std=c++17 -w -g0 -O0 -I" + repo() + " "; }
inline string slurp(const string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }

// The library headers, parsed once for all processes.
inline void header()
{
  static bool done = false;
  if(done) return;
  done = true;
  const string h = dir() + "/every.h";
  const int lock = open((dir() + "/every.lock").c_str(), O_CREAT | O_RDWR, 0600);
  flock(lock, LOCK_EX);
  if(access((h + ".gch").c_str(), R_OK)) {
    std::ofstream(h) << "#include <cml/cml.h>\n#include <cml/mathlib/mathlib.h>\n#include <cml/matrix/lu.h>\n#include <cml/matrix/hadamard_product.h>\n#include <cml/vector/hadamard_product.h>\n";
    const int rc = std::system((gxx() + "-x c++-header " + h + " -o " + h + ".tmp >" + dir() + "/every.log 2>&1").c_str());
    if(rc == 0) std::rename((h + ".tmp").c_str(), (h + ".gch").c_str());
  }
  flock(lock, LOCK_UN);
  close(lock);
}

// Compiles a program; the compiler's first error, or "" when it is accepted.
inline string compile(const string& text)
{
  header();
  const string f = dir() + "/case-" + std::to_string(getpid());
  std::ofstream(f + ".cpp") << "using namespace cml;\n" << text << "\n";
  const int rc = std::system((gxx() + "-fsyntax-only -fmax-errors=1 -include " + dir() + "/every.h " + f + ".cpp >" + f + ".log 2>&1").c_str());
  const string log = slurp(f + ".log");
  std::remove((f + ".cpp").c_str());
  std::remove((f + ".log").c_str());
  if(rc == 0) return "";
  const size_t at = log.find("error: ");
  if(at == string::npos) { MC_CHECK(false, "compiler", "no verdict for: " << text << "\n" << log); }
  return log.substr(at, log.find('\n', at) - at);
}

inline void verdict(const string& site, const string& text, bool ok)
{
  const string e = compile(text);
  mc::step();
  mc::state(std::hash<string>()(text));
  if(ok) MC_CHECK(e.empty(), site, "refused: " << text << " (" << e << ")");
  else MC_CHECK(!e.empty(), site, "accepted: " << text);
}

// Declarations of objects that are never made.
inline string decl(const string& type, const string& name) { return "extern " + type + " " + name + "; "; }
inline string body(const string& s) { return "void f() { " + s + " }"; }
inline string num(int i) { return std::to_string(i); }
inline string list(int n, const string& x = "1.") { string s; for(int i = 0; i < n; ++i) s += (i ? ", " : "") + x; return s; }

// Vector types by kind: fixed, external, an expression, and run-time sizes.
inline string vec(int kind, int n)
{
  switch(kind) {
    case 0: return "vector<double, fixed<" + num(n) + ">>";
    case 1: return "vector<double, external<" + num(n) + ">>";
    case 2: return "vector<double, dynamic<>>";
    default: return "vector<float, fixed<" + num(n) + ">>";
  }
}
inline string mat(int kind, int r, int c, const string& rest = "")
{
  switch(kind) {
    case 0: return "matrix<double, fixed<" + num(r) + ", " + num(c) + ">" + rest + ">";
    case 1: return "matrix<double, external<" + num(r) + ", " + num(c) + ">" + rest + ">";
    default: return "matrix<double, dynamic<>" + rest + ">";
  }
}
}
