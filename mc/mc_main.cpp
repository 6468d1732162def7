// Explorer, worker pool and reporting for mc.h.
#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <regex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace {

constexpr int MAXPATH = 16384;
constexpr int MAXW = 16;

double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Slot // one per worker, in shared memory
{
  volatile int scenario; // -1: idle
  volatile int len;
  volatile uint64_t execs;
  volatile int16_t path[MAXPATH];
};

struct Shared
{
  std::atomic<int> next;
  Slot slot[MAXW];
};

struct Scenario
{
  std::string name;
  std::function<void()> fn;
};

std::vector<Scenario>& scenarios()
{
  static std::vector<Scenario> s;
  return s;
}

bool g_thorough = false;
bool g_tracing = false;
std::string g_trace;
Slot g_local_slot;
Slot* g_slot = &g_local_slot;

// Current execution.
int g_pos = 0;
int g_prefix = 0; // choices given
int16_t g_arity[MAXPATH];

uint64_t g_steps = 0;

// Open-addressing set of 64-bit hashes.
struct HSet
{
  std::vector<uint64_t> t;
  size_t n = 0;
  bool capped = false;
  HSet() : t(1 << 12, 0) {}
  void insert(uint64_t h)
  {
    if(!h) h = 1;
    size_t m = t.size() - 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull >> 17) & m;
    while(t[i]) {
      if(t[i] == h) return;
      i = (i + 1) & m;
    }
    if(n >= (size_t(1) << 24)) { capped = true; return; }
    t[i] = h;
    if(++n * 2 > t.size()) grow();
  }
  void grow()
  {
    std::vector<uint64_t> o(t.size() * 2, 0);
    o.swap(t);
    size_t m = t.size() - 1;
    for(uint64_t h : o)
      if(h) {
        size_t i = (h * 0x9e3779b97f4a7c15ull >> 17) & m;
        while(t[i]) i = (i + 1) & m;
        t[i] = h;
      }
  }
  void clear() { t.assign(1 << 12, 0); n = 0; capped = false; }
};
HSet g_states;

struct Internal { std::string what; };

std::string path_str(const std::vector<int>& p)
{
  std::string s;
  for(size_t i = 0; i < p.size(); ++i) {
    if(i) s += ',';
    s += std::to_string(p[i]);
  }
  return s;
}

std::string jesc(const std::string& s)
{
  std::string o;
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if(c == '\n') o += "\\n";
    else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

struct Rec { std::string site, detail; std::vector<int> path; std::string trace; uint64_t count; int reproduced; };

std::vector<regex_t> g_known; // regexes over "scenario|site|detail"
std::vector<std::string> g_known_src;

int known_index(const std::string& key)
{
  for(size_t i = 0; i < g_known.size(); ++i)
    if(regexec(&g_known[i], key.c_str(), 0, nullptr, 0) == 0) return int(i);
  return -1;
}

// Run the scenario once under the choices currently in g_slot->path[0..prefix).
bool run_once(const Scenario& s, mc::Fail& f)
{
  g_pos = 0;
  try {
    s.fn();
    return true;
  } catch(const mc::Fail& e) {
    f = e;
  } catch(const Internal&) {
    throw;
  } catch(const std::exception& e) {
    int st = 0;
    char* d = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    f.site = std::string("escaped-exception:") + (d ? d : "?");
    free(d);
    f.detail = e.what();
  } catch(...) {
    f.site = "escaped-exception:unknown";
    f.detail = "non-standard exception";
  }
  return false;
}

std::vector<int> cur_path()
{
  std::vector<int> p(size_t(g_pos), 0);
  for(int i = 0; i < g_pos; ++i) p[size_t(i)] = g_slot->path[i];
  return p;
}

void set_path(const std::vector<int>& p)
{
  for(size_t i = 0; i < p.size(); ++i) g_slot->path[i] = int16_t(p[i]);
  g_prefix = int(p.size());
}

void explore(int index, FILE* out, double deadline)
{
  const Scenario& s = scenarios()[size_t(index)];
  g_slot->len = 0;
  g_prefix = 0;
  g_slot->scenario = index;
  g_steps = 0;
  g_states.clear();
  uint64_t execs = 0, unlisted = 0, replays = 0;
  bool complete = true;
  std::string why;
  std::map<std::string, Rec> recs;
  std::map<int, Rec> known;
  std::vector<std::string> samples;
  const double t0 = now();
  g_prefix = 0;
  for(;;) {
    g_tracing = execs < 1;
    g_trace.clear();
    mc::Fail f;
    const bool ok = run_once(s, f);
    ++execs;
    g_slot->execs = g_slot->execs + 1;
    std::vector<int16_t> ar(g_arity, g_arity + g_pos);
    int n = g_pos;
    if(g_tracing) samples.push_back("[" + path_str(cur_path()) + "] " + g_trace);
    if(!ok) {
      std::vector<int> p = cur_path();
      const std::string key = s.name + "|" + f.site + "|" + f.detail;
      const int k = known_index(key);
      Rec* r = nullptr;
      if(k >= 0) {
        Rec& q = known[k];
        if(!q.count++) { q.site = f.site; q.detail = f.detail; q.path = p; }
      } else {
        ++unlisted;
        r = &recs[f.site];
        if(!r->count++) {
          r->site = f.site;
          r->detail = f.detail;
          r->path = p;
          // Replay before report.
          r->reproduced = 0;
          for(int t = 0; t < 3; ++t) {
            set_path(p);
            g_tracing = true;
            g_trace.clear();
            mc::Fail f2;
            ++replays;
            if(!run_once(s, f2) && f2.site == f.site) ++r->reproduced;
            r->trace = g_trace;
          }
          set_path(p);
          memcpy(g_arity, ar.data(), ar.size() * sizeof(int16_t));
        }
      }
      if(unlisted >= 400) { complete = false; why = "stopped after 400 unlisted failures"; break; }
    }
    // Odometer.
    for(int i = 0; i < n; ++i) g_arity[i] = ar[size_t(i)];
    int i = n - 1;
    while(i >= 0 && g_slot->path[i] + 1 >= g_arity[i]) --i;
    if(i < 0) break;
    g_slot->path[i] = int16_t(g_slot->path[i] + 1);
    g_prefix = i + 1;
    g_slot->len = g_prefix;
    if((execs & 255) == 0 && now() > deadline) { complete = false; why = "time cap"; break; }
  }
  fprintf(out,
    "{\"scenario\":\"%s\",\"executions\":%llu,\"transitions\":%llu,\"states\":%llu,"
    "\"complete\":%s,\"why\":\"%s\",\"states_capped\":%s,\"replays\":%llu,\"wall\":%.3f,\"samples\":[",
    jesc(s.name).c_str(), (unsigned long long)execs, (unsigned long long)g_steps,
    (unsigned long long)g_states.n, complete ? "true" : "false", why.c_str(),
    g_states.capped ? "true" : "false", (unsigned long long)replays, now() - t0);
  for(size_t i = 0; i < samples.size(); ++i)
    fprintf(out, "%s\"%s\"", i ? "," : "", jesc(samples[i].substr(0, 600)).c_str());
  fprintf(out, "],\"violations\":[");
  bool first = true;
  for(auto& kv : recs) {
    Rec& r = kv.second;
    fprintf(out,
      "%s{\"site\":\"%s\",\"detail\":\"%s\",\"path\":\"%s\",\"count\":%llu,\"reproduced\":%d,\"trace\":\"%s\"}",
      first ? "" : ",", jesc(r.site).c_str(), jesc(r.detail.substr(0, 2000)).c_str(), path_str(r.path).c_str(),
      (unsigned long long)r.count, r.reproduced, jesc(r.trace.substr(0, 2000)).c_str());
    first = false;
  }
  fprintf(out, "],\"known\":[");
  first = true;
  for(auto& kv : known) {
    fprintf(out, "%s{\"index\":%d,\"site\":\"%s\",\"detail\":\"%s\",\"path\":\"%s\",\"count\":%llu}", first ? "" : ",",
      kv.first, jesc(kv.second.site).c_str(), jesc(kv.second.detail.substr(0, 600)).c_str(),
      path_str(kv.second.path).c_str(), (unsigned long long)kv.second.count);
    first = false;
  }
  fprintf(out, "]}\n");
  fflush(out);
  g_slot->scenario = -1;
}

std::string read_tail(const std::string& f, size_t max = 3000)
{
  FILE* fp = fopen(f.c_str(), "r");
  if(!fp) return "";
  std::string s;
  char b[4096];
  size_t k;
  while((k = fread(b, 1, sizeof b, fp)) > 0) s.append(b, k);
  fclose(fp);
  if(s.size() > max) s = s.substr(0, max);
  return s;
}

} // namespace

namespace mc {

int choose(int n)
{
  if(n <= 0) throw Internal{"choose(0)"};
  if(g_pos >= MAXPATH) throw Internal{"path too long"};
  int v = 0;
  if(g_pos < g_prefix) {
    v = g_slot->path[g_pos];
    if(v >= n) throw Internal{"replay divergence: choice out of range"};
    if(g_arity[g_pos] && g_arity[g_pos] != n)
      throw Internal{"replay divergence: arity changed"};
  } else {
    g_slot->path[g_pos] = 0;
  }
  g_arity[g_pos] = int16_t(n);
  ++g_pos;
  if(g_slot->len < g_pos || g_pos >= g_prefix) g_slot->len = g_pos;
  return v;
}

bool thorough() { return g_thorough; }
void step(uint64_t k) { g_steps += k; }
void state(uint64_t h) { g_states.insert(h); }
bool tracing() { return g_tracing; }
void trace(const std::string& s)
{
  if(g_trace.size() < 8000) { g_trace += s; g_trace += "; "; }
}
void add(const std::string& name, std::function<void()> fn) { scenarios().push_back({name, std::move(fn)}); }
void fail(const char* site, const std::string& d) { throw Fail{site, d}; }
void fail(const std::string& site, const std::string& d) { throw Fail{site, d}; }

} // namespace mc

// usage: harness --out FILE [--thorough] [--workers N] [--cap SEC] [--known FILE]
//        harness --replay SCENARIO PATH [--thorough]
//        harness --list
int main(int argc, char** argv)
{
  std::string outf, rs, rp, knownf;
  int workers = 8;
  double cap = 700;
  bool replay = false, list = false;
  const char* only = nullptr;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if(a == "--out") outf = argv[++i];
    else if(a == "--thorough") g_thorough = true;
    else if(a == "--workers") workers = atoi(argv[++i]);
    else if(a == "--cap") cap = atof(argv[++i]);
    else if(a == "--known") knownf = argv[++i];
    else if(a == "--only") only = argv[++i];
    else if(a == "--list") list = true;
    else if(a == "--replay") { replay = true; rs = argv[++i]; rp = (i + 1 < argc && argv[i + 1][0] != '-') ? argv[++i] : ""; }
  }
  std::sort(scenarios().begin(), scenarios().end(),
    [](const Scenario& a, const Scenario& b) { return a.name < b.name; });
  for(size_t i = 1; i < scenarios().size(); ++i)
    if(scenarios()[i].name == scenarios()[i - 1].name) {
      fprintf(stderr, "duplicate scenario %s\n", scenarios()[i].name.c_str());
      return 3;
    }
  if(list) {
    for(auto& s : scenarios()) puts(s.name.c_str());
    return 0;
  }
  if(replay) {
    std::vector<int> p;
    for(size_t i = 0; i < rp.size();) {
      size_t j = rp.find(',', i);
      if(j == std::string::npos) j = rp.size();
      if(j > i) p.push_back(atoi(rp.substr(i, j - i).c_str()));
      i = j + 1;
    }
    for(auto& s : scenarios())
      if(s.name == rs) {
        set_path(p);
        memset(g_arity, 0, sizeof g_arity);
        g_tracing = true;
        mc::Fail f;
        bool ok;
        try { ok = run_once(s, f); }
        catch(const Internal& e) { printf("INTERNAL %s\n", e.what.c_str()); return 3; }
        printf("scenario %s path %s\ntrace: %s\n", rs.c_str(), rp.c_str(), g_trace.c_str());
        if(ok) { puts("OK: no violation"); return 0; }
        printf("FAIL site=%s\n%s\n", f.site.c_str(), f.detail.c_str());
        return 1;
      }
    fprintf(stderr, "no such scenario\n");
    return 3;
  }
  if(!knownf.empty())
    if(FILE* fp = fopen(knownf.c_str(), "r")) {
      char b[4096];
      while(fgets(b, sizeof b, fp)) {
        size_t n = strlen(b);
        while(n && (b[n - 1] == '\n' || b[n - 1] == '\r')) b[--n] = 0;
        if(!n) continue;
        regex_t r;
        if(regcomp(&r, b, REG_EXTENDED | REG_NOSUB)) { fprintf(stderr, "bad regex %s\n", b); return 3; }
        g_known.push_back(r);
        g_known_src.push_back(b);
      }
      fclose(fp);
    }

  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new(&sh->next) std::atomic<int>(0);
  std::vector<int> order;
  const int total = int(scenarios().size());
  for(int i = 0; i < total; ++i)
    if(!only || scenarios()[size_t(i)].name.find(only) != std::string::npos) order.push_back(i);
  const double deadline = now() + cap;
  if(workers > MAXW) workers = MAXW;

  struct W { pid_t pid; uint64_t last; double since; int scen; bool dead; };
  std::vector<W> ws(size_t(workers), W{0, 0, 0, -1, false});
  std::map<int, int> retried;
  auto wout = [&](int w) { return outf + ".w" + std::to_string(w); };
  auto werr = [&](int w) { return outf + ".e" + std::to_string(w); };
  for(int w = 0; w < workers; ++w) { unlink(wout(w).c_str()); unlink(werr(w).c_str()); }
  FILE* extra = fopen((outf + ".x").c_str(), "w");

  auto spawn = [&](int w, int forced) {
    sh->slot[w].scenario = -1;
    sh->slot[w].len = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0) {
      fclose(extra);
      int fd = open(werr(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if(fd >= 0) { dup2(fd, 2); }
      g_slot = &sh->slot[w];
      FILE* out = fopen(wout(w).c_str(), "a");
      int rc = 0;
      try {
        if(forced >= 0) explore(forced, out, deadline);
        for(;;) {
          int k = sh->next.fetch_add(1);
          if(k >= int(order.size())) break;
          memset(g_arity, 0, sizeof g_arity);
          explore(order[size_t(k)], out, deadline);
        }
      } catch(const Internal& e) {
        fprintf(stderr, "INTERNAL %s in %s\n", e.what.c_str(),
          g_slot->scenario >= 0 ? scenarios()[size_t(g_slot->scenario)].name.c_str() : "?");
        fflush(stderr);
        rc = 77;
      }
      fclose(out);
      _exit(rc);
    }
    ws[size_t(w)] = W{pid, sh->slot[w].execs, now(), -1, false};
  };

  auto report = [&](int w, const std::string& site, const std::string& detail) {
    Slot& sl = sh->slot[w];
    std::vector<int> p;
    for(int i = 0; i < sl.len; ++i) p.push_back(sl.path[i]);
    const std::string& nm = scenarios()[size_t(sl.scenario)].name;
    const std::string key = nm + "|" + site + "|" + detail;
    const int k = known_index(key);
    fprintf(extra,
      "{\"scenario\":\"%s\",\"executions\":%d,\"transitions\":0,\"states\":0,\"complete\":false,\"why\":\"%s\","
      "\"states_capped\":false,\"replays\":0,\"wall\":0,\"samples\":[],",
      jesc(nm).c_str(), 1, jesc(site).c_str());
    if(k < 0)
      fprintf(extra, "\"violations\":[{\"site\":\"%s\",\"detail\":\"%s\",\"path\":\"%s\",\"count\":1,\"reproduced\":1,\"trace\":\"\"}],\"known\":[]}\n",
        jesc(site).c_str(), jesc(detail).c_str(), path_str(p).c_str());
    else
      fprintf(extra, "\"violations\":[],\"known\":[{\"index\":%d,\"site\":\"%s\",\"detail\":\"%s\",\"path\":\"%s\",\"count\":1}]}\n",
        k, jesc(site).c_str(), jesc(detail.substr(0, 600)).c_str(), path_str(p).c_str());
    fflush(extra);
  };

  // Re-run one execution alone in a child; returns 0 ok, 1 fail, 2 crash, 3 hang.
  auto rerun_alone = [&](int w, double limit) {
    Slot& sl = sh->slot[w];
    std::vector<int> p;
    for(int i = 0; i < sl.len; ++i) p.push_back(sl.path[i]);
    const int idx = sl.scenario;
    pid_t pid = fork();
    if(pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      g_slot = &g_local_slot;
      set_path(p);
      memset(g_arity, 0, sizeof g_arity);
      mc::Fail f;
      bool ok = true;
      try { ok = run_once(scenarios()[size_t(idx)], f); } catch(...) {}
      _exit(ok ? 0 : 1);
    }
    const double t = now();
    for(;;) {
      int st;
      if(waitpid(pid, &st, WNOHANG) == pid) return WIFSIGNALED(st) || WEXITSTATUS(st) > 1 ? 2 : WEXITSTATUS(st);
      if(now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 3; }
      usleep(20000);
    }
  };

  int alive = 0, internal = 0, crashes = 0;
  for(int w = 0; w < workers; ++w) { spawn(w, -1); ++alive; }
  const double hang = 30;
  while(alive > 0) {
    bool any = false;
    for(int w = 0; w < workers; ++w) {
      W& x = ws[size_t(w)];
      if(x.dead) continue;
      int st;
      if(waitpid(x.pid, &st, WNOHANG) == x.pid) {
        any = true;
        if(WIFEXITED(st) && WEXITSTATUS(st) == 0) { x.dead = true; --alive; continue; }
        if(WIFEXITED(st) && WEXITSTATUS(st) == 77) {
          fprintf(stderr, "%s", read_tail(werr(w)).c_str());
          ++internal;
          x.dead = true;
          --alive;
          continue;
        }
        std::string tail = read_tail(werr(w));
        if(sh->slot[w].scenario >= 0) {
          std::string site = WIFSIGNALED(st) ? "crash:signal" + std::to_string(WTERMSIG(st)) : "crash:abort";
          size_t q = tail.find("ERROR: AddressSanitizer: ");
          if(q != std::string::npos) {
            std::string t = tail.substr(q + 25);
            site = "asan:" + t.substr(0, t.find_first_of(" \n"));
          } else if((q = tail.find("runtime error: ")) != std::string::npos) {
            std::string t = tail.substr(q + 15);
            site = "ubsan:" + t.substr(0, t.find('\n')).substr(0, 60);
          } else if((q = tail.find("ERROR: LeakSanitizer: ")) != std::string::npos) {
            site = "lsan";
          }
          if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed (memory?)\n"); ++internal; }
          else { report(w, site, tail); ++crashes; }
        } else {
          fprintf(stderr, "worker %d died idle: %s\n", w, tail.c_str());
          ++internal;
        }
        if(crashes < 60) spawn(w, -1);
        else { x.dead = true; --alive; }
        continue;
      }
      const uint64_t e = sh->slot[w].execs;
      if(e != x.last || sh->slot[w].scenario != x.scen) { x.last = e; x.scen = sh->slot[w].scenario; x.since = now(); }
      else if(x.scen >= 0 && now() - x.since > hang * (retried.count(x.scen) ? 8 : 1)) {
        any = true;
        kill(x.pid, SIGKILL);
        waitpid(x.pid, &st, 0);
        const int sc = x.scen;
        const int r = rerun_alone(w, 60);
        if(r == 3) { report(w, "hang", "execution did not finish within 60 s run alone"); ++crashes; spawn(w, -1); }
        else if(retried[sc]++ == 0) spawn(w, sc);
        else { report(w, "hang", "execution repeatedly made no progress"); spawn(w, -1); }
      }
    }
    if(!any) usleep(10000);
  }
  fclose(extra);
  // Merge.
  FILE* out = fopen(outf.c_str(), "w");
  auto cat = [&](const std::string& f) {
    if(FILE* in = fopen(f.c_str(), "r")) {
      char b[65536];
      size_t k;
      while((k = fread(b, 1, sizeof b, in)) > 0) fwrite(b, 1, k, out);
      fclose(in);
    }
    unlink(f.c_str());
  };
  for(int w = 0; w < workers; ++w) { cat(wout(w)); unlink(werr(w).c_str()); }
  cat(outf + ".x");
  fclose(out);
  return internal ? 3 : 0;
}
