// Scheduler, race detector and scenarios.  Compiled without instrumentation.
#include "mc.h"
#include "sched.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#ifndef SX_GREEDY
#define SX_GREEDY 0
#endif

extern "C" {
extern char __data_start, _end;
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
}

namespace {

using uptr = uintptr_t;
constexpr int MAXT = 3;

std::vector<sx::Op>& ops() { static std::vector<sx::Op> v; return v; }

// ---------------------------------------------------------------- threads
enum State { READY, BLOCKED, DONE };
struct VC { uint32_t c[MAXT] = {0, 0, 0}; };
void join(VC& a, const VC& b) { for(int i = 0; i < MAXT; ++i) if(b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Thread
{
  State st = DONE;
  const void* on = nullptr; // what it is blocked on
  sem_t go;
  pthread_t th;
  uptr lo = 0, hi = 0;   // stack (with the thread's TLS)
  char* arena = nullptr; // bump heap
  size_t used = 0;
  VC vc;
  int seq[4], nseq = 0; // input sets, in order
  int op = -1;
  sx::Out out[4];
  uint64_t points = 0;
  bool rt = false; // inside the runtime
};
Thread T[MAXT];
int NT = 0;
sem_t g_main;
constexpr size_t ARENA = size_t(4) << 20;

thread_local int me = -1;
bool active() { return me >= 0 && !T[me].rt; }

// ---------------------------------------------------------------- execution record (in the child)
struct Result // shared with the parent
{
  int nchoice;
  int16_t arity[16000];
  char site[96];
  char detail[1200];
  uint64_t shared_reads, shared_writes, syncs, points, hot, accesses;
  int out_n[MAXT][4];
  double out_v[MAXT][4][400];
  bool finished;
};
Result* R = nullptr;
const sx::All* g_in[3];

int choose_rec(int n)
{
  if(R->nchoice < 16000) R->arity[R->nchoice++] = int16_t(n);
  return mc::choose(n);
}

void problem(const char* site, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void problem(const char* site, const char* fmt, ...)
{
  if(R->site[0]) return;
  snprintf(R->site, sizeof R->site, "%s", site);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->detail, sizeof R->detail, fmt, ap);
  va_end(ap);
}
const char* opname(int t)
{
  static char b[MAXT][128];
  snprintf(b[t], 128, "%s/%s", ops()[size_t(T[t].op)].group, ops()[size_t(T[t].op)].name);
  return b[t];
}

// ---------------------------------------------------------------- shadow memory (open addressing, mmap)
struct Acc { uint32_t clk; uint8_t tid, mask, kind; uptr pc; }; // kind: 0 read, 1 write, +2 atomic
struct Cell { uptr key; uint8_t n; Acc a[10]; };
struct SyncCell { const void* key; VC vc; };
constexpr size_t NCELL = 1 << 16, NSYNC = 1 << 10;
Cell* g_cells;
SyncCell* g_sync;
size_t g_ncell = 0;

SyncCell& sync_of(const void* p)
{
  size_t i = (uptr(p) >> 2) * 0x9e3779b97f4a7c15ull >> 40;
  for(;; ++i) {
    SyncCell& c = g_sync[i & (NSYNC - 1)];
    if(!c.key) c.key = p;
    if(c.key == p) return c;
  }
}
Cell& cell_of(uptr g)
{
  size_t i = size_t(g * 0x9e3779b97f4a7c15ull >> 32);
  for(;; ++i) {
    Cell& c = g_cells[i & (NCELL - 1)];
    if(!c.key) {
      if(++g_ncell > NCELL / 2) { fprintf(stderr, "S01: shadow full\n"); _exit(70); }
      c.key = g;
    }
    if(c.key == g) return c;
  }
}

int owner(uptr a) // whose arena, or -1
{
  for(int t = 0; t < NT; ++t) if(a - uptr(T[t].arena) < ARENA) return t;
  return -1;
}
bool in_globals(uptr a) { return a >= uptr(&__data_start) && a < uptr(&_end); }

// ---------------------------------------------------------------- scheduling
int g_hot = 0, g_cold = 0, g_used = 0; // preemption budgets
bool g_deadlock = false;

void pass_to(int t) { sem_post(&T[t].go); }
void wait_turn()
{
  while(sem_wait(&T[me].go) && errno == EINTR) {}
}
int g_spin = 0; // synchronisation points since another thread last ran
// Let another thread run, without a choice: only fairness, against spinning.
void yield_turn()
{
  g_spin = 0;
  for(int d = 1; d < NT; ++d) {
    const int k = (me + d) % NT;
    if(T[k].st == READY) { pass_to(k); wait_turn(); return; }
  }
}
// The running thread offers to be preempted.
void point(bool hot)
{
  Thread& t = T[me];
  ++t.points;
  ++R->points;
  R->hot += hot;
  if(g_used >= g_hot || (!hot && g_used >= g_cold)) return;
  int en[MAXT], n = 0;
  en[n++] = me;
  for(int k = 0; k < NT; ++k) if(k != me && T[k].st == READY) en[n++] = k;
  if(n == 1) return;
  const int c = choose_rec(n);
  if(c == 0) return;
  g_used = hot ? g_used + 1 : 1000; // a preemption inside plain shared reads stands alone
  g_spin = 0;
  pass_to(en[c]);
  wait_turn();
}
// The running thread cannot go on: block (on != 0) or finish.
void give_up(const void* on)
{
  Thread& t = T[me];
  t.st = on ? BLOCKED : DONE;
  t.on = on;
  int en[MAXT], n = 0;
  for(int k = 0; k < NT; ++k) if(T[k].st == READY) en[n++] = k;
  if(n == 0) {
    for(int k = 0; k < NT; ++k) if(T[k].st == BLOCKED) g_deadlock = true;
    if(g_deadlock) { problem("deadlock", "every thread is blocked: %s", opname(me)); R->finished = true; _exit(0); }
    sem_post(&g_main);
    return;
  }
  g_spin = 0;
  pass_to(en[n == 1 ? 0 : choose_rec(n)]);
  if(on) wait_turn();
}
void wake(const void* on)
{
  for(int k = 0; k < NT; ++k) if(T[k].st == BLOCKED && T[k].on == on) T[k].st = READY;
}

struct In
{
  Thread& t;
  In() : t(T[me]) { t.rt = true; }
  ~In() { t.rt = false; }
};

void record(uptr a, size_t n, int kind, uptr pc)
{
  Thread& t = T[me];
  while(n) {
    const uptr g = a >> 3;
    const size_t off = a & 7, k = std::min(n, 8 - off);
    const uint8_t mask = uint8_t(((1u << k) - 1) << off);
    Cell& c = cell_of(g);
    bool put = false;
    for(int i = 0; i < c.n; ++i) {
      Acc& x = c.a[i];
      if(x.tid == me) {
        if(x.kind == kind && x.mask == mask) { x.clk = t.vc.c[me]; x.pc = pc; put = true; }
        continue;
      }
      if(!(x.mask & mask) || !((x.kind | kind) & 1) || (x.kind & kind & 2)) continue;
      if(x.clk > t.vc.c[x.tid])
        problem("race", "%s by %s (T%d, pc %#zx) and %s by %s (T%d, pc %#zx) of the same %s at %#zx are not ordered",
          x.kind & 1 ? "write" : "read", opname(x.tid), x.tid, size_t(x.pc), kind & 1 ? "write" : "read", opname(me), me, size_t(pc),
          in_globals(a) ? "static object" : owner(a) >= 0 ? "heap object" : "shared object", size_t(a));
    }
    if(!put) {
      if(c.n < 10) c.a[c.n++] = Acc{t.vc.c[me], uint8_t(me), mask, uint8_t(kind), pc};
      else c.a[g % 10] = Acc{t.vc.c[me], uint8_t(me), mask, uint8_t(kind), pc};
    }
    a += k;
    n -= k;
  }
}

// A plain access by library code.
void access(uptr a, size_t n, bool write, uptr pc)
{
  if(me < 0 || T[me].rt || !n) return;
  Thread& t = T[me];
  ++R->accesses;
  if(a >= t.lo && a < t.hi) return; // own stack, own TLS
  In in;
  for(int k = 0; k < NT; ++k)
    if(k != me && a >= T[k].lo && a < T[k].hi)
      problem("foreign-stack", "%s touches the stack of the thread running %s", opname(me), opname(k));
  const int ow = owner(a);
  if(ow != me) {
    const bool hot = in_globals(a) || ow >= 0 || write;
    if(write) ++R->shared_writes; else ++R->shared_reads;
    point(hot);
  }
  record(a, n, write, pc);
}

void acquire(const void* p) { join(T[me].vc, sync_of(p).vc); }
void release(const void* p, bool rmw)
{
  VC& v = sync_of(p).vc;
  if(rmw) join(v, T[me].vc); else v = T[me].vc;
  ++T[me].vc.c[me];
}
void sync_point() { ++R->syncs; if(++g_spin > 2000) yield_turn(); point(true); }

// mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
void atomic_pre(const volatile void* p, size_t n, bool write, int mo, bool rd, uptr pc)
{
  sync_point();
  record(uptr(p), n, (write ? 1 : 0) | 2, pc);
  if(rd && (mo == 1 || mo == 2 || mo >= 4)) acquire(const_cast<const void*>(p));
  if(write && mo >= 3) release(const_cast<const void*>(p), rd);
  else if(write && !rd) sync_of(const_cast<const void*>(p)).vc = VC(); // a relaxed store starts no release sequence
}

} // namespace

// ---------------------------------------------------------------- instrumentation entry points
#define PC uptr(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                  \
  void __tsan_read##n(void* p) { access(uptr(p), n, false, PC); }              \
  void __tsan_write##n(void* p) { access(uptr(p), n, true, PC); }              \
  void __tsan_unaligned_read##n(void* p) { access(uptr(p), n, false, PC); }    \
  void __tsan_unaligned_write##n(void* p) { access(uptr(p), n, true, PC); }    \
  void __tsan_volatile_read##n(void* p) { access(uptr(p), n, false, PC); }     \
  void __tsan_volatile_write##n(void* p) { access(uptr(p), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(uptr(p), n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(uptr(p), n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(uptr(p), 8, true, PC); }
void __tsan_vptr_read(void** p) { access(uptr(p), 8, false, PC); }

#define ATOM(bits, type)                                                       \
  type __tsan_atomic##bits##_load(const volatile type* p, int mo)              \
  {                                                                            \
    if(!active()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                 \
    In in; atomic_pre(p, sizeof *p, false, mo, true, PC);                      \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile type* p, type v, int mo)           \
  {                                                                            \
    if(!active()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }        \
    In in; atomic_pre(p, sizeof *p, true, mo, false, PC);                      \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo)        \
  {                                                                            \
    if(!active()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);          \
    In in; atomic_pre(p, sizeof *p, true, mo, true, PC);                       \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  RMW(bits, type, add) RMW(bits, type, sub) RMW(bits, type, and)               \
  RMW(bits, type, or) RMW(bits, type, xor) RMW(bits, type, nand)               \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int fmo) \
  {                                                                            \
    if(!active()) return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    In in; sync_point();                                                       \
    const bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    const int m = ok ? mo : fmo;                                               \
    record(uptr(p), sizeof *p, (ok ? 1 : 0) | 2, PC);                          \
    if(m == 1 || m == 2 || m >= 4) acquire(const_cast<const type*>(p));        \
    if(ok && m >= 3) release(const_cast<const type*>(p), true);                \
    return ok;                                                                 \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fmo) \
  { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); }
#define RMW(bits, type, op)                                                    \
  type __tsan_atomic##bits##_fetch_##op(volatile type* p, type v, int mo)      \
  {                                                                            \
    if(!active()) return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);          \
    In in; atomic_pre(p, sizeof *p, true, mo, true, PC);                       \
    return __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST);                        \
  }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  // Treated as sequentially consistent through one global object.
  static char fence;
  if(!active()) return;
  In in; sync_point(); acquire(&fence); release(&fence, true);
}
void __tsan_atomic_signal_fence(int) {}

void* __wrap_memcpy(void* d, const void* s, size_t n) { access(uptr(s), n, false, PC); access(uptr(d), n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(uptr(s), n, false, PC); access(uptr(d), n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(uptr(d), n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(uptr(a), n, false, PC); access(uptr(b), n, false, PC); return __real_memcmp(a, b, n); }

// Locks. One word of state per lock address is kept in the sync table's key order.
struct LockState { const void* m; int owner; int depth; };
static LockState g_locks[64];
static LockState& lock_of(const void* m)
{
  for(LockState& l : g_locks) { if(!l.m) { l.m = m; l.owner = -1; } if(l.m == m) return l; }
  fprintf(stderr, "S01: too many locks\n"); _exit(70);
}
static int lock(const void* m, bool recursive, bool try_only)
{
  In in;
  sync_point();
  LockState& l = lock_of(m);
  while(l.owner >= 0 && !(recursive && l.owner == me)) {
    if(try_only) return EBUSY;
    if(l.owner == me) { problem("deadlock", "%s locks the same mutex twice", opname(me)); }
    give_up(m);
  }
  l.owner = me;
  ++l.depth;
  acquire(m);
  return 0;
}
static int unlock(const void* m)
{
  In in;
  LockState& l = lock_of(m);
  if(--l.depth == 0) { l.owner = -1; release(m, false); wake(m); }
  sync_point();
  return 0;
}
static bool is_recursive(pthread_mutex_t* m) { return m->__data.__kind & 1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return active() ? lock(m, is_recursive(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return active() ? lock(m, is_recursive(m), true) : 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return active() ? unlock(m) : __real_pthread_mutex_unlock(m); }
// Readers exclude each other here: fewer interleavings, same ordering guarantees.
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return active() ? lock(m, true, false) : 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return active() ? lock(m, false, false) : 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return active() ? unlock(m) : 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return active() ? lock(const_cast<int*>(m), false, false) : 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return active() ? unlock(const_cast<int*>(m)) : 0; }
int __wrap_sched_yield() { if(active()) { In in; yield_turn(); } return 0; }

int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
  volatile int* s = reinterpret_cast<volatile int*>(o); // 2: done (glibc), 1 busy
  if(!active()) { if(*s != 2) { f(); *s = 2; } return 0; }
  for(;;) {
    bool run = false;
    {
      In in;
      sync_point();
      if(*s == 2) { acquire(o); return 0; }
      if(*s == 0) { *s = 1; run = true; } else give_up(o);
    }
    if(run) {
      try { f(); } catch(...) { In in; *s = 0; release(o, false); wake(o); throw; }
      In in;
      *s = 2;
      release(o, false);
      wake(o);
      return 0;
    }
  }
}

// Function-local statics: byte 0 of the guard is the "done" flag, byte 1 "busy".
int __wrap___cxa_guard_acquire(volatile uint8_t* g)
{
  if(me < 0) { if(g[0]) return 0; g[1] = 1; return 1; }
  In in;
  for(;;) {
    sync_point();
    if(g[0]) { acquire(const_cast<uint8_t*>(g)); return 0; }
    if(!g[1]) { g[1] = 1; return 1; }
    give_up(const_cast<uint8_t*>(g));
  }
}
void __wrap___cxa_guard_release(volatile uint8_t* g)
{
  if(me < 0) { g[0] = 1; g[1] = 0; return; }
  In in;
  g[0] = 1;
  g[1] = 0;
  release(const_cast<uint8_t*>(g), false);
  wake(const_cast<uint8_t*>(g));
  sync_point();
}
void __wrap___cxa_guard_abort(volatile uint8_t* g)
{
  g[1] = 0;
  if(me < 0) return;
  In in;
  release(const_cast<uint8_t*>(g), false);
  wake(const_cast<uint8_t*>(g));
}

// Every scheduled thread has a private bump heap, so that reuse of freed memory orders nothing and races with nothing.
static void* bump(size_t n, size_t al)
{
  Thread& t = T[me];
  size_t u = (t.used + 16 + al - 1) / al * al;
  if(u + n > ARENA) { errno = ENOMEM; return nullptr; }
  t.used = u + n;
  *reinterpret_cast<size_t*>(t.arena + u - 8) = n;
  return t.arena + u;
}
static int arena_of(void* p) { for(int k = 0; k < MAXT; ++k) if(T[k].arena && uptr(p) - uptr(T[k].arena) < ARENA) return k; return -1; }
void* malloc(size_t n) { return me < 0 ? __libc_malloc(n) : bump(n, 16); }
void free(void* p)
{
  if(!p) return;
  if(arena_of(p) < 0) { __libc_free(p); return; }
  if(active()) access(uptr(p), reinterpret_cast<size_t*>(p)[-1], true, PC);
}
void* calloc(size_t a, size_t b)
{
  if(me < 0) return __libc_calloc(a, b);
  void* p = bump(a * b, 16);
  if(p) __real_memset(p, 0, a * b);
  return p;
}
void* realloc(void* p, size_t n)
{
  if(me < 0 && (!p || arena_of(p) < 0)) return __libc_realloc(p, n);
  void* q = malloc(n);
  if(p && q) { const size_t o = arena_of(p) >= 0 ? reinterpret_cast<size_t*>(p)[-1] : n; __real_memcpy(q, p, std::min(o, n)); }
  return q;
}
void* memalign(size_t al, size_t n) { return me < 0 ? __libc_memalign(al, n) : bump(n, std::max<size_t>(al, 16)); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
} // extern "C"

namespace {

// ---------------------------------------------------------------- one execution
void* body(void* arg)
{
  const int k = int(reinterpret_cast<intptr_t>(arg));
  Thread& t = T[k];
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void* lo;
  size_t sz;
  pthread_attr_getstack(&at, &lo, &sz);
  pthread_attr_destroy(&at);
  t.lo = uptr(lo);
  t.hi = t.lo + sz;
  sem_post(&g_main); // ready
  while(sem_wait(&t.go) && errno == EINTR) {}
  me = k;
  const sx::Op& op = ops()[size_t(t.op)];
  for(int i = 0; i < t.nseq; ++i) {
    sx::Out o; // own stack
    o.n = 0;
    op.call(op.fn, *g_in[t.seq[i]], o);
    __real_memcpy(&t.out[i], &o, sizeof o);
  }
  T[me].rt = true;
  give_up(nullptr);
  me = -1;
  return nullptr;
}

struct Plan
{
  int nt;
  int op[MAXT];
  int nseq[MAXT];
  int seq[MAXT][4];
  int hot, cold;
  bool warm;
};

void child(const Plan& p)
{
  alarm(60);
  g_cells = static_cast<Cell*>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_sync = static_cast<SyncCell*>(mmap(nullptr, NSYNC * sizeof(SyncCell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for(int k = 0; k < 3; ++k) g_in[k] = sx::make_inputs(k);
  static sx::Out scratch;
  if(p.warm)
    for(int k = 0; k < p.nt; ++k) { scratch.n = 0; ops()[size_t(p.op[k])].call(ops()[size_t(p.op[k])].fn, *g_in[2], scratch); }
  NT = p.nt;
  g_hot = p.hot;
  g_cold = p.cold;
  g_used = 0;
  sem_init(&g_main, 0, 0);
  for(int k = 0; k < NT; ++k) {
    Thread& t = T[k];
    t.op = p.op[k];
    t.nseq = p.nseq[k];
    for(int i = 0; i < t.nseq; ++i) t.seq[i] = p.seq[k][i];
    t.arena = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    t.vc.c[k] = 1;
    t.st = READY;
    sem_init(&t.go, 0, 0);
    if(__real_pthread_create(&t.th, nullptr, body, reinterpret_cast<void*>(intptr_t(k)))) { fprintf(stderr, "S01: no thread\n"); _exit(70); }
  }
  for(int k = 0; k < NT; ++k) while(sem_wait(&g_main) && errno == EINTR) {}
  const int first = NT > 1 ? choose_rec(NT) : 0;
  pass_to(first);
  while(sem_wait(&g_main) && errno == EINTR) {}
  for(int k = 0; k < NT; ++k)
    for(int i = 0; i < T[k].nseq; ++i) {
      R->out_n[k][i] = T[k].out[i].n;
      __real_memcpy(R->out_v[k][i], T[k].out[i].v, sizeof(double) * size_t(std::min(400, T[k].out[i].n)));
    }
  R->finished = true;
  _exit(0);
}

// Runs a plan in a fresh process, so that every static of the library is uninitialised again.
void execute(const Plan& p)
{
  if(!R) R = static_cast<Result*>(mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  R->nchoice = 0;
  R->site[0] = R->detail[0] = 0;
  R->finished = false;
  R->shared_reads = R->shared_writes = R->syncs = R->points = R->hot = R->accesses = 0;
  fflush(nullptr);
  const pid_t pid = fork();
  if(pid < 0) { perror("fork"); _exit(70); }
  if(pid == 0) { child(p); _exit(0); }
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if(!R->finished && WIFEXITED(st) && WEXITSTATUS(st) == 70) { fprintf(stderr, "S01: runtime limit\n"); abort(); }
  // The parent's explorer sees the same choices.
  const int n = R->nchoice;
  for(int i = 0; i < n; ++i) mc::choose(R->arity[i]);
  if(!R->finished) {
    if(R->site[0]) return;
    if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(R->site, sizeof R->site, "hang"); snprintf(R->detail, sizeof R->detail, "an execution did not finish in 60 s"); }
    else { snprintf(R->site, sizeof R->site, "crash"); snprintf(R->detail, sizeof R->detail, "status %d", st); }
  }
}

// ---------------------------------------------------------------- single-threaded answers
struct Alone { bool done = false; std::vector<double> v[3]; uint64_t syncs = 0, writes = 0, reads = 0, hot = 0, points = 0, accesses = 0; std::string site, detail; };
std::vector<Alone>& alone_tab() { static std::vector<Alone> v(ops().size()); return v; }
const Alone& alone(int op)
{
  Alone& a = alone_tab()[size_t(op)];
  if(a.done) return a;
  a.done = true;
  for(int k = 0; k < 3; ++k) {
    Plan p{};
    p.nt = 1, p.op[0] = op, p.nseq[0] = 1, p.seq[0][0] = k;
    execute(p);
    if(R->site[0]) { a.site = R->site; a.detail = R->detail; }
    a.v[k].assign(R->out_v[0][0], R->out_v[0][0] + std::min(400, R->out_n[0][0]));
    a.syncs += R->syncs, a.writes += R->shared_writes, a.reads += R->shared_reads, a.accesses += R->accesses, a.hot = std::max(a.hot, R->hot), a.points = std::max(a.points, R->points);
  }
  return a;
}
bool interacts(int op) { const Alone& a = alone(op); return a.syncs || a.writes; }

std::string full(int op) { return std::string(ops()[size_t(op)].group) + "/" + ops()[size_t(op)].name; }

void run_plan(const Plan& p, const char* what)
{
  for(int k = 0; k < p.nt; ++k) alone(p.op[k]);
  execute(p);
  mc::step(uint64_t(p.nt));
  MC_TRACE(what << " points " << R->points << " accesses " << R->accesses << " reads " << R->shared_reads << " writes " << R->shared_writes << " syncs " << R->syncs);
  MC_CHECK(!R->site[0], std::string(R->site), R->detail);
  mc::Hash h;
  for(int k = 0; k < p.nt; ++k)
    for(int i = 0; i < p.nseq[k]; ++i) {
      if(ops()[size_t(p.op[k])].random) continue;
      const std::vector<double>& want = alone(p.op[k]).v[p.seq[k][i]];
      const int n = std::min(400, R->out_n[k][i]);
      h(n);
      MC_CHECK(n == int(want.size()), "result", "thread " << k << " running " << full(p.op[k]) << ": " << n << " values, " << want.size() << " when alone");
      for(int j = 0; j < n; ++j) {
        const double g = R->out_v[k][i][j], w = want[size_t(j)];
        MC_CHECK(memcmp(&g, &w, 8) == 0, "result",
          "thread " << k << " running " << full(p.op[k]) << " call " << i << ": value " << j << " is " << g << ", " << w << " in a single-threaded run");
        h(g);
      }
    }
  h(int(R->shared_reads))(int(R->syncs));
  mc::state(h);
}

// How many preemptions are affordable: the numbers of hot and cold points of
// the whole execution decide, so that the answer is the same on every run.
void budgets(Plan& p)
{
  double h = 0, c = 0, calls = 0;
  for(int k = 0; k < p.nt; ++k) {
    const Alone& a = alone(p.op[k]);
    h += double(a.hot) * p.nseq[k], c += double(a.points - a.hot) * p.nseq[k], calls += p.nseq[k];
  }
  const double limit = mc::thorough() ? 60000 : 3000, w = p.nt - 1;
  h *= w, c *= w;
  p.hot = h == 0 ? 0 : h * h * h / 6 + c < limit ? 3 : h * h / 2 + c < limit ? 2 : 1;
  if(p.hot == 3 && !mc::thorough()) p.hot = h < 20 ? 3 : 2;
  p.cold = c + h < 20000 ? 1 : 0;
  if(p.cold && p.hot == 0) p.hot = 1;
}

void footprint(int op)
{
  const Alone& a = alone(op);
  mc::step(3);
  MC_TRACE("accesses " << a.accesses << " shared reads " << a.reads << " shared writes " << a.writes << " syncs " << a.syncs);
  MC_CHECK(a.site.empty(), a.site, a.detail);
  // A reader of shared inputs must not write to them; a race with itself shows any other shared write.
  mc::Hash h;
  for(int k = 0; k < 3; ++k) for(double d : a.v[k]) h(d);
  mc::state(h);
}

void self(int op)
{
  Plan p{};
  p.nt = 2;
  const int v = mc::choose(3); // same inputs cold, different inputs cold, different inputs warm
  for(int k = 0; k < 2; ++k) {
    p.op[k] = op;
    p.nseq[k] = interacts(op) ? 2 : 1;
    p.seq[k][0] = v == 0 ? 0 : k;
    p.seq[k][1] = v == 0 ? 0 : 1 - k;
  }
  p.warm = v == 2;
  budgets(p);
  if(v == 2 && !interacts(op)) p.hot = p.cold = 0;
  run_plan(p, "self");
}

void three(int op)
{
  Plan p{};
  p.nt = 3;
  for(int k = 0; k < 3; ++k) p.op[k] = op, p.nseq[k] = 1, p.seq[k][0] = k;
  budgets(p);
  if(!mc::thorough()) p.cold = 0, p.hot = interacts(op) ? std::min(p.hot, 2) : 0;
  run_plan(p, "three");
}

void mix(int op)
{
  const int n = int(ops().size());
  const bool ia = interacts(op);
  std::vector<int> others;
  for(int k = 0; k < n; ++k) {
    if(k == op) continue;
    if(ia ? interacts(k) : k > op && (mc::thorough() || (k - op) % 7 == 1)) others.push_back(k);
  }
  if(others.empty()) return;
  const int q = others[size_t(mc::choose(int(others.size())))];
  Plan p{};
  p.nt = 2;
  p.op[0] = op, p.op[1] = q;
  for(int k = 0; k < 2; ++k) p.nseq[k] = 1, p.seq[k][0] = k;
  if(ia) budgets(p);
  p.cold = 0;
  run_plan(p, "mix");
}

} // namespace

namespace sx {
void reg(const Op& op)
{
  const int k = int(ops().size());
  ops().push_back(op);
  const std::string n = std::string(op.group) + "/" + op.name;
  mc::add("alone/" + n, [k] { footprint(k); });
  mc::add("self/" + n, [k] { self(k); });
  mc::add("three/" + n, [k] { three(k); });
  mc::add("mix/" + n, [k] { mix(k); });
}
} // namespace sx
