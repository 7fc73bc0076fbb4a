#include "sched_rt.h"

#include <dlfcn.h>
#include <execinfo.h>
#include <limits.h>
#include <malloc.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <new>

namespace {
const int kMaxThreads = 6;
typedef uint32_t Clock;
struct VC {
  Clock c[kMaxThreads] = {};
  void join(const VC& o) {
    for (int i = 0; i < kMaxThreads; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

// A binary semaphore on a futex.
struct Sem {
  std::atomic<int> v{0};
  void wait() {
    for (;;) {
      int one = 1;
      if (v.compare_exchange_strong(one, 0)) return;
      for (int i = 0; i < 200; ++i)
        if (v.load() == 1) break;
      if (v.load() == 0) syscall(SYS_futex, &v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    }
  }
  void post() {
    v.store(1);
    syscall(SYS_futex, &v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
  }
};

enum State { kReady, kBlocked, kDone };
struct Thread {
  Sem sem;
  pthread_t pt;
  State st = kReady;
  const void* waits = nullptr;  // the lock it waits for
  bool wants_shared = false;
  VC vc;
  std::function<void()> body;
  bool spinning = false;  // declared: nothing to do until another thread has run
};

struct Lock {
  int owner = -1;
  int depth = 0;
  bool shared[kMaxThreads] = {};
  VC rel;
  int readers() const {
    int n = 0;
    for (bool b : shared) n += b;
    return n;
  }
};

struct PointRec {
  std::vector<int> enabled;
  int running;  // thread running there, -1 if it cannot go on
  int chosen;   // index into enabled
};

struct Sched {
  vs::Options o;
  int n = 0;
  Thread* th = nullptr;
  Sem main;
  std::map<const void*, Lock> locks;
  std::map<const void*, VC> atomics;
  std::vector<int> prefix;
  std::vector<PointRec> points;
  std::string bad;
  uint64_t accesses = 0;
} g;
thread_local int t_id = -1;        // controlled thread
thread_local int t_in = 0;         // inside the run-time
thread_local uint32_t t_calls = 0;
std::atomic<bool> g_active{false};

struct In {
  In() { ++t_in; }
  ~In() { --t_in; }
};
bool live() { return t_id >= 0 && t_in == 0; }

void give_up(const std::string& why) {
  if (g.bad.empty()) g.bad = why;
}

bool runnable(int i) {
  Thread& t = g.th[i];
  if (t.st == kDone) return false;
  if (!t.waits) return true;
  Lock& l = g.locks[t.waits];
  if (t.wants_shared) return l.owner < 0;
  return (l.owner < 0 || l.owner == i) && l.readers() == 0;
}

// Called by the running thread (or by main with cur = -1): decides who goes on.
void reschedule(int cur, bool cur_can_go_on, bool voluntary) {
  std::vector<int> en;
  bool spin = cur >= 0 && g.th[cur].spinning;
  if (cur >= 0 && cur_can_go_on && !spin) en.push_back(cur);
  for (int i = 0; i < g.n; ++i)
    if (i != cur && runnable(i)) en.push_back(i);
  if (cur >= 0 && cur_can_go_on && spin) en.push_back(cur);
  if (en.empty()) {
    bool alive = false;
    for (int i = 0; i < g.n; ++i) alive |= g.th[i].st != kDone;
    if (alive) {
      std::string s = "deadlock:";
      for (int i = 0; i < g.n; ++i) s += g.th[i].st == kDone ? " done" : " waiting";
      give_up(s);
    }
    g.main.post();
    return;
  }
  int k = 0;
  if (en.size() > 1) {
    if (g.points.size() < g.prefix.size()) {
      k = g.prefix[g.points.size()];
      if (k >= (int)en.size()) {
        fprintf(stderr, "sched: replay diverges\n");
        abort();
      }
    }
    if (g.points.size() > 2000000) {
      give_up("the execution does not end (2000000 scheduling points)");
      g.main.post();
      if (cur >= 0 && g.th[cur].st != kDone)
        for (;;) pause();
      return;
    }
    PointRec r;
    r.enabled = en;
    r.running = cur_can_go_on && !spin ? cur : -1;
    r.chosen = k;
    g.points.push_back(r);
  }
  int next = en[k];
  if (next == cur) return;
  g.th[next].sem.post();
  if (cur >= 0 && g.th[cur].st != kDone) g.th[cur].sem.wait();
}

void point() {
  if (!live()) return;
  In in;
  reschedule(t_id, true, true);
  g.th[t_id].spinning = false;
}
void yield_point() {
  if (!live()) return;
  In in;
  g.th[t_id].spinning = true;
  reschedule(t_id, true, true);
  g.th[t_id].spinning = false;
}

// ---- shadow memory, per byte
struct Cell {
  uintptr_t addr;
  uint32_t gen;
  int8_t wtid;
  Clock w;
  Clock r[kMaxThreads];
};
Cell* g_cells = nullptr;
size_t g_mask = 0, g_used = 0;
uint32_t g_gen = 0;
Cell* find_cell(uintptr_t a, bool make) {
  size_t i = (a + (a >> 16) * 0x9E3779B97F4A7C15ULL % 1021 * 512) & g_mask;  // neighbours stay neighbours
  for (;;) {
    Cell& c = g_cells[i];
    if (c.gen != g_gen) {
      if (!make) return nullptr;
      if (g_used * 2 > g_mask) return nullptr;  // full: the table is sized for the harnesses
      ++g_used;
      memset(&c, 0, sizeof c);
      c.addr = a;
      c.gen = g_gen;
      c.wtid = -1;
      return &c;
    }
    if (c.addr == a) return &c;
    i = (i + 1) & g_mask;
  }
}
std::string where(const void* pc) {
  Dl_info d = {};
  char b[200];
  if (dladdr(pc, &d) && d.dli_sname) snprintf(b, sizeof b, "%s", d.dli_sname);
  else if (d.dli_fbase) snprintf(b, sizeof b, "+%#zx", (size_t)((const char*)pc - (const char*)d.dli_fbase));
  else snprintf(b, sizeof b, "%p", pc);
  return b;
}
void access(uintptr_t a, size_t n, bool write, const void* pc) {
  if (!live()) return;
  In in;
  ++g.accesses;
  int me = t_id;
  VC& vc = g.th[me].vc;
  for (size_t k = 0; k < n; ++k) {
    Cell* c = find_cell(a + k, true);
    if (!c) return give_up("shadow memory exhausted");
    if (c->wtid >= 0 && c->wtid != me && c->w > vc.c[c->wtid])
      return give_up(std::string("data race: ") + (write ? "write" : "read") + " of thread " + std::to_string(me) + " is concurrent with a write of thread " + std::to_string(c->wtid) + " (in " + where(pc) + ")");
    if (write) {
      for (int i = 0; i < g.n; ++i)
        if (i != me && c->r[i] > vc.c[i])
          return give_up(std::string("data race: write of thread ") + std::to_string(me) + " is concurrent with a read of thread " + std::to_string(i) + " (in " + where(pc) + ")");
      c->wtid = me;
      c->w = vc.c[me];
    } else {
      c->r[me] = vc.c[me];
    }
  }
}
void forget(uintptr_t a, size_t n) {
  for (size_t k = 0; k < n; ++k) {
    Cell* c = find_cell(a + k, false);
    if (!c) continue;
    c->wtid = -1;
    c->w = 0;
    memset(c->r, 0, sizeof c->r);
  }
}
void sync_acquire(const void* p) {
  In in;
  auto it = g.atomics.find(p);
  if (it != g.atomics.end()) g.th[t_id].vc.join(it->second);
}
void sync_release(const void* p, bool join) {
  In in;
  VC& vc = g.th[t_id].vc;
  VC& a = g.atomics[p];
  if (join) a.join(vc);
  else a = vc;
  ++vc.c[t_id];
}

// ---- locks
void lock(const void* m, bool shared, bool recursive) {
  In in;
  Thread& t = g.th[t_id];
  reschedule(t_id, true, true);  // a scheduling point before the lock
  Lock& l = g.locks[m];
  if (l.owner == t_id && !shared && recursive) {
    ++l.depth;
    return;
  }
  t.waits = m;
  t.wants_shared = shared;
  while (shared ? l.owner >= 0 : (l.owner >= 0 || l.readers() > 0)) {
    reschedule(t_id, false, false);
  }
  t.waits = nullptr;
  if (shared) l.shared[t_id] = true;
  else l.owner = t_id, l.depth = 1;
  t.vc.join(l.rel);
}
bool try_lock(const void* m, bool shared) {
  In in;
  reschedule(t_id, true, true);
  Lock& l = g.locks[m];
  if (shared ? l.owner >= 0 : (l.owner >= 0 || l.readers() > 0)) return false;
  if (shared) l.shared[t_id] = true;
  else l.owner = t_id, l.depth = 1;
  g.th[t_id].vc.join(l.rel);
  return true;
}
void unlock(const void* m) {
  {
    In in;
    Lock& l = g.locks[m];
    if (l.owner == t_id && --l.depth > 0) return;
    Thread& t = g.th[t_id];
    l.rel.join(t.vc);
    ++t.vc.c[t_id];
    if (l.owner == t_id) l.owner = -1;
    l.shared[t_id] = false;
  }
  point();
}

template <class F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void* entry(void* p) {
  int id = (int)(intptr_t)p;
  ++t_in;
  t_id = id;
  g.th[id].sem.wait();
  --t_in;
  g.th[id].body();
  ++t_in;
  g.th[id].st = kDone;
  t_id = -1;  // thread-local destructors run uncontrolled
  reschedule(id, false, false);
  return nullptr;
}
}  // namespace

namespace vs {
void Point() { point(); }
uint64_t ScheduleHash() {
  uint64_t h = 1469598103934665603ull;
  for (auto& p : g.points) h = (h ^ (uint64_t)(p.chosen + 1)) * 1099511628211ull;
  return h ^ h >> 29;
}
std::string LastSchedule() {
  std::string s;
  int last = -2;
  size_t k = 0;
  for (auto& p : g.points) {
    ++k;
    int who = p.enabled[p.chosen];
    if (who != last) {
      s += (s.empty() ? "" : ", ") + std::string("thread ") + std::to_string(who) + " at point " + std::to_string(k - 1);
      last = who;
    }
  }
  return s;
}

// One execution along g.prefix.
static std::string execute(const Options& o, const std::function<std::vector<std::function<void()>>()>& before, const std::function<std::string()>& after) {
  if (!g_cells) {
    g_mask = (1u << 19) - 1;
    g_cells = static_cast<Cell*>(calloc(g_mask + 1, sizeof(Cell)));
  }
  auto bodies = before();
  g.o = o;
  g.n = bodies.size();
  g.th = new Thread[g.n];
  g.locks.clear();
  g.atomics.clear();
  g.points.clear();
  g.bad.clear();
  g.accesses = 0;
  ++g_gen;
  g_used = 0;
  for (int i = 0; i < g.n; ++i) {
    g.th[i].body = bodies[i];
    g.th[i].vc.c[i] = 1;
  }
  for (int i = 0; i < g.n; ++i) pthread_create(&g.th[i].pt, nullptr, entry, (void*)(intptr_t)i);
  g_active.store(true);
  reschedule(-1, false, false);
  g.main.wait();
  std::string bad = g.bad;
  if (bad.compare(0, 8, "deadlock") == 0 || bad.compare(0, 13, "the execution") == 0) return bad;  // its threads never end
  for (int i = 0; i < g.n; ++i) pthread_join(g.th[i].pt, nullptr);
  g_active.store(false);
  delete[] g.th;
  g.th = nullptr;
  if (bad.empty()) bad = after();
  return bad;
}

struct Passed {  // what an execution in another process reports
  bool done;
  char bad[3000];
  uint64_t accesses, n;
  struct P {
    int8_t n, enabled[kMaxThreads], running, chosen;
  } p[1 << 16];
};
static std::string execute_cold(const Options& o, const std::function<std::vector<std::function<void()>>()>& before, const std::function<std::string()>& after) {
  static Passed* sh = static_cast<Passed*>(mmap(nullptr, sizeof(Passed), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sh->done = false;
  pid_t pid = fork();
  if (pid == 0) {
    std::string bad = execute(o, before, after);
    snprintf(sh->bad, sizeof sh->bad, "%s", bad.c_str());
    sh->accesses = g.accesses;
    sh->n = g.points.size();
    for (size_t i = 0; i < sh->n && i < (1 << 16); ++i) {
      sh->p[i].n = g.points[i].enabled.size();
      for (int k = 0; k < sh->p[i].n; ++k) sh->p[i].enabled[k] = g.points[i].enabled[k];
      sh->p[i].running = g.points[i].running;
      sh->p[i].chosen = g.points[i].chosen;
    }
    sh->done = true;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) != pid) {
  }
  if (!sh->done) return WIFSIGNALED(st) ? std::string("crashed: ") + strsignal(WTERMSIG(st)) : "ended with exit code " + std::to_string(WEXITSTATUS(st));
  if (sh->n > (1 << 16)) return "the execution has too many scheduling points";
  g.accesses = sh->accesses;
  g.points.clear();
  for (size_t i = 0; i < sh->n; ++i) {
    PointRec r;
    for (int k = 0; k < sh->p[i].n; ++k) r.enabled.push_back(sh->p[i].enabled[k]);
    r.running = sh->p[i].running;
    r.chosen = sh->p[i].chosen;
    g.points.push_back(r);
  }
  return sh->bad;
}

std::string Explore(const Options& o, const std::function<std::vector<std::function<void()>>()>& before, const std::function<std::string()>& after, Stats* st, const std::function<void()>& beat) {
  std::vector<int> prefix;
  for (;;) {
    g.prefix = prefix;
    std::string bad = o.cold ? execute_cold(o, before, after) : execute(o, before, after);
    ++st->executions;
    st->points += g.points.size();
    st->accesses += g.accesses;
    if (g.points.size() > st->max_points) st->max_points = g.points.size();
    if (beat) beat();
    if (!bad.empty()) return bad;
    // The next schedule: depth first, last choice first.
    std::vector<PointRec>& ps = g.points;
    std::vector<int> cost(ps.size() + 1, 0);
    for (size_t i = 0; i < ps.size(); ++i) cost[i + 1] = cost[i] + (ps[i].running >= 0 && ps[i].enabled[ps[i].chosen] != ps[i].running);
    size_t i = ps.size();
    bool found = false;
    while (i-- > 0) {
      for (int alt = ps[i].chosen + 1; alt < (int)ps[i].enabled.size(); ++alt) {
        int c = cost[i] + (ps[i].running >= 0 && ps[i].enabled[alt] != ps[i].running);
        if (c > o.preemptions) continue;
        prefix.clear();
        for (size_t k = 0; k < i; ++k) prefix.push_back(ps[k].chosen);
        prefix.push_back(alt);
        found = true;
        break;
      }
      if (found) break;
    }
    if (!found) return "";
    if (o.stop && o.stop()) {
      st->capped = true;
      return "";
    }
  }
}
}  // namespace vs

// ---- what instrumented code calls
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
  if (live() && g.o.at_functions && ++t_calls % g.o.every == 0) point();
}
void __tsan_func_exit() {}
#define RW(n)                                                                           \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); }                  \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); }                  \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); }        \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); }        \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); }         \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }         \
  void __tsan_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); }             \
  void __tsan_unaligned_read_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) {
  if (*a != v) access((uintptr_t)a, 8, true, PC);
}
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access((uintptr_t)s, n, false, PC);
  access((uintptr_t)d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  access((uintptr_t)s, n, false, PC);
  access((uintptr_t)d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  access((uintptr_t)d, n, true, PC);
  return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// Atomics: sequentially consistent exploration; acquire and release edges as the code asks for them.
static thread_local const void* spin_addr = nullptr;
static thread_local int spin_count = 0;
static void before_atomic(const volatile void* a, bool load) {
  if (!live()) return;
  if (load && spin_addr == (const void*)a) {
    if (++spin_count > 20) return yield_point();  // polling: let the others go on
  } else {
    spin_addr = (const void*)a;
    spin_count = 0;
  }
  point();
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define ATOMIC(T, N)                                                                                              \
  T __tsan_atomic##N##_load(const volatile T* a, int mo) {                                                        \
    before_atomic(a, true);                                                                                       \
    if (live() && acq(mo)) sync_acquire((const void*)a);                                                          \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
  }                                                                                                               \
  void __tsan_atomic##N##_store(volatile T* a, T v, int mo) {                                                     \
    before_atomic(a, false);                                                                                      \
    if (live() && rel(mo)) sync_release((const void*)a, false);                                                   \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                     \
  }                                                                                                               \
  static void rmw##N(volatile T* a, int mo) {                                                                     \
    if (!live()) return;                                                                                          \
    if (acq(mo)) sync_acquire((const void*)a);                                                                    \
    if (rel(mo)) sync_release((const void*)a, true);                                                              \
  }                                                                                                               \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) {                                                     \
    before_atomic(a, true);                                                                                       \
    rmw##N(a, mo);                                                                                                \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                           \
  }                                                                                                               \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) {                                                    \
    before_atomic(a, false);                                                                                      \
    rmw##N(a, mo);                                                                                                \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                               \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) {                                                    \
    before_atomic(a, false);                                                                                      \
    rmw##N(a, mo);                                                                                                \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                               \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) {                                                    \
    before_atomic(a, false);                                                                                      \
    rmw##N(a, mo);                                                                                                \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                               \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) {                                                     \
    before_atomic(a, false);                                                                                      \
    rmw##N(a, mo);                                                                                                \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                             \
  }                                                                                                               \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) {                                                    \
    before_atomic(a, false);                                                                                      \
    rmw##N(a, mo);                                                                                                \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                               \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {                     \
    before_atomic(a, true);                                                                                       \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                    \
    if (ok) rmw##N(a, mo);                                                                                        \
    else if (live() && acq(fmo)) sync_acquire((const void*)a);                                                    \
    return ok;                                                                                                    \
  }                                                                                                               \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {                       \
    return __tsan_atomic##N##_compare_exchange_strong(a, e, v, mo, fmo);                                          \
  }                                                                                                               \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {                           \
    __tsan_atomic##N##_compare_exchange_strong(a, &e, v, mo, fmo);                                                \
    return e;                                                                                                     \
  }
ATOMIC(uint8_t, 8) ATOMIC(uint16_t, 16) ATOMIC(uint32_t, 32) ATOMIC(uint64_t, 64)

// ---- locks of libc, the C++ run-time and abseil
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (live()) {
    lock(m, false, true);
    return 0;
  }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (live()) return try_lock(m, false) ? 0 : 16;
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (live()) {
    unlock(m);
    return 0;
  }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return f(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (live()) {
    lock(m, true, false);
    return 0;
  }
  static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  return f(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (live()) {
    lock(m, false, false);
    return 0;
  }
  static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  return f(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (live()) {
    unlock(m);
    return 0;
  }
  static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  return f(m);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!live()) {
    static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
    return f(o, fn);
  }
  if (*(volatile int*)o == 2) {
    sync_acquire(o);
    return 0;
  }
  lock(o, false, false);
  if (*(volatile int*)o != 2) {
    fn();
    *(volatile int*)o = 2;
    sync_release(o, true);
  }
  unlock(o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* gd) {
  if (live()) {
    lock(gd, false, false);
    if (*(volatile char*)gd) {
      unlock(gd);
      return 0;
    }
    return 1;
  }
  static auto f = real<int (*)(uint64_t*)>("__cxa_guard_acquire");
  return f(gd);
}
void __cxa_guard_release(uint64_t* gd) {
  if (live()) {
    *(volatile char*)gd = 1;
    sync_release(gd, true);
    unlock(gd);
    return;
  }
  static auto f = real<void (*)(uint64_t*)>("__cxa_guard_release");
  f(gd);
}
void __cxa_guard_abort(uint64_t* gd) {
  if (live()) return unlock(gd);
  static auto f = real<void (*)(uint64_t*)>("__cxa_guard_abort");
  f(gd);
}
int sched_yield(void) {
  if (live()) {
    yield_point();
    return 0;
  }
  return syscall(SYS_sched_yield);
}
#define ABSL(ret, name, call)                                                      \
  ret _ZN4absl7debian35Mutex##name(void* m) {                                \
    if (live()) call;                                                              \
    static auto f = real<ret (*)(void*)>("_ZN4absl7debian35Mutex" #name);    \
    return f(m);                                                                   \
  }
ABSL(void, 4LockEv, return lock(m, false, false))
ABSL(void, 6UnlockEv, return unlock(m))
ABSL(bool, 7TryLockEv, return try_lock(m, false))
ABSL(void, 10ReaderLockEv, return lock(m, true, false))
ABSL(void, 12ReaderUnlockEv, return unlock(m))
ABSL(bool, 13ReaderTryLockEv, return try_lock(m, true))

// annotations that abseil's headers make under -fsanitize=thread
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}

// libc functions that instrumented code calls directly (linked with --wrap)
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
  access((uintptr_t)a, n, false, PC);
  access((uintptr_t)b, n, false, PC);
  return __real_memcmp(a, b, n);
}
int __wrap_bcmp(const void* a, const void* b, size_t n) {
  access((uintptr_t)a, n, false, PC);
  access((uintptr_t)b, n, false, PC);
  return __real_memcmp(a, b, n);
}
}

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);
// Fresh memory starts without a history.  (Called before the run-time is up, too.)
static void fresh(void* p, size_t n) {
  if (!p || !g_active.load(std::memory_order_relaxed) || t_id < 0) return;
  ++t_in;
  forget((uintptr_t)p, std::max(n, malloc_usable_size(p)));  // all of the block: a delete counts as a write to it
  --t_in;
}
extern "C" void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  fresh(p, n);
  return p;
}
extern "C" void* calloc(size_t k, size_t n) {
  void* p = __libc_calloc(k, n);
  fresh(p, k * n);
  return p;
}
extern "C" void* realloc(void* q, size_t n) {
  void* p = __libc_realloc(q, n);
  if (p != q) fresh(p, n);
  return p;
}
extern "C" void free(void* p) { __libc_free(p); }
extern "C" void* aligned_alloc(size_t a, size_t n) {
  void* p = __libc_memalign(a, n);
  fresh(p, n);
  return p;
}
void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
static void del(void* p, size_t n) {
  if (!p) return;
  if (live()) access((uintptr_t)p, n < 64 ? n : 64, true, PC);
  free(p);
}
void operator delete(void* p) noexcept { del(p, 8); }
void operator delete(void* p, size_t n) noexcept { del(p, n); }
void operator delete[](void* p) noexcept { del(p, 8); }
void operator delete[](void* p, size_t n) noexcept { del(p, n); }
