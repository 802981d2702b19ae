// see dsched.h; this file is compiled without instrumentation
#include "dsched.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <bits/atomic_futex.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <unordered_map>

namespace {

constexpr int kMaxThreads = 40;
constexpr int kPool = 8;  // slots of the bodies, children come after them

int g_nthreads = 0;

struct VC {
  uint32_t c[kMaxThreads] = {};
  void join(const VC& o) {
    for (int i = 0; i < g_nthreads; ++i) {
      if (o.c[i] > c[i]) c[i] = o.c[i];
    }
  }
  void clear() { memset(c, 0, sizeof c); }
};

enum State { Ready, Blocked, Done };

struct Thread {
  int id = -1;
  State state = Done;
  const void* key = nullptr;  // what it is blocked on
  bool timed = false;         // blocked with a timeout
  bool timedOut = false;
  std::atomic<int> go{0};
  VC vc, relFence, acqPending;
  pthread_t handle{};
  bool pooled = false;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  std::function<void()> body;
};

struct Mutex {
  int owner = -1;
  int depth = 0;
  VC vc;
  // rwlock
  int readers = 0;
  VC rvc;
};

thread_local Thread* me = nullptr;
thread_local int in_rt = 0;

struct Rt {
  Rt() { ++in_rt; }
  ~Rt() { --in_rt; }
};

Thread g_threads[kMaxThreads];
bool g_active = false;
pbt::Source* g_src = nullptr;
bool g_exhausted = false;
uint64_t g_den = 4;
uint64_t g_now = 0;
uint64_t g_run = 0;  // steps since the last switch
sched::Stats g_stats;
std::string g_error;
std::atomic<int> g_main{0};
uint32_t g_stamp = 1;
int g_live = 0;

std::unordered_map<const void*, Mutex>* g_mutexes;
std::unordered_map<const void*, VC>* g_sync;

void futexWait(std::atomic<int>& a) {
  while (a.load(std::memory_order_acquire) == 0) {
    syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAIT_PRIVATE, 0,
            nullptr, nullptr, 0);
  }
  a.store(0, std::memory_order_relaxed);
}
void futexWake(std::atomic<int>& a) {
  a.store(1, std::memory_order_release);
  syscall(SYS_futex, reinterpret_cast<int*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr,
          nullptr, 0);
}

void error(const std::string& m) {
  if (g_error.empty()) g_error = m;
}

[[noreturn]] void fatal(const std::string& m) {
  printf("FAIL: %s\n", m.c_str());
  fflush(stdout);
  _exit(1);
}

uint64_t draw(uint64_t n) {
  if (n <= 1 || g_exhausted) return 0;
  try {
    return g_src->draw(n);
  } catch (...) {
    g_exhausted = true;
    return 0;
  }
}

int collectReady(int* out, const Thread* except) {
  int n = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Ready && &g_threads[i] != except) out[n++] = i;
  }
  return n;
}

void switchTo(int id) {
  g_stats.switches++;
  g_run = 0;
  Thread* self = me;
  Thread& t = g_threads[id];
  // once the other thread runs, the slot of a finished one may be reused
  const bool wait = self && self->state != Done;
  futexWake(t.go);
  if (wait) futexWait(self->go);
}

void schedPoint() {
  if (++g_stats.steps > 3000000) fatal("no progress: more than 3000000 steps");
  int r[kMaxThreads];
  int n = collectReady(r, me);
  ++g_run;
  if (n == 0) return;
  if (g_run > 3000) {  // somebody spins: be fair
    switchTo(r[static_cast<size_t>(g_run) % static_cast<size_t>(n)]);
    return;
  }
  if (draw(g_den) != g_den - 1) return;
  switchTo(r[draw(static_cast<uint64_t>(n))]);
}

// the current thread cannot go on (it is Blocked or Done): run someone else
void giveUp() {
  int r[kMaxThreads];
  int n = collectReady(r, me);
  if (n == 0) {  // a timeout expires
    for (int i = 0; i < g_nthreads; ++i) {
      if (g_threads[i].state == Blocked && g_threads[i].timed) {
        g_threads[i].timedOut = true;
        g_threads[i].state = Ready;
        if (&g_threads[i] == me) return;
        r[n++] = i;
        break;
      }
    }
  }
  if (n == 0) {
    if (g_live == 0) return;
    std::string m = "deadlock:";
    for (int i = 0; i < g_nthreads; ++i) {
      if (g_threads[i].state == Blocked) m += " thread " + std::to_string(i);
    }
    fatal(m + " wait forever");
  }
  switchTo(r[draw(static_cast<uint64_t>(n))]);
}

void blockOn(const void* key, bool timed = false) {
  me->key = key;
  me->timed = timed;
  me->timedOut = false;
  me->state = Blocked;
  giveUp();
}

void wakeAll(const void* key) {
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Blocked && g_threads[i].key == key) {
      g_threads[i].state = Ready;
    }
  }
}

bool wakeOne(const void* key) {
  int r[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i) {
    if (g_threads[i].state == Blocked && g_threads[i].key == key) r[n++] = i;
  }
  if (n == 0) return false;
  g_threads[r[draw(static_cast<uint64_t>(n))]].state = Ready;
  return true;
}

void tick() { me->vc.c[me->id]++; }

inline bool controlled() { return me != nullptr && in_rt == 0; }

// ---------------------------------------------------------------- shadow ----

struct Entry {
  uint32_t clk;
  uint8_t tid;
  uint8_t mask;
  uint8_t write;
  uint8_t used;
  const void* pc;
};

struct Cell {
  uint32_t stamp = 0;
  uint8_t tracked = 0;
  uint8_t freed = 0;
  uint8_t next = 0;
  Entry e[5];
};

constexpr uintptr_t kPageShift = 12;
struct Page {
  Cell cells[512];
};

// open hash of pages, never shrinks
constexpr size_t kSlots = 1u << 16;
struct Slot {
  uintptr_t page;
  Page* p;
};
Slot g_slots[kSlots];
size_t g_pages = 0;
std::atomic_flag g_shadowLock = ATOMIC_FLAG_INIT;

Page* findPage(uintptr_t page, bool create) {
  size_t h = (page * 0x9e3779b97f4a7c15ull) >> 48;
  for (size_t i = 0; i < kSlots; ++i) {
    Slot& s = g_slots[(h + i) & (kSlots - 1)];
    if (s.p && s.page == page) return s.p;
    if (!s.p) {
      if (!create) return nullptr;
      if (g_pages > kSlots / 2) return nullptr;
      ++g_pages;
      s.p = static_cast<Page*>(calloc(1, sizeof(Page)));
      s.page = page;
      return s.p;
    }
  }
  return nullptr;
}

Cell* findCell(uintptr_t a, bool create) {
  static thread_local uintptr_t lastPage = 0;
  static thread_local Page* last = nullptr;
  uintptr_t page = a >> kPageShift;
  if (page != lastPage || !last) {
    Page* p = findPage(page, create);
    if (!p) return nullptr;
    last = p;
    lastPage = page;
  }
  return &last->cells[(a >> 3) & 511];
}

struct ShadowGuard {
  ShadowGuard() {
    while (g_shadowLock.test_and_set(std::memory_order_acquire)) {
    }
  }
  ~ShadowGuard() { g_shadowLock.clear(std::memory_order_release); }
};

constexpr size_t kMaxTracked = 1u << 16;

void markAlloc(void* p, size_t n) {
  if (n > kMaxTracked) return;
  ShadowGuard g;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t x = a & ~7ul; x < a + n; x += 8) {
    Cell* c = findCell(x, true);
    if (!c) return;
    c->stamp = 0;
    c->tracked = 1;
    c->freed = 0;
  }
}

void markFree(void* p, size_t n, bool quarantined) {
  if (n > kMaxTracked) return;
  ShadowGuard g;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t x = a & ~7ul; x < a + n; x += 8) {
    Cell* c = findCell(x, false);
    if (!c) continue;
    if (quarantined) {
      c->freed = 1;
    } else {
      c->tracked = 0;
      c->freed = 0;
    }
  }
}

extern "C" char __data_start, _end;

std::string where(const void* pc) {
  Dl_info i;
  char b[64];
  if (dladdr(pc, &i) && i.dli_sname) return i.dli_sname;
  if (dladdr(pc, &i) && i.dli_fbase) {
    snprintf(b, sizeof b, "exe+0x%zx",
             static_cast<size_t>(static_cast<const char*>(pc) -
                                 static_cast<const char*>(i.dli_fbase)));
    return b;
  }
  return "?";
}

void access(uintptr_t a, size_t n, bool write, const void* pc) {
  g_stats.accesses++;
  const bool global = a >= reinterpret_cast<uintptr_t>(&__data_start) &&
                      a < reinterpret_cast<uintptr_t>(&_end);
  while (n > 0) {
    size_t off = a & 7, len = 8 - off;
    if (len > n) len = n;
    uint8_t mask = static_cast<uint8_t>(((1u << len) - 1u) << off);
    Cell* c = findCell(a, global);
    if (c && (c->tracked || global)) {
      if (c->freed) {
        error(std::string("use after free: ") + (write ? "write" : "read") +
              " of deleted memory in " + where(pc) + " by thread " +
              std::to_string(me->id));
      }
      if (c->stamp != g_stamp) {
        c->stamp = g_stamp;
        memset(c->e, 0, sizeof c->e);
      }
      Entry* slot = nullptr;
      for (auto& e : c->e) {
        if (!e.used) {
          if (!slot) slot = &e;
          continue;
        }
        if (e.tid == me->id) {
          if (e.write == write && (e.mask & ~mask) == 0) slot = &e;
          continue;
        }
        if ((e.mask & mask) && (e.write || write) &&
            e.clk > me->vc.c[e.tid]) {
          error(std::string("data race: ") + (write ? "write" : "read") +
                " in " + where(pc) + " by thread " + std::to_string(me->id) +
                " and unordered " + (e.write ? "write" : "read") + " in " +
                where(e.pc) + " by thread " + std::to_string(e.tid));
        }
      }
      if (!slot) slot = &c->e[c->next++ % 5];
      slot->used = 1;
      slot->tid = static_cast<uint8_t>(me->id);
      slot->mask = mask;
      slot->write = write;
      slot->clk = me->vc.c[me->id];
      slot->pc = pc;
    }
    a += len;
    n -= len;
  }
}

// ------------------------------------------------------------- quarantine ---

struct Quarantined {
  void* p;
  size_t n;
};
constexpr size_t kMaxQuarantine = 1u << 20;
Quarantined* g_quarantine;
size_t g_quarantined = 0;

void* allocate(size_t n, size_t align) {
  if (n == 0) n = 1;
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align)
                       : malloc(n);
  if (!p) return nullptr;
  if (in_rt == 0) {
    Rt rt;
    markAlloc(p, malloc_usable_size(p));
  }
  return p;
}

void release(void* p) {
  if (!p) return;
  if (in_rt) {
    // run time data, or a tracked block released by a container of ours
    free(p);
    return;
  }
  Rt rt;
  size_t n = malloc_usable_size(p);
  if (me && g_active) {
    Cell* c = findCell(reinterpret_cast<uintptr_t>(p), false);
    if (c && c->tracked && c->freed) {
      error("memory is deleted twice by thread " + std::to_string(me->id));
      return;
    }
    if (c && c->tracked) {
      // deleting counts as writing
      access(reinterpret_cast<uintptr_t>(p), n, true,
             __builtin_return_address(0));
    }
    if (g_quarantined < kMaxQuarantine) {
      markFree(p, n, true);
      g_quarantine[g_quarantined++] = {p, n};
      return;
    }
  }
  markFree(p, n, false);
  free(p);
}

void flushQuarantine() {
  for (size_t i = 0; i < g_quarantined; ++i) {
    markFree(g_quarantine[i].p, g_quarantine[i].n, false);
    free(g_quarantine[i].p);
  }
  g_quarantined = 0;
}

// ----------------------------------------------------------------- threads --

void finishThread() {
  me->state = Done;
  --g_live;
  wakeAll(&me->handle);
  Thread* t = me;
  if (g_live == 0) {
    futexWake(g_main);
  } else {
    giveUp();
  }
  (void)t;
}

void* poolThread(void* p) {
  Thread* t = static_cast<Thread*>(p);
  for (;;) {
    futexWait(t->go);
    me = t;
    try {
      t->body();
    } catch (const pbt::Fail& f) {
      Rt rt;
      error(f.msg);
    } catch (const pbt::Discard&) {
      Rt rt;
      g_exhausted = true;
    } catch (const std::exception& e) {
      Rt rt;
      error(std::string("unexpected exception: ") + e.what());
    }
    Rt rt;
    finishThread();
    me = nullptr;
  }
  return nullptr;
}

void* childThread(void* p) {
  Thread* t = static_cast<Thread*>(p);
  futexWait(t->go);
  me = t;
  void* r = t->start(t->arg);
  {
    Rt rt;
    finishThread();
    me = nullptr;
  }
  return r;
}

template <class F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

int realCreate(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*),
               void* arg) {
  static auto fn =
      real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(
          "pthread_create");
  return fn(h, a, f, arg);
}

// ------------------------------------------------------------------ mutex ---

void acquireMutex(void* m) {
  Mutex& x = (*g_mutexes)[m];
  const int kind = static_cast<pthread_mutex_t*>(m)->__data.__kind & 3;
  if (x.owner == me->id && kind == PTHREAD_MUTEX_RECURSIVE_NP) {
    ++x.depth;
    return;
  }
  while ((*g_mutexes)[m].owner != -1) blockOn(m);
  Mutex& y = (*g_mutexes)[m];
  y.owner = me->id;
  y.depth = 1;
  me->vc.join(y.vc);
}

void releaseMutex(void* m) {
  Mutex& x = (*g_mutexes)[m];
  if (x.owner != me->id) {
    error("a mutex is unlocked by a thread that does not own it");
    return;
  }
  if (--x.depth > 0) return;
  x.owner = -1;
  x.vc = me->vc;
  tick();
  wakeAll(m);
}

}  // namespace

namespace sched {

uint64_t now() { return ++g_now; }
int self() { return me ? me->id : -1; }
Stats stats() { return g_stats; }

void report(const std::string& m) {
  Rt rt;
  error(m);
}

void yield() {
  if (!me) return;
  Rt rt;
  schedPoint();
}

void run(pbt::Source& s, const std::vector<std::function<void()>>& bodies) {
  {
    Rt rt;
    if (!g_mutexes) {
      g_mutexes = new std::unordered_map<const void*, Mutex>;
      g_sync = new std::unordered_map<const void*, VC>;
      g_quarantine = static_cast<Quarantined*>(
          malloc(sizeof(Quarantined) * kMaxQuarantine));
    }
    static const uint64_t dens[] = {2, 3, 5, 12, 40};
    g_den = dens[s.draw(5)];
    g_src = &s;
    g_exhausted = false;
    g_error.clear();
    g_mutexes->clear();
    g_sync->clear();
    g_stats = Stats{};
    g_run = 0;
    ++g_stamp;
    const int count = static_cast<int>(bodies.size());
    if (count > kPool) fatal("too many bodies");
    g_nthreads = kPool;
    g_live = count;
    for (int i = count; i < kMaxThreads; ++i) g_threads[i].state = Done;
    for (int i = 0; i < count; ++i) {
      Thread& t = g_threads[i];
      t.id = i;
      t.state = Ready;
      t.key = nullptr;
      t.vc.clear();
      t.vc.c[i] = 1;
      t.relFence.clear();
      t.acqPending.clear();
      t.body = bodies[static_cast<size_t>(i)];
      if (!t.pooled) {
        t.pooled = true;
        pthread_t h;
        if (realCreate(&h, nullptr, poolThread, &t) != 0) fatal("no thread");
        t.handle = h;
      }
    }
    g_active = true;
    futexWake(g_threads[draw(static_cast<uint64_t>(count))].go);
    futexWait(g_main);
    g_active = false;
    for (int i = 0; i < count; ++i) g_threads[i].body = nullptr;
    flushQuarantine();
    ++g_stamp;
  }
  if (!g_error.empty()) {
    std::string m;
    {
      Rt rt;
      m = g_error;
    }
    throw pbt::Fail{m};
  }
  if (g_exhausted) throw pbt::Discard{};
}

}  // namespace sched

// ----------------------------------------------------- interposed functions --

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    acquireMutex(m);
    return 0;
  }
  static auto fn = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return fn(m);
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    Mutex& x = (*g_mutexes)[m];
    if (x.owner != -1 && x.owner != me->id) return EBUSY;
    if (x.owner == me->id &&
        (m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP) {
      return EBUSY;
    }
    acquireMutex(m);
    return 0;
  }
  static auto fn = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return fn(m);
}

// a timeout expires only when nothing else can run
static int timedLock(pthread_mutex_t* m) {
  Rt rt;
  schedPoint();
  const int kind = m->__data.__kind & 3;
  while ((*g_mutexes)[m].owner != -1 && !((*g_mutexes)[m].owner == me->id && kind == PTHREAD_MUTEX_RECURSIVE_NP)) {
    blockOn(m, true);
    if (me->timedOut) return ETIMEDOUT;
  }
  acquireMutex(m);
  return 0;
}

int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
  if (controlled()) return timedLock(m);
  static auto fn = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
  return fn(m, t);
}

int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (controlled()) return timedLock(m);
  static auto fn = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock");
  return fn(m, k, t);
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (controlled()) {
    Rt rt;
    releaseMutex(m);
    schedPoint();
    return 0;
  }
  static auto fn = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return fn(m);
}

int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (controlled()) {
    Rt rt;
    auto it = g_mutexes->find(m);
    if (it != g_mutexes->end()) {
      if (it->second.owner != -1) error("a locked mutex is destroyed");
      g_mutexes->erase(it);
    }
    return 0;
  }
  static auto fn = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  return fn(m);
}

// wait: 0 not at all, 1 forever, 2 with a timeout
static int lockShared(pthread_rwlock_t* m, int wait) {
  Rt rt;
  schedPoint();
  while ((*g_mutexes)[m].owner != -1) {
    if (wait == 0) return EBUSY;
    blockOn(m, wait == 2);
    if (wait == 2 && me->timedOut) return ETIMEDOUT;
  }
  Mutex& x = (*g_mutexes)[m];
  x.readers++;
  me->vc.join(x.vc);
  return 0;
}
static int lockExclusive(pthread_rwlock_t* m, int wait) {
  Rt rt;
  schedPoint();
  while ((*g_mutexes)[m].owner != -1 || (*g_mutexes)[m].readers > 0) {
    if (wait == 0) return EBUSY;
    blockOn(m, wait == 2);
    if (wait == 2 && me->timedOut) return ETIMEDOUT;
  }
  Mutex& x = (*g_mutexes)[m];
  x.owner = me->id;
  me->vc.join(x.vc);
  me->vc.join(x.rvc);
  return 0;
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (controlled()) return lockShared(m, 1);
  static auto fn = real<decltype(&pthread_rwlock_rdlock)>("pthread_rwlock_rdlock");
  return fn(m);
}

int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (controlled()) return lockShared(m, 0);
  static auto fn = real<decltype(&pthread_rwlock_tryrdlock)>("pthread_rwlock_tryrdlock");
  return fn(m);
}

int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) {
  if (controlled()) return lockShared(m, 2);
  static auto fn = real<decltype(&pthread_rwlock_timedrdlock)>("pthread_rwlock_timedrdlock");
  return fn(m, t);
}

int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t k, const struct timespec* t) {
  if (controlled()) return lockShared(m, 2);
  static auto fn = real<decltype(&pthread_rwlock_clockrdlock)>("pthread_rwlock_clockrdlock");
  return fn(m, k, t);
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (controlled()) return lockExclusive(m, 1);
  static auto fn = real<decltype(&pthread_rwlock_wrlock)>("pthread_rwlock_wrlock");
  return fn(m);
}

int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (controlled()) return lockExclusive(m, 0);
  static auto fn = real<decltype(&pthread_rwlock_trywrlock)>("pthread_rwlock_trywrlock");
  return fn(m);
}

int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) {
  if (controlled()) return lockExclusive(m, 2);
  static auto fn = real<decltype(&pthread_rwlock_timedwrlock)>("pthread_rwlock_timedwrlock");
  return fn(m, t);
}

int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t k, const struct timespec* t) {
  if (controlled()) return lockExclusive(m, 2);
  static auto fn = real<decltype(&pthread_rwlock_clockwrlock)>("pthread_rwlock_clockwrlock");
  return fn(m, k, t);
}

int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (controlled()) {
    Rt rt;
    Mutex& x = (*g_mutexes)[m];
    if (x.owner == me->id) {
      x.owner = -1;
      x.vc = me->vc;
      x.rvc.clear();
    } else {
      if (x.readers <= 0) error("a rwlock is unlocked that is not held");
      x.readers--;
      x.rvc.join(me->vc);
    }
    tick();
    wakeAll(m);
    schedPoint();
    return 0;
  }
  static auto fn = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  return fn(m);
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    releaseMutex(m);
    blockOn(c);
    acquireMutex(m);
    return 0;
  }
  static auto fn =
      real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  return fn(c, m);
}

static int timedCond(pthread_cond_t* c, pthread_mutex_t* m) {
  Rt rt;
  schedPoint();
  releaseMutex(m);
  blockOn(c, true);
  bool to = me->timedOut;
  acquireMutex(m);
  return to ? ETIMEDOUT : 0;
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* t) {
  if (controlled()) return timedCond(c, m);
  static auto fn =
      real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
          "pthread_cond_timedwait");
  return fn(c, m, t);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* t) {
  if (controlled()) return timedCond(c, m);
  static auto fn = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                                const struct timespec*)>(
      "pthread_cond_clockwait");
  return fn(c, m, k, t);
}

int pthread_cond_signal(pthread_cond_t* c) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    wakeOne(c);
    return 0;
  }
  static auto fn = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  return fn(c);
}

int pthread_cond_broadcast(pthread_cond_t* c) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    wakeAll(c);
    return 0;
  }
  static auto fn = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  return fn(c);
}

int pthread_once(pthread_once_t* o, void (*f)()) {
  if (controlled()) {
    {
      Rt rt;
      schedPoint();
      for (;;) {
        if ((*o & 3) == 2) {
          me->vc.join((*g_sync)[o]);
          return 0;
        }
        Mutex& x = (*g_mutexes)[o];
        if (x.owner == -1) {
          x.owner = me->id;
          break;
        }
        blockOn(o);
      }
    }
    bool done = false;
    try {
      f();
      done = true;
    } catch (...) {
      Rt rt;
      (*g_mutexes)[o].owner = -1;
      wakeAll(o);
      throw;
    }
    Rt rt;
    if (done) *o = 2;
    (*g_sync)[o] = me->vc;
    tick();
    (*g_mutexes)[o].owner = -1;
    wakeAll(o);
    return 0;
  }
  static auto fn = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  return fn(o, f);
}

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*),
                   void* arg) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    if (g_nthreads >= kMaxThreads) {
      // a harness bounds its threads well below this
      fatal("too many threads");
    }
    Thread& t = g_threads[g_nthreads];
    t.id = g_nthreads++;
    t.start = f;
    t.arg = arg;
    t.vc = me->vc;
    t.vc.c[t.id] = 1;
    tick();
    t.relFence.clear();
    t.acqPending.clear();
    t.state = Ready;
    t.go.store(0);
    ++g_live;
    int r = realCreate(h, a, childThread, &t);
    if (r != 0) fatal("no thread");
    t.handle = *h;
    return 0;
  }
  return realCreate(h, a, f, arg);
}

int pthread_detach(pthread_t h) {
  static auto fn = real<int (*)(pthread_t)>("pthread_detach");
  if (controlled()) {
    Rt rt;
    for (int i = 0; i < g_nthreads; ++i) {
      if (g_threads[i].id == i && !g_threads[i].pooled && pthread_equal(g_threads[i].handle, h)) {
        g_threads[i].handle = pthread_t{};
        break;
      }
    }
  }
  return fn(h);
}

// waiting for a while lets the others run
int sched_yield() noexcept {
  if (controlled()) {
    Rt rt;
    schedPoint();
    return 0;
  }
  static auto fn = real<int (*)()>("sched_yield");
  return fn();
}
int nanosleep(const struct timespec* t, struct timespec* rest) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    return 0;
  }
  static auto fn = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return fn(t, rest);
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* t, struct timespec* rest) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    return 0;
  }
  static auto fn = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  return fn(k, flags, t, rest);
}

int pthread_join(pthread_t h, void** ret) {
  static auto fn = real<int (*)(pthread_t, void**)>("pthread_join");
  if (controlled()) {
    Rt rt;
    schedPoint();
    for (int i = 0; i < g_nthreads; ++i) {
      if (g_threads[i].id == i && !g_threads[i].pooled &&
          pthread_equal(g_threads[i].handle, h)) {
        while (g_threads[i].state != Done) blockOn(&g_threads[i].handle);
        me->vc.join(g_threads[i].vc);
        int r = fn(h, ret);
        g_threads[i].handle = pthread_t{};
        return r;
      }
    }
  }
  return fn(h, ret);
}

// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  if (controlled()) {
    Rt rt;
    schedPoint();
    for (;;) {
      if (b[0]) {
        me->vc.join((*g_sync)[g]);
        return 0;
      }
      Mutex& x = (*g_mutexes)[g];
      if (x.owner == -1) {
        x.owner = me->id;
        return 1;
      }
      blockOn(g);
    }
  }
  return b[0] ? 0 : 1;
}
void __cxa_guard_release(uint64_t* g) {
  auto* b = reinterpret_cast<unsigned char*>(g);
  b[0] = 1;
  if (controlled()) {
    Rt rt;
    (*g_sync)[g] = me->vc;
    tick();
    (*g_mutexes)[g].owner = -1;
    wakeAll(g);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  if (controlled()) {
    Rt rt;
    (*g_mutexes)[g].owner = -1;
    wakeAll(g);
  }
}

// ------------------------------------------------ instrumentation callbacks --

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACCESS(n)                                                             \
  void __tsan_read##n(void* a) {                                              \
    if (controlled()) {                                                       \
      Rt rt;                                                                  \
      access(reinterpret_cast<uintptr_t>(a), n, false,                        \
             __builtin_return_address(0));                                    \
    }                                                                         \
  }                                                                           \
  void __tsan_write##n(void* a) {                                             \
    if (controlled()) {                                                       \
      Rt rt;                                                                  \
      access(reinterpret_cast<uintptr_t>(a), n, true,                         \
             __builtin_return_address(0));                                    \
    }                                                                         \
  }                                                                           \
  void __tsan_unaligned_read##n(void* a) {                                    \
    if (controlled()) {                                                       \
      Rt rt;                                                                  \
      access(reinterpret_cast<uintptr_t>(a), n, false,                        \
             __builtin_return_address(0));                                    \
    }                                                                         \
  }                                                                           \
  void __tsan_unaligned_write##n(void* a) {                                   \
    if (controlled()) {                                                       \
      Rt rt;                                                                  \
      access(reinterpret_cast<uintptr_t>(a), n, true,                         \
             __builtin_return_address(0));                                    \
    }                                                                         \
  }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

void __tsan_vptr_update(void* a, void* v) {
  // rewriting the same pointer is no conflict
  if (controlled() && *static_cast<void**>(a) != v) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(a), 8, true,
           __builtin_return_address(0));
  }
}
void __tsan_vptr_read(void* a) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(a), 8, false,
           __builtin_return_address(0));
  }
}
void __tsan_read_range(void* a, uintptr_t n) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(a), n, false,
           __builtin_return_address(0));
  }
}
void __tsan_write_range(void* a, uintptr_t n) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(a), n, true,
           __builtin_return_address(0));
  }
}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(s), n, false,
           __builtin_return_address(0));
    access(reinterpret_cast<uintptr_t>(d), n, true,
           __builtin_return_address(0));
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(s), n, false,
           __builtin_return_address(0));
    access(reinterpret_cast<uintptr_t>(d), n, true,
           __builtin_return_address(0));
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(d), n, true,
           __builtin_return_address(0));
  }
  return memset(d, c, n);
}

}  // extern "C"

namespace {

inline bool isAcquire(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool isRelease(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void checkFreed(const volatile void* a) {
  Cell* c = findCell(reinterpret_cast<uintptr_t>(a), false);
  if (c && c->tracked && c->freed) {
    error("use after free: atomic access to deleted memory by thread " +
          std::to_string(me->id));
  }
}

void loadSync(const volatile void* a, int mo) {
  auto it = g_sync->find(const_cast<const void*>(a));
  if (it == g_sync->end()) return;
  if (isAcquire(mo)) {
    me->vc.join(it->second);
  } else {
    me->acqPending.join(it->second);
  }
}
void storeSync(const volatile void* a, int mo) {
  VC& v = (*g_sync)[const_cast<const void*>(a)];
  if (isRelease(mo)) {
    v = me->vc;
    tick();
  } else {
    v = me->relFence;
  }
}
void rmwSync(const volatile void* a, int mo) {
  loadSync(a, mo);
  VC& v = (*g_sync)[const_cast<const void*>(a)];
  if (isRelease(mo)) {
    v.join(me->vc);
    tick();
  } else {
    v.join(me->relFence);
  }
}

template <class T>
T atomicLoad(const volatile T* a, int mo) {
  if (!controlled()) return __atomic_load_n(a, __ATOMIC_SEQ_CST);
  Rt rt;
  schedPoint();
  checkFreed(a);
  loadSync(a, mo);
  return __atomic_load_n(a, __ATOMIC_SEQ_CST);
}
template <class T>
void atomicStore(volatile T* a, T v, int mo) {
  if (!controlled()) {
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    return;
  }
  Rt rt;
  schedPoint();
  checkFreed(a);
  storeSync(a, mo);
  __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
}
template <class T, class F>
T atomicRmw(volatile T* a, int mo, F f) {
  if (!controlled()) return f();
  Rt rt;
  schedPoint();
  checkFreed(a);
  rmwSync(a, mo);
  return f();
}
template <class T>
int atomicCas(volatile T* a, T* c, T v, int mo, int fmo, bool weak) {
  if (!controlled()) {
    return __atomic_compare_exchange_n(a, c, v, weak, __ATOMIC_SEQ_CST,
                                       __ATOMIC_SEQ_CST);
  }
  Rt rt;
  schedPoint();
  checkFreed(a);
  T cur = __atomic_load_n(a, __ATOMIC_SEQ_CST);
  // a weak exchange may fail spuriously
  if (memcmp(&cur, c, sizeof cur) == 0 && !(weak && draw(12) == 11)) {
    rmwSync(a, mo);
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);
    return 1;
  }
  loadSync(a, fmo);
  *c = cur;
  return 0;
}

}  // namespace

extern "C" {

#define ATOMICS(n, T)                                                         \
  T __tsan_atomic##n##_load(const volatile T* a, int mo) {                    \
    return atomicLoad<T>(a, mo);                                              \
  }                                                                           \
  void __tsan_atomic##n##_store(volatile T* a, T v, int mo) {                 \
    atomicStore<T>(a, v, mo);                                                 \
  }                                                                           \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) {                 \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); });  \
  }                                                                           \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) {                \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); });   \
  }                                                                           \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) {                \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); });   \
  }                                                                           \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) {                \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); });   \
  }                                                                           \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) {                 \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); });    \
  }                                                                           \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) {                \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); });   \
  }                                                                           \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) {               \
    return atomicRmw<T>(                                                      \
        a, mo, [&] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); });  \
  }                                                                           \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v,    \
                                                 int mo, int fmo) {           \
    return atomicCas<T>(a, c, v, mo, fmo, false);                             \
  }                                                                           \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v,      \
                                               int mo, int fmo) {             \
    return atomicCas<T>(a, c, v, mo, fmo, true);                              \
  }                                                                           \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int mo,  \
                                            int fmo) {                        \
    atomicCas<T>(a, &c, v, mo, fmo, false);                                   \
    return c;                                                                 \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
  if (!controlled()) return;
  Rt rt;
  if (isAcquire(mo)) me->vc.join(me->acqPending);
  if (isRelease(mo)) {
    me->relFence = me->vc;
    tick();
  }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// std::future of libstdc++ waits on a futex
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(
    unsigned* a, unsigned v, bool timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  if (controlled()) {
    Rt rt;
    schedPoint();
    while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v) {
      blockOn(a, timeout);
      if (timeout && me->timedOut) return false;
    }
    return true;
  }
  if (timeout) {
    struct timespec now;
    clock_gettime(CLOCK_REALTIME, &now);
    struct timespec rel;
    long long d = (s.count() - now.tv_sec) * 1000000000ll + ns.count() -
                  now.tv_nsec;
    if (d <= 0) return false;
    rel.tv_sec = d / 1000000000ll;
    rel.tv_nsec = d % 1000000000ll;
    return syscall(SYS_futex, a, FUTEX_WAIT, v, &rel, nullptr, 0) == 0 ||
           errno != ETIMEDOUT;
  }
  syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(
    unsigned* a, unsigned v, bool timeout, chrono::seconds s,
    chrono::nanoseconds ns) {
  if (controlled() || !timeout) {
    return _M_futex_wait_until(a, v, timeout, s, ns);
  }
  struct timespec now;
  clock_gettime(CLOCK_MONOTONIC, &now);
  struct timespec rel;
  long long d =
      (s.count() - now.tv_sec) * 1000000000ll + ns.count() - now.tv_nsec;
  if (d <= 0) return false;
  rel.tv_sec = d / 1000000000ll;
  rel.tv_nsec = d % 1000000000ll;
  return syscall(SYS_futex, a, FUTEX_WAIT, v, &rel, nullptr, 0) == 0 ||
         errno != ETIMEDOUT;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) {
  if (controlled()) {
    Rt rt;
    wakeAll(a);
    schedPoint();
    return;
  }
  syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff);
}
}  // namespace std

// ------------------------------------------------------------------ streams --
// The C++ library is not instrumented: operations on a stream count as accesses
// of the stream object.
#ifdef __x86_64__
namespace {
void touch(const void* stream, bool write, const void* pc) {
  if (controlled()) {
    Rt rt;
    access(reinterpret_cast<uintptr_t>(stream), 8, write, pc);
  }
}
}  // namespace

extern "C" {
#define STREAM(name, ...)                                             \
  touch(o, true, __builtin_return_address(0));                        \
  static auto fn = real<decltype(&name)>(#name);                      \
  return fn(__VA_ARGS__);

void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* o, const char* p, long n) {
  STREAM(_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l, o, p, n)
}
void* _ZNSo3putEc(void* o, char c) { STREAM(_ZNSo3putEc, o, c) }
void* _ZNSo5writeEPKcl(void* o, const char* p, long n) { STREAM(_ZNSo5writeEPKcl, o, p, n) }
void* _ZNSolsEi(void* o, int v) { STREAM(_ZNSolsEi, o, v) }
void* _ZNSo9_M_insertIdEERSoT_(void* o, double v) { STREAM(_ZNSo9_M_insertIdEERSoT_, o, v) }
void* _ZNSo9_M_insertIlEERSoT_(void* o, long v) { STREAM(_ZNSo9_M_insertIlEERSoT_, o, v) }
void* _ZNSo9_M_insertImEERSoT_(void* o, unsigned long v) { STREAM(_ZNSo9_M_insertImEERSoT_, o, v) }
}
#endif

// ------------------------------------------------------- operator new/delete --

void* operator new(size_t n) {
  void* p = allocate(n, 16);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return allocate(n, 16);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return allocate(n, 16);
}
void* operator new(size_t n, std::align_val_t a) {
  void* p = allocate(n, static_cast<size_t>(a));
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete(void* p, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { release(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { release(p); }
