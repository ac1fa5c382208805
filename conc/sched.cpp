// Scheduler, conflict detection and the run-time interface of the compiler's access instrumentation.
//
// Conflicts: two accesses to the same byte by different threads, one a write, not ordered by
// synchronisation (vector clocks; mutexes, read-write locks, once, guarded statics, atomics, critical sections).
#include "sched.hpp"

#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __executable_start, etext, edata, end, __data_start;

namespace conc
{

Stats stats;

namespace
{

using namespace sim;

struct Cell { // eight bytes of memory
  uint32_t w[max_threads];
  uint32_t r[max_threads];
  uint32_t wpc[max_threads];
  uint8_t wm[max_threads];
  uint8_t rm[max_threads];
};
struct Page {
  uintptr_t key;
  Cell c[512];
};

struct Thread {
  pthread_t id;
  int32_t baton;
  int32_t done;
  uintptr_t lo, hi; // stack
  uint32_t vc[max_threads];
  std::function<void()> const * body;
};

constexpr uint32_t npages = 1U << 15;
constexpr uint32_t arena_pages = 1U << 14;
Page ** table = nullptr;
Page * arena = nullptr;
uint32_t arena_n = 0;
Page * last_page = nullptr;

struct Sync {
  uintptr_t key;
  uint32_t vc[max_threads];
};
constexpr uint32_t nsync = 1U << 12;
Sync syncs[nsync];

bool running = false;                // threads are running
thread_local bool simulated = false; // this is one of them
#define on (running && simulated)
int cur = -1;     // who
int nthreads = 0;
Thread th[max_threads];
int32_t main_baton = 0;
uint64_t countdown = UINT64_MAX;
uint64_t events = 0;
uint32_t switches_left = 0;
uint32_t syncs_left = 0;
uint32_t statics_left = 0;
uint32_t gap_lo = 1;
uint32_t gap_n = 1;
char const * prefix = "";
uint32_t spins = 0;     // waits since somebody got what it waited for
uint32_t same_sync = 0; // synchronisation operations since the last change of threads

void
futexWait(int32_t * p)
{
  while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0) {
    syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
void
futexWake(int32_t * p)
{
  __atomic_store_n(p, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// How many accesses until the next interruption: 0 is "none".
uint64_t
drawGap()
{
  if (switches_left == 0) {
    return UINT64_MAX;
  }
  uint32_t const v = pick(96);
  if (v == 0) {
    return UINT64_MAX;
  }
  double g = 1;
  for (uint32_t i = 1; i < v % gap_n + gap_lo; ++i) {
    g = g * 1.4 + 0.7;
  }
  return static_cast<uint64_t>(g);
}

// Hand over to one of the other threads that have not ended; false if there is none.
bool
handOver(bool forced)
{
  int other[max_threads];
  int n = 0;
  for (int k = 1; k < nthreads; ++k) {
    int const t = (cur + k) % nthreads;
    if (th[t].done == 0) {
      other[n++] = t;
    }
  }
  if (n == 0) {
    return false;
  }
  int const me = cur;
  int const to = other[n == 1 ? 0 : static_cast<int>(pick(static_cast<uint32_t>(n)))];
  if (forced) {
    ++stats.switches;
    ++shm->fired[F_SWITCH];
    hashMix(events * 8 + static_cast<uint64_t>(to));
    if (shm->nev < max_events) {
      shm->ev[shm->nev++] = {OP_ACCESS, F_SWITCH, -1, static_cast<uint32_t>(events), 0, 0, to};
    }
  }
  cur = to;
  last_page = nullptr;
  same_sync = 0;
  countdown = spins > 50 ? UINT64_MAX : drawGap();
  futexWake(&th[to].baton);
  if (th[me].done == 0) {
    futexWait(&th[me].baton);
  }
  return true;
}

void
interrupt()
{
  countdown = UINT64_MAX;
  if (switches_left == 0) {
    return;
  }
  --switches_left;
  if (!handOver(true)) {
    countdown = UINT64_MAX;
  }
}

void
syncPoint()
{
  ++stats.sync;
  ++events;
  if (++same_sync > 500) { // waits in a loop, perhaps
    handOver(false);
    return;
  }
  if (syncs_left > 0) {
    --syncs_left;
    if (pick(3) == 2) {
      interrupt();
    }
  }
}

Page *
pageOf(uintptr_t a)
{
  uintptr_t const key = a >> 12;
  if (last_page != nullptr && last_page->key == key) {
    return last_page;
  }
  uint32_t h = static_cast<uint32_t>(mix64(key)) & (npages - 1);
  while (table[h] != nullptr && table[h]->key != key) {
    h = (h + 1) & (npages - 1);
  }
  if (table[h] == nullptr) {
    if (arena_n >= arena_pages) {
      return nullptr;
    }
    table[h] = &arena[arena_n++];
    table[h]->key = key;
  }
  last_page = table[h];
  return last_page;
}

bool
isStatic(uintptr_t a)
{
  return a >= reinterpret_cast<uintptr_t>(&__data_start) && a < reinterpret_cast<uintptr_t>(&end);
}

std::string
where(uintptr_t pc)
{
  Dl_info di;
  auto const base = reinterpret_cast<uintptr_t>(&__executable_start);
  if (dladdr(reinterpret_cast<void *>(pc), &di) != 0 && di.dli_sname != nullptr) {
    return fmt("%s (+0x%lx)", di.dli_sname, static_cast<unsigned long>(pc - base));
  }
  return fmt("+0x%lx", static_cast<unsigned long>(pc - base));
}

[[noreturn]] void
conflict(uintptr_t a, size_t n, bool write, uintptr_t pc, int other, bool other_write, uint32_t other_pc)
{
  running = false;
  auto const base = reinterpret_cast<uintptr_t>(&__executable_start);
  std::string object = "shared heap memory";
  if (isStatic(a)) {
    Dl_info di;
    object = dladdr(reinterpret_cast<void *>(a), &di) != 0 && di.dli_sname != nullptr
                 ? fmt("static variable near %s", di.dli_sname)
                 : fmt("static variable at +0x%lx", static_cast<unsigned long>(a - base));
  }
  violate(fmt("%s:conflict", prefix).c_str(),
          "thread %d %s %zu bytes of %s while thread %d %s it without synchronisation; at %s%s%s", cur,
          write ? "writes" : "reads", n, object.c_str(), other, other_write ? "writes" : "reads", where(pc).c_str(),
          other_write ? ", other access at " : "", other_write ? where(base + other_pc).c_str() : "");
  _exit(97);
}

void
touch(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
  int const t = cur;
  while (n > 0) {
    unsigned const off = a & 7U;
    size_t const k = n < 8 - off ? n : 8 - off;
    auto const mask = static_cast<uint8_t>(((1U << k) - 1U) << off);
    Page * p = pageOf(a);
    if (p == nullptr) {
      return;
    }
    Cell & c = p->c[(a >> 3) & 511U];
    uint32_t const * const vc = th[t].vc;
    bool shared = false;
    for (int u = 0; u < nthreads; ++u) {
      if (u == t) {
        continue;
      }
      shared = shared || c.w[u] != 0;
      if (c.w[u] > vc[u] && (c.wm[u] & mask) != 0) {
        conflict(a, k, write, pc, u, true, c.wpc[u]);
      }
      if (write && c.r[u] > vc[u] && (c.rm[u] & mask) != 0) {
        conflict(a, k, write, pc, u, false, 0);
      }
    }
    uint32_t const now = vc[t];
    if (write) {
      c.wm[t] = c.w[t] == now ? static_cast<uint8_t>(c.wm[t] | mask) : mask;
      c.w[t] = now;
      c.wpc[t] = static_cast<uint32_t>(pc - reinterpret_cast<uintptr_t>(&__executable_start));
    } else {
      c.rm[t] = c.r[t] == now ? static_cast<uint8_t>(c.rm[t] | mask) : mask;
      c.r[t] = now;
    }
    // state that is shared after all: interrupt here more often
    if ((write || shared) && statics_left > 0 && isStatic(a)) {
      --statics_left;
      if (pick(3) == 2) {
        interrupt();
      }
    }
    a += k;
    n -= k;
  }
}

inline void
access(void const * ptr, size_t n, bool write, void * pc)
{
  if (!on) {
    return;
  }
  auto const a = reinterpret_cast<uintptr_t>(ptr);
  if (a >= th[cur].lo && a < th[cur].hi) {
    return;
  }
  ++stats.accesses;
  ++events;
  touch(a, n, write, reinterpret_cast<uintptr_t>(pc));
  if (--countdown == 0) {
    interrupt();
  }
}

// Accesses of C library functions on behalf of the library; never an interruption.
inline void
bulk(void const * ptr, size_t n, bool write, void * pc)
{
  auto const c = reinterpret_cast<uintptr_t>(pc);
  if (!on || c < reinterpret_cast<uintptr_t>(&__executable_start) || c >= reinterpret_cast<uintptr_t>(&etext)) {
    return;
  }
  auto const a = reinterpret_cast<uintptr_t>(ptr);
  if (a >= th[cur].lo && a < th[cur].hi) {
    return;
  }
  ++stats.accesses;
  uint32_t const keep = statics_left;
  statics_left = 0;
  touch(a, n, write, c);
  statics_left = keep;
}

Sync *
syncOf(void const * p)
{
  auto const key = reinterpret_cast<uintptr_t>(p);
  uint32_t h = static_cast<uint32_t>(mix64(key)) & (nsync - 1);
  for (uint32_t i = 0; i < nsync; ++i) {
    Sync & s = syncs[(h + i) & (nsync - 1)];
    if (s.key == key || s.key == 0) {
      s.key = key;
      return &s;
    }
  }
  return nullptr;
}

void
acquire(void const * p)
{
  if (!on) {
    return;
  }
  if (Sync * s = syncOf(p)) {
    for (int u = 0; u < nthreads; ++u) {
      if (s->vc[u] > th[cur].vc[u]) {
        th[cur].vc[u] = s->vc[u];
      }
    }
  }
}

void
release(void const * p)
{
  if (!on) {
    return;
  }
  if (Sync * s = syncOf(p)) {
    for (int u = 0; u < nthreads; ++u) {
      if (th[cur].vc[u] > s->vc[u]) {
        s->vc[u] = th[cur].vc[u];
      }
    }
  }
  ++th[cur].vc[cur];
}

void
onAlloc(void * p, size_t n)
{
  if (!on || p == nullptr) {
    return;
  }
  auto const a = reinterpret_cast<uintptr_t>(p);
  for (uintptr_t x = a & ~uintptr_t{7}; x < a + n; x += 8) {
    Page * g = pageOf(x);
    if (g == nullptr) {
      return;
    }
    memset(static_cast<void *>(&g->c[(x >> 3) & 511U]), 0, sizeof(Cell));
  }
}
// Releasing memory conflicts with using it.
void
onFree(void * p, size_t n)
{
  if (!on || p == nullptr) {
    return;
  }
  touch(reinterpret_cast<uintptr_t>(p), n, true, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
}

// The end of a thread, after the destruction of its thread-local objects.
pthread_key_t end_key;
void
threadEnd(void * arg)
{
  static_cast<Thread *>(arg)->done = 1;
  if (!handOver(false)) {
    running = false;
    futexWake(&main_baton);
  }
}

void *
threadMain(void * arg)
{
  auto & me = *static_cast<Thread *>(arg);
  joinProcess();
  simulated = true;
  pthread_attr_t at;
  pthread_getattr_np(pthread_self(), &at);
  void * lo = nullptr;
  size_t size = 0;
  pthread_attr_getstack(&at, &lo, &size);
  pthread_attr_destroy(&at);
  me.lo = reinterpret_cast<uintptr_t>(lo);
  me.hi = me.lo + size;
  futexWake(&main_baton); // ready
  futexWait(&me.baton);
  try {
    (*me.body)();
  } catch (std::exception const & e) {
    running = false;
    violate(fmt("%s:exception", prefix).c_str(), "thread %d ended with an exception: %s", cur, e.what());
  }
  pthread_setspecific(end_key, &me);
  return nullptr;
}

// Wait for something another thread has to do.
void
blocked()
{
  if (++spins > 20000 || !handOver(false)) {
    running = false;
    violate(fmt("%s:deadlock", prefix).c_str(), "thread %d waits for something that never happens", cur);
  }
}

} // namespace

void
runThreads(char const * what, std::vector<std::function<void()>> const & bodies)
{
  prefix = what;
  nthreads = static_cast<int>(bodies.size());
  if (table == nullptr) {
    table = static_cast<Page **>(mmap(nullptr, sizeof(Page *) * npages, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    arena = static_cast<Page *>(mmap(nullptr, sizeof(Page) * arena_pages, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  pthread_key_create(&end_key, threadEnd);
  alloc_hook = onAlloc;
  free_hook = onFree;
  // how this run is interleaved: how often, and at what distances
  static uint32_t const los[] = {1, 4, 9, 14};
  gap_lo = los[pick(4)];
  gap_n = 4 + 4 * pick(4);
  switches_left = 1U << (2 * pick(5)); // 1 ... 256
  if (pick(3) == 2) {
    switches_left = 2000;
  }
  syncs_left = 1000;
  statics_left = 1000;
  for (int i = 0; i < nthreads; ++i) {
    th[i] = Thread{};
    th[i].vc[i] = 1;
    th[i].body = &bodies[static_cast<size_t>(i)];
    if (pthread_create(&th[i].id, nullptr, threadMain, &th[i]) != 0) {
      _exit(2);
    }
    futexWait(&main_baton);
  }
  cur = static_cast<int>(pick(static_cast<uint32_t>(nthreads)));
  events = 0;
  countdown = drawGap();
  running = true;
  futexWake(&th[cur].baton);
  futexWait(&main_baton);
  running = false;
  for (int i = 0; i < nthreads; ++i) {
    pthread_join(th[i].id, nullptr);
  }
  hashMix(events);
  shm->total_ops[OP_ACCESS] += stats.accesses;
  shm->total_ops[OP_THREADSYNC] += stats.sync;
}

} // namespace conc

//==================================================================================================
// Instrumentation interface
//==================================================================================================

using namespace conc;

#define PC __builtin_return_address(0)

extern "C" {

void
__tsan_init()
{
}
void
__tsan_func_entry(void *)
{
}
void
__tsan_func_exit()
{
}
void
__tsan_vptr_update(void ** p, void *)
{
  access(p, sizeof(void *), true, PC);
}
void
__tsan_vptr_read(void ** p)
{
  access(p, sizeof(void *), false, PC);
}
void
__tsan_read_range(void * p, size_t n)
{
  access(p, n, false, PC);
}
void
__tsan_write_range(void * p, size_t n)
{
  access(p, n, true, PC);
}

#define RW(n)                                                                                                          \
  void __tsan_read##n(void * p) { access(p, n, false, PC); }                                                           \
  void __tsan_write##n(void * p) { access(p, n, true, PC); }                                                           \
  void __tsan_unaligned_read##n(void * p) { access(p, n, false, PC); }                                                 \
  void __tsan_unaligned_write##n(void * p) { access(p, n, true, PC); }                                                 \
  void __tsan_volatile_read##n(void * p) { access(p, n, false, PC); }                                                  \
  void __tsan_volatile_write##n(void * p) { access(p, n, true, PC); }                                                  \
  void __tsan_read_write##n(void * p) { access(p, n, true, PC); }                                                      \
  void __tsan_unaligned_read_write##n(void * p) { access(p, n, true, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

#define ACQ(o) ((o) != __ATOMIC_RELAXED && (o) != __ATOMIC_RELEASE)
#define REL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)

#define RMW(bits, T, name, builtin)                                                                                    \
  T __tsan_atomic##bits##_##name(T volatile * p, T v, int o)                                                           \
  {                                                                                                                    \
    if (on) {                                                                                                          \
      syncPoint();                                                                                                     \
      if (ACQ(o)) {                                                                                                    \
        acquire(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
      if (REL(o)) {                                                                                                    \
        release(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
    }                                                                                                                  \
    return builtin(p, v, __ATOMIC_SEQ_CST);                                                                            \
  }
#define ATOMICS(bits, T)                                                                                               \
  T __tsan_atomic##bits##_load(T const volatile * p, int o)                                                            \
  {                                                                                                                    \
    if (on) {                                                                                                          \
      syncPoint();                                                                                                     \
      if (ACQ(o)) {                                                                                                    \
        acquire(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
    }                                                                                                                  \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                       \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(T volatile * p, T v, int o)                                                         \
  {                                                                                                                    \
    if (on) {                                                                                                          \
      syncPoint();                                                                                                     \
      if (REL(o)) {                                                                                                    \
        release(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
    }                                                                                                                  \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  RMW(bits, T, exchange, __atomic_exchange_n)                                                                          \
  RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                          \
  RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                          \
  RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                          \
  RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                            \
  RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                          \
  RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                                        \
  int __tsan_atomic##bits##_compare_exchange_strong(T volatile * p, T * e, T v, int o, int fo)                         \
  {                                                                                                                    \
    if (on) {                                                                                                          \
      syncPoint();                                                                                                     \
    }                                                                                                                  \
    bool const ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
    if (on) {                                                                                                          \
      if (ok ? ACQ(o) : ACQ(fo)) {                                                                                     \
        acquire(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
      if (ok && REL(o)) {                                                                                              \
        release(const_cast<T *>(p));                                                                                   \
      }                                                                                                                \
    }                                                                                                                  \
    return ok ? 1 : 0;                                                                                                 \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(T volatile * p, T * e, T v, int o, int fo)                           \
  {                                                                                                                    \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, fo);                                              \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(T volatile * p, T e, T v, int o, int fo)                                \
  {                                                                                                                    \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, fo);                                                    \
    return e;                                                                                                          \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

static char fence;
void
__tsan_atomic_thread_fence(int)
{
  if (on) {
    // A fence orders with every other fence: more order than there is, so never a false conflict.
    acquire(&fence);
    release(&fence);
    syncPoint();
  }
}
void
__tsan_atomic_signal_fence(int)
{
}

//==================================================================================================
// Synchronisation
//==================================================================================================

#define NEXT(f) reinterpret_cast<decltype(&(f))>(dlsym(RTLD_NEXT, #f))

int
pthread_mutex_lock(pthread_mutex_t * m)
{
  static auto const r = NEXT(pthread_mutex_lock);
  static auto const t = NEXT(pthread_mutex_trylock);
  if (!on) {
    return r(m);
  }
  syncPoint();
  while (true) {
    int const e = t(m);
    if (e != EBUSY) {
      if (e == 0) {
        acquire(m);
      }
      spins = 0;
      return e;
    }
    blocked();
  }
}
int
pthread_mutex_trylock(pthread_mutex_t * m)
{
  static auto const t = NEXT(pthread_mutex_trylock);
  if (on) {
    syncPoint();
  }
  int const e = t(m);
  if (e == 0) {
    acquire(m);
  }
  return e;
}
int
pthread_mutex_unlock(pthread_mutex_t * m)
{
  static auto const r = NEXT(pthread_mutex_unlock);
  release(m);
  int const e = r(m);
  if (on) {
    syncPoint();
  }
  return e;
}

int
pthread_rwlock_rdlock(pthread_rwlock_t * m)
{
  static auto const r = NEXT(pthread_rwlock_rdlock);
  static auto const t = NEXT(pthread_rwlock_tryrdlock);
  if (!on) {
    return r(m);
  }
  syncPoint();
  while (true) {
    int const e = t(m);
    if (e != EBUSY) {
      acquire(m);
      spins = 0;
      return e;
    }
    blocked();
  }
}
int
pthread_rwlock_wrlock(pthread_rwlock_t * m)
{
  static auto const r = NEXT(pthread_rwlock_wrlock);
  static auto const t = NEXT(pthread_rwlock_trywrlock);
  if (!on) {
    return r(m);
  }
  syncPoint();
  while (true) {
    int const e = t(m);
    if (e != EBUSY) {
      acquire(m);
      spins = 0;
      return e;
    }
    blocked();
  }
}
int
pthread_rwlock_unlock(pthread_rwlock_t * m)
{
  static auto const r = NEXT(pthread_rwlock_unlock);
  release(m);
  int const e = r(m);
  if (on) {
    syncPoint();
  }
  return e;
}

int
pthread_spin_lock(pthread_spinlock_t * m)
{
  static auto const r = NEXT(pthread_spin_lock);
  static auto const t = NEXT(pthread_spin_trylock);
  if (!on) {
    return r(m);
  }
  syncPoint();
  while (t(m) != 0) {
    blocked();
  }
  spins = 0;
  acquire(const_cast<int *>(m));
  return 0;
}
int
pthread_spin_unlock(pthread_spinlock_t * m)
{
  static auto const r = NEXT(pthread_spin_unlock);
  release(const_cast<int *>(m));
  return r(m);
}

int
pthread_once(pthread_once_t * o, void (*f)())
{
  static auto const r = NEXT(pthread_once);
  if (!on) {
    return r(o, f);
  }
  syncPoint();
  // Values the C library does not use for "in progress" or "done" stay within this phase.
  while (*o == 0x40000000) {
    blocked();
  }
  spins = 0;
  if (*o == 2) {
    acquire(o);
    return 0;
  }
  *o = 0x40000000;
  try {
    f();
  } catch (...) {
    *o = 0;
    throw;
  }
  *o = 2;
  release(o);
  return 0;
}

int
__cxa_guard_acquire(uint64_t * g)
{
  auto * b = reinterpret_cast<uint8_t *>(g);
  if (b[0] != 0) {
    acquire(g);
    return 0;
  }
  if (!on) {
    b[1] = 1;
    return 1;
  }
  syncPoint();
  while (b[1] != 0) {
    blocked();
  }
  spins = 0;
  if (b[0] != 0) {
    acquire(g);
    return 0;
  }
  b[1] = 1;
  return 1;
}
void
__cxa_guard_release(uint64_t * g)
{
  auto * b = reinterpret_cast<uint8_t *>(g);
  release(g);
  b[1] = 0;
  b[0] = 1;
  if (on) {
    syncPoint();
  }
}
void
__cxa_guard_abort(uint64_t * g)
{
  reinterpret_cast<uint8_t *>(g)[1] = 0;
}

int
pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  static auto const r = NEXT(pthread_cond_wait);
  if (!on) {
    return r(c, m);
  }
  pthread_mutex_unlock(m);
  blocked();
  return pthread_mutex_lock(m);
}

// A parallel region inside the library: a team of one.
void
GOMP_parallel(void (*f)(void *), void * data, unsigned n, unsigned flags)
{
  static auto const r = NEXT(GOMP_parallel);
  if (!on) {
    r(f, data, n, flags);
    return;
  }
  f(data);
}

static bool critical = false;
void
GOMP_critical_start()
{
  if (!on) {
    static auto const r = NEXT(GOMP_critical_start);
    r();
    return;
  }
  {
    syncPoint();
    while (critical) {
      blocked();
    }
    spins = 0;
    critical = true;
    acquire(&critical);
  }
}
void
GOMP_critical_end()
{
  if (!on) {
    static auto const r = NEXT(GOMP_critical_end);
    r();
    return;
  }
  {
    release(&critical);
    critical = false;
  }
}
static void ** critical_names[16];
void
GOMP_critical_name_start(void ** p)
{
  if (!on) {
    static auto const r = NEXT(GOMP_critical_name_start);
    r(p);
    return;
  }
  {
    syncPoint();
    while (*p != nullptr) {
      blocked();
    }
    spins = 0;
    *p = critical_names;
    acquire(p);
  }
}
void
GOMP_critical_name_end(void ** p)
{
  if (!on) {
    static auto const r = NEXT(GOMP_critical_name_end);
    r(p);
    return;
  }
  {
    release(p);
    *p = nullptr;
  }
}
void
GOMP_atomic_start()
{
  GOMP_critical_start();
}
void
GOMP_atomic_end()
{
  GOMP_critical_end();
}

int
sched_yield()
{
  if (on) {
    blocked();
    return 0;
  }
  static auto const r = NEXT(sched_yield);
  return r();
}

//==================================================================================================
// C library functions that touch the caller's memory or hidden state
//==================================================================================================

void *
memcpy(void * __restrict d, void const * __restrict s, size_t n)
{
  if (on) {
    bulk(s, n, false, PC);
    bulk(d, n, true, PC);
  }
  void * r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *
memmove(void * d, void const * s, size_t n)
{
  if (on) {
    bulk(s, n, false, PC);
    bulk(d, n, true, PC);
  }
  void * r = d;
  if (d <= s || static_cast<char *>(d) >= static_cast<char const *>(s) + n) {
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char * dd = static_cast<char *>(d) + n - 1;
    char const * ss = static_cast<char const *>(s) + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void *
memset(void * d, int c, size_t n)
{
  if (on) {
    bulk(d, n, true, PC);
  }
  void * r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// One byte stands for the hidden state of each such function.
static char hidden[8];
char *
strtok(char * __restrict s, char const * __restrict d)
{
  static auto const r = NEXT(strtok);
  bulk(&hidden[0], 1, true, PC);
  if (on) {
    syncPoint();
  }
  return r(s, d);
}
int
rand()
{
  static auto const r = NEXT(rand);
  bulk(&hidden[1], 1, true, PC);
  return r();
}
void
srand(unsigned s)
{
  static auto const r = NEXT(srand);
  bulk(&hidden[1], 1, true, PC);
  r(s);
}
struct tm *
localtime(time_t const * t)
{
  static auto const r = NEXT(localtime);
  bulk(&hidden[2], 1, true, PC);
  return r(t);
}
struct tm *
gmtime(time_t const * t)
{
  static auto const r = NEXT(gmtime);
  bulk(&hidden[2], 1, true, PC);
  return r(t);
}
char *
setlocale(int c, char const * l)
{
  static auto const r = NEXT(setlocale);
  bulk(&hidden[3], 1, l != nullptr, PC);
  return r(c, l);
}
double
drand48()
{
  static auto const r = NEXT(drand48);
  bulk(&hidden[4], 1, true, PC);
  return r();
}
long
random()
{
  static auto const r = NEXT(random);
  bulk(&hidden[5], 1, true, PC);
  return r();
}

} // extern "C"
