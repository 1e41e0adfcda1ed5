// Threads whose schedule is chosen: one runs at a time, and at accesses made by the library (compiled with the calls of
// -fsanitize=thread) a generator seeded with GALS_PERTURB decides whether another goes on.  Every place that two of them
// touch, one writing, is reported, whichever way this schedule went - unless a lock, an atomic operation or the making of a
// static object orders the two accesses (vector clocks).
#include <pthread.h>
#include <semaphore.h>
#include <map>
#include <new>
#include <vector>
#include "ref/shadow.h"

namespace {
int size = 0, now = -1;
sem_t *turn = nullptr;
bool *done = nullptr;
bool busy = false;                      // in this file
uint64_t state = 0;
unsigned rate = 200;
std::vector<void *> *later = nullptr;
thread_local int me = -1, locks = 0, quiet = 0;
void (*body)(int) = nullptr;

QUIET unsigned draw(unsigned n)
{
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return (unsigned) ((state >> 11) % n);
}
QUIET void give(int k)
{
  now = k;
  sem_post(&turn[k]);
}
QUIET void wait_turn()
{
  while (sem_wait(&turn[me])) {}
}
QUIET int another()
{
  unsigned q = draw(size);
  for (int k = 0; k < size; ++k)
    if (!done[(q + k) % size]) return (q + k) % size;
  return -1;
}
QUIET void other()
{
  int k = another();
  if (k < 0 || k == me) return;
  give(k);
  wait_turn();
}
QUIET void *entry(void *p)
{
  me = (int) (long) p;
  wait_turn();
  body(me);
  done[me] = true;
  int k = another();
  if (k >= 0) give(k);
  me = -1;
  return nullptr;
}
}  // namespace

namespace {
const int MOST = 4;
struct Clock {
  uint32_t t[MOST];
};
Clock clocks[MOST];
std::map<uintptr_t, Clock> *released = nullptr;       // what a lock or atomic object carries
struct Place {
  uintptr_t addr;                      // of eight bytes
  int writer;                          // -1: none
  uint32_t written, read[MOST];
  uint8_t wmask, rmask[MOST];          // which of them
  uintptr_t wpc, rpc;
};
const size_t PLACES = size_t(1) << 20;
Place *places = nullptr;

QUIET void take(uintptr_t a)
{
  if (me < 0) return;
  bool was = busy;
  busy = true;
  auto i = released->find(a);
  if (i != released->end())
    for (int k = 0; k < MOST; ++k)
      if (clocks[me].t[k] < i->second.t[k]) clocks[me].t[k] = i->second.t[k];
  busy = was;
}
QUIET void pass(uintptr_t a)
{
  if (me < 0) return;
  bool was = busy;
  busy = true;
  Clock &c = (*released)[a];
  for (int k = 0; k < MOST; ++k)
    if (c.t[k] < clocks[me].t[k]) c.t[k] = clocks[me].t[k];
  ++clocks[me].t[me];
  busy = was;
}
QUIET void touch(uintptr_t addr, size_t n, bool write, uintptr_t pc)
{
  Clock &c = clocks[me];
  for (uintptr_t a = addr & ~uintptr_t(7); a < addr + n; a += 8) {
    unsigned mask = 255;
    if (a < addr) mask &= 255u << (addr - a);
    if (a + 8 > addr + n) mask &= 255u >> (a + 8 - addr - n);
    size_t q = ((a >> 3) * 0x9E3779B97F4A7C15ull) >> 44, tries = 0;
    while (places[q].addr && places[q].addr != a && ++tries < 64) q = (q + 1) & (PLACES - 1);
    Place &s = places[q];
    if (s.addr != a) s = Place{a, -1, 0, {0, 0, 0, 0}, 0, {0, 0, 0, 0}, 0, 0};
    if (s.writer >= 0 && s.writer != me && s.written > c.t[s.writer] && (s.wmask & mask)) {
      gals_shadow::report(write ? "write/write" : "write/read", s.wpc, pc);
      return;
    }
    if (write)
      for (int r = 0; r < size; ++r)
        if (r != me && s.read[r] > c.t[r] && (s.rmask[r] & mask)) {
          gals_shadow::report("read/write", s.rpc, pc);
          return;
        }
    if (write) {
      s.wmask = s.writer == me && s.written == c.t[me] ? s.wmask | mask : mask;
      s.writer = me;
      s.written = c.t[me];
      s.wpc = pc;
    } else {
      s.rmask[me] = s.read[me] == c.t[me] ? s.rmask[me] | mask : mask;
      s.read[me] = c.t[me];
      s.rpc = pc;
    }
  }
}
}  // namespace

QUIET static void gals_access(uintptr_t addr, size_t n, bool write, uintptr_t pc)
{
  if (me < 0 || busy || quiet) return;
  busy = true;
  touch(addr, n, write, pc);
  busy = false;
  if (locks == 0 && draw(rate) == 0) other();
}

QUIET void gals_quiet(int more) { quiet += more; }
// run body(0..n-1) as threads; to be called once
QUIET void gals_threads(int n, void (*fn)(int))
{
  gals_shadow::open();
  places = (Place *) mmap(nullptr, PLACES * sizeof(Place), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  released = new std::map<uintptr_t, Clock>;
  for (int k = 0; k < MOST; ++k)
    for (int l = 0; l < MOST; ++l) clocks[k].t[l] = k == l ? 1 : 0;
  const char *s = getenv("GALS_PERTURB"), *r = getenv("GALS_PERTURB_RATE");
  state = 88172645463325252ull + 1000003ull * (s ? strtoull(s, nullptr, 10) : 0);
  if (r && atoi(r) > 0) rate = (unsigned) atoi(r);
  size = n;
  body = fn;
  turn = new sem_t[n];
  done = new bool[n];
  std::vector<pthread_t> ts(n);
  later = new std::vector<void *>;
  for (int k = 0; k < n; ++k) {
    sem_init(&turn[k], 0, 0);
    done[k] = false;
  }
  for (int k = 0; k < n; ++k) pthread_create(&ts[k], nullptr, entry, (void *) (long) k);
  give((int) draw(n));
  for (int k = 0; k < n; ++k) pthread_join(ts[k], nullptr);
}

// Locks that the library may use: their holder is not interrupted, so nobody ever waits for one.
extern "C" {
#define GALS_LOCK(NAME, T) \
  QUIET int __real_##NAME(T *m); \
  QUIET int __wrap_##NAME(T *m) { int r = __real_##NAME(m); if (r == 0) ++locks, take((uintptr_t) m); return r; }
#define GALS_UNLOCK(NAME, T) \
  QUIET int __real_##NAME(T *m); \
  QUIET int __wrap_##NAME(T *m) { pass((uintptr_t) m); if (locks > 0) --locks; return __real_##NAME(m); }
GALS_LOCK(pthread_mutex_lock, pthread_mutex_t)
GALS_LOCK(pthread_mutex_trylock, pthread_mutex_t)
GALS_UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
GALS_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t)
GALS_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t)
GALS_UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
QUIET int __real___cxa_guard_acquire(uint64_t *g);
QUIET int __wrap___cxa_guard_acquire(uint64_t *g)
{
  int r = __real___cxa_guard_acquire(g);
  take((uintptr_t) g);
  if (r) ++locks;
  return r;
}
QUIET void __real___cxa_guard_release(uint64_t *g);
QUIET void __wrap___cxa_guard_release(uint64_t *g) { pass((uintptr_t) g); __real___cxa_guard_release(g); --locks; }
QUIET void __real___cxa_guard_abort(uint64_t *g);
QUIET void __wrap___cxa_guard_abort(uint64_t *g) { __real___cxa_guard_abort(g); --locks; }
QUIET int __real_pthread_once(pthread_once_t *o, void (*f)());
QUIET int __wrap_pthread_once(pthread_once_t *o, void (*f)())
{
  ++locks;
  take((uintptr_t) o);
  int r = __real_pthread_once(o, f);
  pass((uintptr_t) o);
  --locks;
  return r;
}
// memory given back while the threads run is not used again
QUIET void __real_free(void *p);
QUIET void __wrap_free(void *p)
{
  if (me >= 0 && later && p && !busy) {
    busy = true;
    later->push_back(p);
    busy = false;
  } else
    __real_free(p);
}
// (the compiler leaves these unreported)
QUIET void *__real_memcpy(void *, const void *, size_t);
QUIET void *__wrap_memcpy(void *a, const void *b, size_t n)
{
  gals_access((uintptr_t) b, n, false, PC);
  gals_access((uintptr_t) a, n, true, PC);
  return __real_memcpy(a, b, n);
}
QUIET void *__real_memmove(void *, const void *, size_t);
QUIET void *__wrap_memmove(void *a, const void *b, size_t n)
{
  gals_access((uintptr_t) b, n, false, PC);
  gals_access((uintptr_t) a, n, true, PC);
  return __real_memmove(a, b, n);
}
QUIET void *__real_memset(void *, int, size_t);
QUIET void *__wrap_memset(void *a, int c, size_t n)
{
  gals_access((uintptr_t) a, n, true, PC);
  return __real_memset(a, c, n);
}
// atomic operations order what comes before and after them
QUIET static uintptr_t at(uintptr_t p)
{
  if (me >= 0 && !busy && !quiet && locks == 0 && draw(rate) == 0) other();
  return p;
}
#define AT(P) at((uintptr_t) (P))
#define GALS_RMW(N, T, OP) \
  QUIET T __tsan_atomic##N##_##OP(volatile T *p, T v, int) { take(AT(p)); T r = __atomic_##OP(p, v, __ATOMIC_SEQ_CST); pass(AT(p)); return r; }
#define GALS_ATOMIC(N, T) \
  QUIET T __tsan_atomic##N##_load(const volatile T *p, int) { T r = __atomic_load_n(p, __ATOMIC_SEQ_CST); take(AT(p)); return r; } \
  QUIET void __tsan_atomic##N##_store(volatile T *p, T v, int) { pass(AT(p)); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { take(AT(p)); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); pass(AT(p)); return r; } \
  GALS_RMW(N, T, fetch_add) GALS_RMW(N, T, fetch_sub) GALS_RMW(N, T, fetch_or) GALS_RMW(N, T, fetch_and) GALS_RMW(N, T, fetch_xor) \
  QUIET int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) \
  { take(AT(p)); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pass(AT(p)); return r; } \
  QUIET int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) \
  { take(AT(p)); int r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pass(AT(p)); return r; } \
  QUIET T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) \
  { take(AT(p)); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); pass(AT(p)); return e; }
GALS_ATOMIC(8, uint8_t) GALS_ATOMIC(16, uint16_t) GALS_ATOMIC(32, uint32_t) GALS_ATOMIC(64, uint64_t)
QUIET void __tsan_atomic_thread_fence(int) { take(1); pass(1); }
}
QUIET void operator delete(void *p) noexcept { __wrap_free(p); }
QUIET void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
QUIET void operator delete[](void *p) noexcept { __wrap_free(p); }
QUIET void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
