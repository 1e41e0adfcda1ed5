// An OpenMP runtime whose schedules are chosen: the threads of a team are coroutines, switched at memory accesses by a
// generator seeded with GALS_PERTURB, so that a run can be repeated exactly; and every pair of accesses that no barrier
// orders is checked for a conflict (shadow.h), whichever way this schedule happened to go.
#include "shadow.h"
#include <atomic>
#include <new>
#include <vector>
#include <ucontext.h>

namespace {
struct Loop { bool open; long next, end, incr, chunk; int left; };
struct Thread {
  ucontext_t ctx;
  bool done, waiting, atomic;
  int locks;
  long single;
};
int wanted = 4;
bool in_team = false, hushed = false;
Thread *team = nullptr;
int size = 1, me = 0;
ucontext_t home;
void (*body)(void *) = nullptr;
void *arg = nullptr;
uint64_t state = 0;
unsigned rate = 12;
std::vector<void *> *later = nullptr;
Loop loop;
int holder = -1;
long singles = 0;

QUIET unsigned draw(unsigned n)
{
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  return (unsigned) ((state >> 11) % n);
}
QUIET void to(int k)
{
  if (k == me) return;
  int from = me;
  me = k;
  swapcontext(&team[from].ctx, &team[k].ctx);
}
QUIET bool runnable(int k) { return !team[k].done && !team[k].waiting; }
QUIET void other()           // to any thread that can run; the caller may stay
{
  unsigned q = draw(size);
  for (int k = 0; k < size; ++k) {
    int c = (q + k) % size;
    if (runnable(c)) { to(c); return; }
  }
}
QUIET void barrier()
{
  if (!in_team) return;
  team[me].waiting = true;
  bool all = true;
  for (int k = 0; k < size; ++k) all = all && (team[k].waiting || team[k].done);
  if (all) {
    for (int k = 0; k < size; ++k) team[k].waiting = false;
    gals_shadow::meet();
    other();
  } else
    while (team[me].waiting) {
      int before = me;
      other();
      if (me == before && team[me].waiting) break;
    }
}
QUIET void entry()
{
  body(arg);
  team[me].done = true;
  bool all = true, ready = false;
  for (int k = 0; k < size; ++k) {
    all = all && team[k].done;
    ready = ready || runnable(k);
  }
  if (all) setcontext(&home);
  if (!ready) {         // the others wait for this one at a barrier it does not reach: it has left
    for (int k = 0; k < size; ++k) team[k].waiting = false;
    gals_shadow::meet();
  }
  for (;;) {
    unsigned q = draw(size);
    for (int k = 0; k < size; ++k) {
      int c = (q + k) % size;
      if (runnable(c)) { me = c; setcontext(&team[c].ctx); }
    }
  }
}
// the CUDA program: device memory and the thread now running
struct Block { uintptr_t at; size_t n; };
std::vector<Block> *blocks = nullptr;
int device = -1;
const size_t STACK = 1 << 18;
QUIET void start() __attribute__((constructor));
QUIET void start()
{
  gals_shadow::open();
  const char *s = getenv("GALS_PERTURB"), *r = getenv("GALS_PERTURB_RATE");
  state = 88172645463325252ull + 1000003ull * (s ? strtoull(s, nullptr, 10) : 0);
  if (r) rate = (unsigned) atoi(r);
}
}  // namespace

QUIET static void gals_access(uintptr_t addr, size_t n, bool write, uintptr_t pc)
{
  if (device >= 0) {        // one of the threads of a kernel; only what they share counts
    for (const Block &b : *blocks)
      if (addr >= b.at && addr < b.at + b.n) {
        gals_shadow::touch(addr, n, write, device, false, pc);
        return;
      }
    return;
  }
  if (!in_team || hushed) return;
  hushed = true;
  gals_shadow::touch(addr, n, write, me, team[me].locks > 0 || team[me].atomic, pc);
  hushed = false;
  if (rate && team[me].locks == 0 && !team[me].atomic && draw(rate) == 0) other();
}

extern "C" {
QUIET void gals_reseed(int rank) { state += 7919 * 1000003ull * rank; }
QUIET void gals_device_memory(void *p, size_t n)
{
  if (!blocks) blocks = new std::vector<Block>;
  for (Block &b : *blocks)
    if (b.at == (uintptr_t) p) { b.n = n; return; }
  blocks->push_back(Block{(uintptr_t) p, n});
}
QUIET void gals_device_thread(int k)
{
  if (!blocks) blocks = new std::vector<Block>;
  if (k <= 0) gals_shadow::meet();
  device = k;
}
QUIET void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
  if (in_team) { fn(data); return; }           // nested regions have one thread
  size = n ? (int) n : wanted;
  if (size < 1) size = 1;
  body = fn;
  arg = data;
  team = new Thread[size];
  std::vector<void *> stacks, gone;
  later = &gone;
  for (int k = 0; k < size; ++k) {
    void *st = mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    stacks.push_back(st);
    team[k].done = team[k].waiting = team[k].atomic = false;
    team[k].locks = 0;
    team[k].single = 0;
    getcontext(&team[k].ctx);
    team[k].ctx.uc_stack.ss_sp = st;
    team[k].ctx.uc_stack.ss_size = STACK;
    team[k].ctx.uc_link = nullptr;
    makecontext(&team[k].ctx, entry, 0);
  }
  gals_shadow::meet();
  loop.open = false;
  holder = -1;
  singles = 0;
  in_team = true;
  me = (int) draw(size);
  swapcontext(&home, &team[me].ctx);
  in_team = false;
  gals_shadow::meet();
  later = nullptr;
  for (void *p : gone) free(p);
  for (void *p : stacks) munmap(p, STACK);
  delete[] team;
  team = nullptr;
  size = 1;
  me = 0;
}
QUIET void GOMP_barrier() { barrier(); }
QUIET bool GOMP_cancellation_point(int) { return false; }
QUIET int omp_get_thread_num() { return in_team ? me : 0; }
QUIET int omp_get_num_threads() { return in_team ? size : 1; }
QUIET int omp_get_max_threads() { return wanted; }
QUIET int omp_get_num_procs() { return wanted; }
QUIET int omp_in_parallel() { return in_team; }
QUIET void omp_set_num_threads(int n) { if (n > 0) wanted = n; }
QUIET void omp_set_dynamic(int) {}
QUIET void omp_set_nested(int) {}
QUIET double omp_get_wtime() { return 0; }
QUIET static void lock()
{
  if (!in_team) return;
  while (holder >= 0 && holder != me) other();
  holder = me;
  ++team[me].locks;
}
QUIET static void unlock()
{
  if (!in_team) return;
  if (--team[me].locks == 0) holder = -1;
}
QUIET void GOMP_critical_start() { lock(); }
QUIET void GOMP_critical_end() { unlock(); }
QUIET void GOMP_critical_name_start(void **) { lock(); }
QUIET void GOMP_critical_name_end(void **) { unlock(); }
QUIET void GOMP_atomic_start() { lock(); }
QUIET void GOMP_atomic_end() { unlock(); }
QUIET bool GOMP_single_start()
{
  if (!in_team) return true;
  if (++team[me].single > singles) { singles = team[me].single; return true; }
  return false;
}
// loops whose iterations are handed out: one at a time is open
QUIET static bool next_chunk(long *a, long *b)
{
  if (in_team && rate && draw(2)) other();
  if ((loop.incr > 0 && loop.next >= loop.end) || (loop.incr < 0 && loop.next <= loop.end)) return false;
  *a = loop.next;
  long e = loop.next + loop.incr * (loop.chunk > 0 ? loop.chunk : 1);
  *b = (loop.incr > 0 ? e > loop.end : e < loop.end) ? loop.end : e;
  loop.next = *b;
  return true;
}
QUIET static void open_loop(long s, long e, long i, long c)
{
  if (!loop.open) loop = Loop{true, s, e, i, c, size};
}
QUIET static bool loop_start(long s, long e, long i, long c, long *a, long *b) { open_loop(s, e, i, c); return next_chunk(a, b); }
QUIET static void leave_loop() { if (--loop.left <= 0) loop.open = false; }
QUIET static bool loop_start_ull(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b)
{
  (void) up;
  return loop_start((long) s, (long) e, (long) i, (long) c, (long *) a, (long *) b);
}
#define GALS_LOOPS(K) \
  QUIET bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  QUIET bool GOMP_loop_##K##_next(long *a, long *b) { return next_chunk(a, b); } \
  QUIET bool GOMP_loop_ull_##K##_start(bool u, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return loop_start_ull(u, s, e, i, c, a, b); } \
  QUIET bool GOMP_loop_ull_##K##_next(unsigned long long *a, unsigned long long *b) { return next_chunk((long *) a, (long *) b); } \
  QUIET void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
  { loop = Loop{true, s, e, i, c, (int) (n ? n : wanted)}; GOMP_parallel_kept(fn, d, n, f); }
static void GOMP_parallel_kept(void (*fn)(void *), void *d, unsigned n, unsigned f);
GALS_LOOPS(dynamic) GALS_LOOPS(guided) GALS_LOOPS(nonmonotonic_dynamic) GALS_LOOPS(nonmonotonic_guided) GALS_LOOPS(static)
#define GALS_LOOPS_RT(K) \
  QUIET bool GOMP_loop_##K##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); } \
  QUIET bool GOMP_loop_##K##_next(long *a, long *b) { return next_chunk(a, b); } \
  QUIET void GOMP_parallel_loop_##K(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) \
  { loop = Loop{true, s, e, i, 1, (int) (n ? n : wanted)}; GOMP_parallel_kept(fn, d, n, f); }
GALS_LOOPS_RT(runtime) GALS_LOOPS_RT(nonmonotonic_runtime) GALS_LOOPS_RT(maybe_nonmonotonic_runtime)
QUIET void GOMP_loop_end() { leave_loop(); barrier(); }
QUIET void GOMP_loop_end_nowait() { leave_loop(); }
struct Kept { void (*fn)(void *); void *d; Loop l; };
static Kept kept;
QUIET static void run_kept(void *) { kept.fn(kept.d); }
QUIET static void GOMP_parallel_kept(void (*fn)(void *), void *d, unsigned n, unsigned f)
{
  Loop l = loop;
  // the loop belongs to the team about to start
  kept = Kept{fn, d, l};
  struct Open {
    static QUIET void go(void *) { open_loop(kept.l.next, kept.l.end, kept.l.incr, kept.l.chunk); run_kept(nullptr); }
  };
  GOMP_parallel(Open::go, nullptr, n, f);
}

// atomics
#define GALS_ATOMIC(N, T) \
  QUIET T __tsan_atomic##N##_load(const volatile T *p, int) { return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  QUIET void __tsan_atomic##N##_store(volatile T *p, T v, int) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  QUIET int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  QUIET int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  QUIET T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
GALS_ATOMIC(8, uint8_t) GALS_ATOMIC(32, uint32_t) GALS_ATOMIC(64, uint64_t)
QUIET void __tsan_atomic_thread_fence(int) {}

// memory given back inside a team is given back when the team has ended: it is not used for two things in between
QUIET void __real_free(void *p);
QUIET void __wrap_free(void *p)
{
  if (later && p && !hushed) {
    hushed = true;
    later->push_back(p);
    hushed = false;
  } else
    __real_free(p);
}
}
QUIET void operator delete(void *p) noexcept { __wrap_free(p); }
QUIET void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
QUIET void operator delete[](void *p) noexcept { __wrap_free(p); }
QUIET void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
