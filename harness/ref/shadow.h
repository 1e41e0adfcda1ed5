// What every thread of a team touched since the team last met: two threads must not touch one byte if one of them writes it.
// Fed by the calls the compiler inserts for -fsanitize=thread.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

#define QUIET __attribute__((no_instrument_function, no_sanitize("thread")))

namespace gals_shadow {
struct Slot {
  uintptr_t addr;
  uint32_t epoch;
  int32_t writer, reader;         // thread + 1; reader -1: several
  uint8_t wlock, rlock;           // every access so far was under the lock
  uintptr_t wpc, rpc;
};
static const size_t SLOTS = size_t(1) << 20;
static Slot *table = nullptr;
static uint32_t epoch = 1;
static int races = 0;
static int out = -1;

QUIET inline void report(const char *kind, uintptr_t a, uintptr_t b)
{
  if (races++ >= 20 || out < 0) return;
  char line[120];
  int n = snprintf(line, sizeof line, "%s %lx %lx\n", kind, (unsigned long) a, (unsigned long) b);
  if (write(out, line, n) < 0) {}
}
QUIET inline void open()
{
  table = (Slot *) mmap(nullptr, SLOTS * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (const char *f = getenv("GALS_RACES")) out = ::open(f, O_WRONLY | O_CREAT | O_APPEND, 0644);
}
QUIET inline void touch(uintptr_t addr, size_t n, bool write, int thread, bool lock, uintptr_t pc)
{
  for (size_t k = 0; k < n; ++k) {
    const uintptr_t a = addr + k;
    size_t q = (a * 0x9E3779B97F4A7C15ull) >> 44;
    size_t tries = 0;
    while (table[q].epoch == epoch && table[q].addr != a && ++tries < 64) q = (q + 1) & (SLOTS - 1);
    Slot &s = table[q];
    if (s.epoch != epoch || s.addr != a) s = Slot{a, epoch, 0, 0, 1, 1, 0, 0};
    const int me = thread + 1;
    if (s.writer && s.writer != me && !(lock && s.wlock)) {
      report(write ? "write/write" : "write/read", s.wpc, pc);
      return;
    }
    if (write && s.reader && s.reader != me && !(lock && s.rlock)) {
      report("read/write", s.rpc, pc);
      return;
    }
    if (write) {
      s.writer = me;
      s.wlock = s.wlock && lock;
      s.wpc = pc;
    } else {
      s.reader = !s.reader || s.reader == me ? me : -1;
      s.rlock = s.rlock && lock;
      s.rpc = pc;
    }
  }
}
QUIET inline void meet() { ++epoch; }
}  // namespace gals_shadow

// to be defined by the user of this file: called at every access
static void gals_access(uintptr_t addr, size_t n, bool write, uintptr_t pc);
extern "C" {
#define PC ((uintptr_t) __builtin_return_address(0))
#define GALS_HOOK(N) \
  QUIET void __tsan_read##N(void *p) { gals_access((uintptr_t) p, N, false, PC); } \
  QUIET void __tsan_write##N(void *p) { gals_access((uintptr_t) p, N, true, PC); } \
  QUIET void __tsan_unaligned_read##N(void *p) { gals_access((uintptr_t) p, N, false, PC); } \
  QUIET void __tsan_unaligned_write##N(void *p) { gals_access((uintptr_t) p, N, true, PC); } \
  QUIET void __tsan_volatile_read##N(void *p) { gals_access((uintptr_t) p, N, false, PC); } \
  QUIET void __tsan_volatile_write##N(void *p) { gals_access((uintptr_t) p, N, true, PC); }
GALS_HOOK(1) GALS_HOOK(2) GALS_HOOK(4) GALS_HOOK(8) GALS_HOOK(16)
QUIET void __tsan_read_range(void *p, size_t n) { gals_access((uintptr_t) p, n, false, PC); }
QUIET void __tsan_write_range(void *p, size_t n) { gals_access((uintptr_t) p, n, true, PC); }
QUIET void __tsan_vptr_update(void **p, void *) { gals_access((uintptr_t) p, 8, true, PC); }
QUIET void __tsan_vptr_read(void **p) { gals_access((uintptr_t) p, 8, false, PC); }
QUIET void __tsan_func_entry(void *) {}
QUIET void __tsan_func_exit() {}
QUIET void __tsan_init() {}
}
