// Linked to the parallel reference programs: disturbs the timing of threads and ranks, so that a schedule the program
// must not depend on is not always the same one.  Called at every function entry (-finstrument-functions).
#include <cstdlib>
#include <cstdint>
#include <sched.h>
#include <unistd.h>

#define QUIET __attribute__((no_instrument_function))

static uint64_t seed = 0;
static unsigned rate = 0;
static thread_local uint64_t state = 0;
static uint64_t threads = 0;

extern "C" {
QUIET void __cyg_profile_func_enter(void *, void *)
{
  if (!rate) return;
  if (!state) state = (seed + 0x9E3779B97F4A7C15ull * __atomic_add_fetch(&threads, 1, __ATOMIC_RELAXED)) | 1;
  state ^= state << 13;
  state ^= state >> 7;
  state ^= state << 17;
  unsigned r = (unsigned) (state >> 20) % rate;
  if (r == 0)
    sched_yield();
  else if (r == 1)
    for (volatile unsigned q = 0; q < ((state >> 40) & 2047); q = q + 1) {}
}
QUIET void __cyg_profile_func_exit(void *, void *) {}
}

extern "C" QUIET void gals_reseed(int rank) { seed += 977 * (unsigned) (rank + 1); }

QUIET __attribute__((constructor)) static void start()
{
  const char *s = getenv("GALS_PERTURB"), *r = getenv("GALS_PERTURB_RATE");
  if (s) {
    seed = strtoull(s, nullptr, 10) * 2654435761u + 12345;
    rate = r ? (unsigned) atoi(r) : 24;
  }
}
