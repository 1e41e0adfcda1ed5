// Message passing between forked processes, enough for the reference programs, with chosen timing:
//   GALS_RANKS      number of ranks (default 1)
//   GALS_ROOM       bytes a message may have to be sent without waiting for its receiver (default: all; 0: every send waits)
//   GALS_SLOW_RANK  this rank dawdles before every message
//   GALS_PERTURB    seed of small random delays of all ranks
// A message that does not fit its receiver, or arrives with another element type, ends the run with an error.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <vector>
#include <errno.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

typedef int MPI_Comm;
typedef int MPI_Datatype;           // (kind << 8) | size
typedef long long MPI_Aint;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t bytes; };
struct gals_request { bool recv, done; void *buf; int count; MPI_Datatype type; int peer, tag; };
typedef gals_request *MPI_Request;
enum { MPI_SUCCESS = 0, MPI_COMM_WORLD = 91, MPI_COMM_SELF = 92, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_UNDEFINED = -32766 };
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_STATUS_IGNORE ((MPI_Status *) nullptr)
#define MPI_STATUSES_IGNORE ((MPI_Status *) nullptr)
#define MPI_REQUEST_NULL ((MPI_Request) nullptr)
#define MPI_MAX_PROCESSOR_NAME 64
static const MPI_Datatype MPI_CHAR = 0x101, MPI_BYTE = 0x201, MPI_SHORT = 0x302, MPI_INT = 0x404, MPI_UNSIGNED = 0x504, MPI_LONG = 0x608,
                          MPI_UNSIGNED_LONG = 0x708, MPI_LONG_LONG = 0x808, MPI_FLOAT = 0x904, MPI_DOUBLE = 0xA08, MPI_UINT32_T = 0x504,
                          MPI_INT32_T = 0x404, MPI_INT64_T = 0x608, MPI_UINT64_T = 0x708, MPI_C_BOOL = 0xB01, MPI_CXX_BOOL = 0xB01,
                          MPI_UNSIGNED_CHAR = 0xC01;
extern "C" __attribute__((weak)) void gals_reseed(int rank);

namespace gals_mpi {
struct Head { int tag, type; uint64_t bytes; int wait; };
struct Letter { Head h; std::vector<char> data; };
struct World {
  int rank = 0, size = 1, slow = -1;
  bool up = false;
  uint64_t room = UINT64_MAX, state = 0;
  std::vector<int> data, ack;             // sockets to every other rank: letters, and the receipts that waiting senders get
  std::vector<std::deque<Letter>> in;
  std::vector<pid_t> children;
};
inline World &world() { static World w; return w; }
inline void fail(const char *why)
{
  fprintf(stderr, "message passing: rank %d: %s\n", world().rank, why);
  fflush(stderr);
  _exit(91);
}
inline void put(int fd, const void *p, size_t n)
{
  const char *c = (const char *) p;
  while (n) {
    ssize_t k = ::send(fd, c, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) fail("the receiver is gone");
    c += k;
    n -= (size_t) k;
  }
}
inline void take(int fd, void *p, size_t n)
{
  char *c = (char *) p;
  while (n) {
    ssize_t k = ::recv(fd, c, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) fail("the sender is gone");
    c += k;
    n -= (size_t) k;
  }
}
inline void dawdle()
{
  World &w = world();
  if (w.rank == w.slow) usleep(3000);
  if (w.state) {
    w.state ^= w.state << 13;
    w.state ^= w.state >> 7;
    w.state ^= w.state << 17;
    if ((w.state >> 20) % 4 == 0) usleep((w.state >> 30) % 300);
  }
}
inline void finish()
{
  World &w = world();
  if (w.rank != 0) return;
  int bad = 0;
  for (pid_t c : w.children) {
    int st = 0;
    if (waitpid(c, &st, 0) == c && st != 0) bad = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
  }
  w.children.clear();
  if (bad) {
    fflush(nullptr);
    _exit(bad);
  }
}
inline void start()
{
  World &w = world();
  if (w.up) return;
  w.up = true;
  if (const char *s = getenv("GALS_RANKS")) w.size = atoi(s);
  if (const char *s = getenv("GALS_SLOW_RANK")) w.slow = atoi(s);
  if (const char *s = getenv("GALS_ROOM")) w.room = strtoull(s, nullptr, 10);
  uint64_t seed = getenv("GALS_PERTURB") ? strtoull(getenv("GALS_PERTURB"), nullptr, 10) : 0;
  const int n = w.size;
  std::vector<std::vector<int>> d(n, std::vector<int>(n, -1)), a = d;
  for (int p = 0; p < n; ++p)
    for (int q = p + 1; q < n; ++q) {
      int s[2];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) fail("socketpair");
      d[p][q] = s[0];
      d[q][p] = s[1];
      if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) fail("socketpair");
      a[p][q] = s[0];
      a[q][p] = s[1];
    }
  fflush(nullptr);
  const pid_t parent = getpid();
  for (int p = 1; p < n; ++p) {
    pid_t c = fork();
    if (c < 0) fail("fork");
    if (c == 0) {
      w.rank = p;
      w.children.clear();
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (getppid() != parent) _exit(92);
      break;
    }
    w.children.push_back(c);
  }
  for (int p = 0; p < n; ++p)
    for (int q = 0; q < n; ++q)
      if (p != w.rank && d[p][q] >= 0) {
        close(d[p][q]);
        close(a[p][q]);
      }
  w.data = d[w.rank];
  w.ack = a[w.rank];
  w.in.resize(n);
  if (seed) w.state = seed * 2654435761u + 977 * (w.rank + 1) + 88172645463325252ull;
  if (gals_reseed) gals_reseed(w.rank);
  if (w.rank == 0) atexit(finish);
}
inline void send(const void *buf, int count, MPI_Datatype t, int to, int tag, bool wait)
{
  World &w = world();
  dawdle();
  const uint64_t bytes = (uint64_t) count * (t & 255);
  if (to == w.rank) {
    Letter l{{tag, t, bytes, 0}, std::vector<char>((const char *) buf, (const char *) buf + bytes)};
    w.in[to].push_back(l);
    return;
  }
  if (to < 0 || to >= w.size) fail("no such receiver");
  Head h{tag, t, bytes, wait || bytes > w.room || w.room == 0};
  put(w.data[to], &h, sizeof h);
  put(w.data[to], buf, bytes);
  if (h.wait) {
    char c;
    take(w.ack[to], &c, 1);
  }
}
inline void recv(void *buf, int count, MPI_Datatype t, int from, int tag, MPI_Status *st)
{
  World &w = world();
  dawdle();
  if (from == MPI_ANY_SOURCE) {
    if (w.size != 2) fail("any source: only between two ranks");
    from = 1 - w.rank;
  }
  if (from < 0 || from >= w.size) fail("no such sender");
  std::deque<Letter> &in = w.in[from];
  size_t k = 0;
  for (;; ++k) {
    if (k == in.size()) {
      if (from == w.rank) fail("a message from itself that was never sent");
      Letter l;
      take(w.data[from], &l.h, sizeof l.h);
      l.data.resize(l.h.bytes);
      take(w.data[from], l.data.data(), l.h.bytes);
      in.push_back(std::move(l));
    }
    if (tag == MPI_ANY_TAG || in[k].h.tag == tag) break;
  }
  Letter l = std::move(in[k]);
  in.erase(in.begin() + (long) k);
  if (l.h.type != t) fail("the message has another element type");
  if (l.h.bytes > (uint64_t) count * (t & 255)) fail("the message is longer than its receiver expects");
  memcpy(buf, l.data.data(), l.h.bytes);
  if (l.h.wait) put(w.ack[from], "", 1);
  if (st) *st = MPI_Status{from, l.h.tag, 0, (size_t) l.h.bytes};
}
}  // namespace gals_mpi

inline int MPI_Init(int *, char ***) { gals_mpi::start(); return 0; }
inline int MPI_Init_thread(int *, char ***, int want, int *got) { gals_mpi::start(); if (got) *got = want; return 0; }
inline int MPI_Initialized(int *f) { *f = gals_mpi::world().up; return 0; }
inline int MPI_Finalize() { gals_mpi::finish(); return 0; }
inline int MPI_Abort(MPI_Comm, int c) { _exit(c ? c : 1); }
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = gals_mpi::world().rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int *s) { *s = gals_mpi::world().size; return 0; }
inline int MPI_Get_processor_name(char *s, int *n) { strcpy(s, "here"); *n = 4; return 0; }
inline double MPI_Wtime() { timeval t; gettimeofday(&t, nullptr); return (double) t.tv_sec + 1e-6 * (double) t.tv_usec; }
inline int MPI_Type_size(MPI_Datatype t, int *n) { *n = t & 255; return 0; }
inline int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int) (s->bytes / (t & 255)); return 0; }
inline int MPI_Send(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { gals_mpi::send(b, n, t, to, tag, false); return 0; }
inline int MPI_Ssend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm) { gals_mpi::send(b, n, t, to, tag, true); return 0; }
inline int MPI_Recv(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Status *s) { gals_mpi::recv(b, n, t, from, tag, s); return 0; }
// a send that is not waited for at once may use its buffer until it is: the contents are taken at the wait
inline int MPI_Isend(const void *b, int n, MPI_Datatype t, int to, int tag, MPI_Comm, MPI_Request *r) { *r = new gals_request{false, false, (void *) b, n, t, to, tag}; return 0; }
inline int MPI_Irecv(void *b, int n, MPI_Datatype t, int from, int tag, MPI_Comm, MPI_Request *r) { *r = new gals_request{true, false, b, n, t, from, tag}; return 0; }
inline int MPI_Wait(MPI_Request *r, MPI_Status *s)
{
  if (!*r) return 0;
  gals_request *q = *r;
  if (q->recv)
    gals_mpi::recv(q->buf, q->count, q->type, q->peer, q->tag, s);
  else
    gals_mpi::send(q->buf, q->count, q->type, q->peer, q->tag, false);
  delete q;
  *r = nullptr;
  return 0;
}
inline int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s)
{
  for (int k = 0; k < n; ++k)          // sends first: a rank may wait for both at once
    if (r[k] && !r[k]->recv) MPI_Wait(&r[k], MPI_STATUS_IGNORE);
  for (int k = 0; k < n; ++k) MPI_Wait(&r[k], s ? s + k : nullptr);
  return 0;
}
inline int MPI_Barrier(MPI_Comm)
{
  gals_mpi::World &w = gals_mpi::world();
  char c = 0;
  for (int p = 1; p < w.size; ++p) {
    if (w.rank == 0) gals_mpi::recv(&c, 1, MPI_CHAR, p, -77, nullptr);
    else if (w.rank == p) gals_mpi::send(&c, 1, MPI_CHAR, 0, -77, false);
  }
  for (int p = 1; p < w.size; ++p) {
    if (w.rank == 0) gals_mpi::send(&c, 1, MPI_CHAR, p, -78, false);
    else if (w.rank == p) gals_mpi::recv(&c, 1, MPI_CHAR, 0, -78, nullptr);
  }
  return 0;
}
inline int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm)
{
  gals_mpi::World &w = gals_mpi::world();
  for (int p = 0; p < w.size; ++p) {
    if (p == root) continue;
    if (w.rank == root) gals_mpi::send(b, n, t, p, -79, false);
    else if (w.rank == p) gals_mpi::recv(b, n, t, root, -79, nullptr);
  }
  return 0;
}
inline int MPI_Gather(const void *b, int n, MPI_Datatype t, void *o, int m, MPI_Datatype u, int root, MPI_Comm)
{
  gals_mpi::World &w = gals_mpi::world();
  if (w.rank != root) { gals_mpi::send(b, n, t, root, -80, false); return 0; }
  for (int p = 0; p < w.size; ++p) {
    char *at = (char *) o + (size_t) p * m * (u & 255);
    if (p == root) memcpy(at, b, (size_t) n * (t & 255));
    else gals_mpi::recv(at, m, u, p, -80, nullptr);
  }
  return 0;
}
inline int MPI_Sendrecv(const void *b, int n, MPI_Datatype t, int to, int tag, void *c, int m, MPI_Datatype u, int from, int tag2, MPI_Comm, MPI_Status *s)
{
  if (gals_mpi::world().rank % 2 == 0) {
    gals_mpi::send(b, n, t, to, tag, false);
    gals_mpi::recv(c, m, u, from, tag2, s);
  } else {
    gals_mpi::recv(c, m, u, from, tag2, s);
    gals_mpi::send(b, n, t, to, tag, false);
  }
  return 0;
}
