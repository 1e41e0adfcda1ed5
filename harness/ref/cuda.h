// Runs the CUDA reference program on the CPU: every launch runs its threads one after another, in an order chosen by
// GALS_PERTURB; device memory is ordinary memory that starts with arbitrary contents.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __constant__
#define __forceinline__ inline
#define __restrict__ __restrict

struct dim3 {
  unsigned int x, y, z;
  dim3(unsigned int x_ = 1, unsigned int y_ = 1, unsigned int z_ = 1) : x(x_), y(y_), z(z_) {}
};
#ifdef GALS_SHADOW
extern "C" void gals_device_memory(void *, size_t);
extern "C" void gals_device_thread(int);
#endif
static dim3 blockIdx, threadIdx, blockDim, gridDim;

typedef int cudaError_t;
typedef void *cudaEvent_t;
typedef void *cudaStream_t;
static const cudaError_t cudaSuccess = 0;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };

namespace gals_emulation {
struct Piece { const char *at; size_t n; };
inline std::vector<Piece> &pieces() { static std::vector<Piece> v; return v; }
inline bool on_device(const void *p)
{
  for (const Piece &q : pieces())
    if ((const char *) p >= q.at && (const char *) p < q.at + q.n) return true;
  return false;
}
}  // namespace gals_emulation
template <class T> cudaError_t cudaMalloc(T **p, size_t n)
{
  *p = (T *) malloc(n);
  gals_emulation::pieces().push_back({(const char *) *p, n});
  memset((void *) *p, 0xA5, n);
#ifdef GALS_SHADOW
  gals_device_memory((void *) *p, n);
#endif
  return 0;
}
inline cudaError_t cudaFree(void *p)
{
  auto &v = gals_emulation::pieces();
  for (size_t k = 0; k < v.size(); ++k)
    if (v[k].at == (const char *) p) { v.erase(v.begin() + (long) k); break; }
  free(p);
  return 0;
}
// a copy in a direction other than that of its ends is refused, as on a device
inline cudaError_t cudaMemcpy(void *d, const void *s, size_t n, cudaMemcpyKind k)
{
  if (n && k != cudaMemcpyDefault &&
      (gals_emulation::on_device(d) != (k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice) ||
       gals_emulation::on_device(s) != (k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice)))
    return 21;
  memmove(d, s, n);
  return 0;
}
inline cudaError_t cudaMemcpyAsync(void *d, const void *s, size_t n, cudaMemcpyKind k, cudaStream_t = nullptr) { return cudaMemcpy(d, s, n, k); }
inline cudaError_t cudaMemset(void *d, int v, size_t n) { memset(d, v, n); return 0; }
inline cudaError_t cudaDeviceSynchronize() { return 0; }
inline cudaError_t cudaGetLastError() { return 0; }
inline cudaError_t cudaPeekAtLastError() { return 0; }
inline const char *cudaGetErrorString(cudaError_t) { return "no error"; }
inline cudaError_t cudaEventCreate(cudaEvent_t *e) { *e = nullptr; return 0; }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return 0; }
inline cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr) { return 0; }
inline cudaError_t cudaEventSynchronize(cudaEvent_t) { return 0; }
inline cudaError_t cudaEventElapsedTime(float *t, cudaEvent_t, cudaEvent_t) { *t = 0; return 0; }
inline cudaError_t cudaSetDevice(int) { return 0; }
inline cudaError_t cudaDeviceReset() { return 0; }

namespace gals_emulation {
inline uint64_t &state()
{
  static uint64_t s = 88172645463325252ull + 1000003ull * (getenv("GALS_PERTURB") ? strtoull(getenv("GALS_PERTURB"), nullptr, 10) : 0);
  return s;
}
inline unsigned draw(unsigned n)
{
  uint64_t &s = state();
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return (unsigned) ((s >> 11) % n);
}
template <class K> struct Launch {
  K kernel;
  dim3 grid, block;
  template <class... A> void operator()(A... args) const
  {
    struct Id { dim3 b, t; };
    std::vector<Id> ids;
    for (unsigned bz = 0; bz < grid.z; ++bz) for (unsigned by = 0; by < grid.y; ++by) for (unsigned bx = 0; bx < grid.x; ++bx)
      for (unsigned tz = 0; tz < block.z; ++tz) for (unsigned ty = 0; ty < block.y; ++ty) for (unsigned tx = 0; tx < block.x; ++tx)
        ids.push_back({dim3(bx, by, bz), dim3(tx, ty, tz)});
    switch (getenv("GALS_PERTURB") ? draw(3) : 0) {      // in order, backwards, at random
      case 1: std::reverse(ids.begin(), ids.end()); break;
      case 2: for (size_t q = ids.size(); q > 1; --q) std::swap(ids[q - 1], ids[draw((unsigned) q)]); break;
      default: break;
    }
    gridDim = grid;
    blockDim = block;
    int thread = 0;
    for (const Id &id : ids) {
      blockIdx = id.b;
      threadIdx = id.t;
#ifdef GALS_SHADOW
      gals_device_thread(thread++);
#endif
      kernel(args...);
    }
#ifdef GALS_SHADOW
    gals_device_thread(-1);
#endif
  }
};
template <class K> Launch<K> launch(K k, dim3 g, dim3 b, size_t = 0, cudaStream_t = nullptr) { return Launch<K>{k, g, b}; }
}  // namespace gals_emulation
