// Observation points of applications/advection/main.cc, active when it is compiled with GALS_VERIF_TRACE.
// Appends one JSON object per event to the file named by GALS_APP_TRACE: the whole state, in the format read by
// spec/GalsTrace.tla (what was asked for is added by lib/engine.py from the input file it wrote).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>

namespace GALS_VERIF
{
inline std::string hex(double x)
{
  char b[64];
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return "\"inf\"";
  snprintf(b, sizeof b, "\"%a\"", x);
  return b;
}
inline std::string elem(double e) { return "[" + hex(e) + "]"; }
template <typename T>
std::string elem(const GALS::CPU::Vec3<T> &e)
{
  return "[" + hex(e[0]) + "," + hex(e[1]) + "," + hex(e[2]) + "]";
}
template <typename T>
std::string elem(const GALS::CPU::Mat3<T> &e)
{
  std::string s;
  for (int c = 0; c < 9; ++c) s += (c ? "," : "[") + hex(e(c / 3, c % 3));
  return s + "]";
}
template <typename T, int N>
std::string elem(const GALS::CPU::VecN<T, N> &e)
{
  std::string s = "[";
  for (int c = 0; c < N; ++c) s += (c ? "," : "") + hex(e[c]);
  return s + "]";
}
template <typename G, typename A>
std::string field(const G &g, const A &a)
{
  const auto m = g.getMask();
  const auto n = g.numCells();
  const int p = g.getPadding();
  std::string s = "[";
  for (int k = -p * m[2]; k < n[2] + p * m[2]; ++k)
    for (int j = -p * m[1]; j < n[1] + p * m[1]; ++j)
      for (int i = -p * m[0]; i < n[0] + p * m[0]; ++i) s += (s.size() > 1 ? "," : "") + elem(a(i, j, k));
  return s + "]";
}
template <typename G, typename L, typename V>
std::string state(const G &g, L &l, V &v)
{
  return "\"pad\":" + std::to_string(g.getPadding()) + ",\"f\":{\"phi\":" + field(g, l.phi()) + ",\"psi\":" + field(g, l.psi()) +
         ",\"mix\":" + field(g, l.phiMixedDerivatives()) + ",\"phiP\":" + field(g, l.phiPrev()) + ",\"psiP\":" + field(g, l.psiPrev()) +
         ",\"mixP\":" + field(g, l.phiMixedDerivativesPrev()) + ",\"phiI\":" + field(g, l.phiInterpPrev()) +
         ",\"psiI\":" + field(g, l.psiInterpPrev()) + ",\"vel\":" + field(g, v.velocity()) + ",\"vgr\":" + field(g, v.velocityGradient()) + "}";
}
inline void emit(const std::string &s)
{
  if (const char *name = getenv("GALS_APP_TRACE"))
    if (FILE *f = fopen(name, "a")) {
      fprintf(f, "{%s}\n", s.c_str());
      fclose(f);
    }
}
template <typename G, typename L, typename V>
void started(const G &g, L &l, V &v)
{
  emit("\"t\":\"app0\"," + state(g, l, v));
}
template <typename G, typename L, typename V>
void stepped(const G &g, L &l, V &v, double time, double dt)
{
  emit("\"t\":\"app1\"," + state(g, l, v) + ",\"time\":" + hex(time) + ",\"dt\":" + hex(dt));
}
}  // namespace GALS_VERIF
