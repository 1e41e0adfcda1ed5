// Observation of applications/advection/main.cc from outside, for trees whose main.cc no longer carries the observation
// points of gals-verif-trace.h: the linker (--wrap) routes the library calls of the program through here.
// SYM_LEV, SYM_VEL, SYM_SL: the (mangled) names of the analytical fields' and the semi-Lagrangian scheme's compute.
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"

#include "gals-verif-trace.h"

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
typedef GALS::CPU::Grid<double, 2> G;
typedef GALS::CPU::Levelset<G, double> L;
typedef GALS::CPU::LevelsetVelocity<G, double> V;
typedef GALS::CPU::Array<G, GALS::CPU::Vec3<double>> A;

static double last_time = std::nan("");

extern "C" {
void CAT(__real_, SYM_LEV)(void *self, const A *p, L *l);
void CAT(__real_, SYM_VEL)(void *self, const A *p, double time, V *v);
void CAT(__real_, SYM_SL)(void *self, double dt, const V *v, L *l);

void CAT(__wrap_, SYM_LEV)(void *self, const A *p, L *l)
{
  CAT(__real_, SYM_LEV)(self, p, l);
  V zero(l->phi().grid());
  GALS_VERIF::started(l->phi().grid(), *l, zero);
}
void CAT(__wrap_, SYM_VEL)(void *self, const A *p, double time, V *v)
{
  last_time = time;
  CAT(__real_, SYM_VEL)(self, p, time, v);
}
void CAT(__wrap_, SYM_SL)(void *self, double dt, const V *v, L *l)
{
  CAT(__real_, SYM_SL)(self, dt, v, l);
  GALS_VERIF::stepped(l->phi().grid(), *l, *v, last_time, dt);
}
}
