// Interpreter of call scripts: performs the calls on the real library and records what is observable.
//   driver SCRIPT TRACE
//   driver PROLOGUE - SCRIPT1 TRACE1 SCRIPT2 TRACE2 ...    (built with GALS_THREADS: one thread per script)
// One command per line; see lib/scripts.py for the writer of these scripts.  The trace has one JSON object per
// line, in the format read by spec/GalsTrace.tla.  All numbers are exchanged as hexadecimal floating literals.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/input-parser.h"
#include "gals/utilities/array.h"
#include "gals/utilities/file-utils.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"

namespace gc = GALS::CPU;
using std::string;
using std::vector;
using D = double;
typedef gc::Vec3<int> V3i;
typedef gc::Vec3<D> V3;
typedef gc::Mat3<D> M3;

#ifdef GALS_THREADS
#define PER_THREAD static thread_local
void gals_threads(int n, void (*fn)(int));
static bool gals_alone() { return false; }     // other threads work in the scratch directory, too
void gals_quiet(int more);             // what follows is the harness's own doing
#else
#define PER_THREAD static
static void gals_quiet(int) {}
static bool gals_alone() { return true; }
#endif
PER_THREAD FILE *out;
PER_THREAD std::istringstream in;

static string word()
{
  string s;
  if (!(in >> s)) {
    fprintf(stderr, "script: missing word\n");
    exit(3);
  }
  return s == "\"\"" ? string() : s;
}
static int integer() { return atoi(word().c_str()); }
static D number() { return strtod(word().c_str(), nullptr); }
static V3 vector3()
{
  D a = number(), b = number(), c = number();
  return V3(a, b, c);
}

// ---------------------------------------------------------------- JSON
static string hex(D x)
{
  char b[64];
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return "\"inf\"";
  snprintf(b, sizeof b, "\"%a\"", x);
  return b;
}
static string hexi(long x) { return "\"" + std::to_string(x) + "\""; }
static string text(const string &s)
{
  string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r + "\"";
}
typedef vector<D> Elem;         // components of one element
typedef vector<Elem> Contents;  // elements, in the specification's order of nodes
static string list(const Elem &e)
{
  string s = "[";
  for (size_t q = 0; q < e.size(); ++q) s += (q ? "," : "") + hex(e[q]);
  return s + "]";
}
static string list(const Contents &c)
{
  string s = "[";
  for (size_t q = 0; q < c.size(); ++q) s += (q ? "," : "") + list(c[q]);
  return s + "]";
}
static string ints(const vector<long> &c)
{
  string s = "[";
  for (size_t q = 0; q < c.size(); ++q) s += (q ? "," : "") + std::to_string(c[q]);
  return s + "]";
}
static bool same(const Contents &a, const Contents &b)
{
  if (a.size() != b.size()) return false;
  for (size_t o = 0; o < a.size(); ++o)
    if (a[o].size() != b[o].size() || (a[o].size() && memcmp(a[o].data(), b[o].data(), a[o].size() * sizeof(D))))
      return false;
  return true;
}
static string tokens_of(const string &txt)
{
  std::istringstream is(txt);
  string line, r = "[";
  bool first = true;
  while (std::getline(is, line)) {
    std::istringstream ls(line);
    string w;
    r += first ? "[" : ",[";
    first = false;
    bool f2 = true;
    while (ls >> w) r += (f2 ? "" : ",") + text(w), f2 = false;
    r += "]";
  }
  return r + "]";
}

// ---------------------------------------------------------------- element access
static int ncomp(const D *) { return 1; }
static int ncomp(const V3 *) { return 3; }
static int ncomp(const M3 *) { return 9; }
template <int N>
static int ncomp(const gc::VecN<D, N> *)
{
  return N;
}
static D get(const D &e, int) { return e; }
static D get(const V3 &e, int c) { return e[c]; }
static D get(const M3 &e, int c) { return e(c / 3, c % 3); }
template <int N>
static D get(const gc::VecN<D, N> &e, int c)
{
  return e[c];
}
static void put(D &e, int, D v) { e = v; }
static void put(V3 &e, int c, D v) { e[c] = v; }
static void put(M3 &e, int c, D v) { e(c / 3, c % 3) = v; }
template <int N>
static void put(gc::VecN<D, N> &e, int c, D v)
{
  e[c] = v;
}

// ---------------------------------------------------------------- one simulation, any dimension
struct Array0 {
  virtual ~Array0() {}
  virtual Contents read(const string &path) const = 0;
  virtual void write(const string &path, int i, int j, int k, int c, D v) = 0;
  virtual void assign(const Array0 &b) = 0;
  virtual std::unique_ptr<Array0> clone() const = 0;
  virtual string print() const = 0;
  virtual size_t size() const = 0;
  virtual V3i cells() const = 0;
  virtual int nc() const = 0;
};

struct System0 {
  virtual ~System0() {}
  std::map<string, Contents> seen;
  bool live = false;
  virtual void grid(int n1, int n2, int n3, int ctor, int pad, bool regen, const vector<D> &box) = 0;
  virtual void share(System0 &o) = 0;
  virtual void rebox(const vector<D> &box) = 0;
  virtual string about() = 0;
  virtual string probe() = 0;
  virtual string peek(int stride) = 0;
  virtual string vast(const string &kind, const string &path) = 0;
  virtual string base(const V3 &x) = 0;
  virtual void alloc() = 0;
  virtual void drop() = 0;
  virtual std::map<string, Contents> fields() const = 0;
  virtual void load(const string &f, const string &path) = 0;
  virtual void copy(const string &dst, const string &src) = 0;
  virtual void gradient(const string &scheme, const string &src, const string &dst, const string &how) = 0;
  virtual string interp(const string &how, int pad) = 0;
  virtual string point(const V3 &x, bool lim) = 0;
  virtual string linear(const string &how) = 0;
  virtual void euler(D dt, const string &how) = 0;
  virtual void semi(D dt, const string &how) = 0;
  virtual string circle(const string &name, const V3 &c, D r, const string &pos) = 0;
  virtual string rotation(const string &name, const V3 &c, const string &g, D time, const string &pos) = 0;
  virtual string about_centre(const string &name, const vector<D> &c) = 0;
  virtual void hole(const string &what) = 0;
  virtual std::unique_ptr<Array0> array(const string &kind) = 0;
  virtual string print(const string &f) = 0;
  virtual bool write(GALS::UTILITIES::FileUtils &fu, const string &file, const string &f) = 0;
};

template <int DIM>
struct Over {  // nodes in the specification's order
  const gc::Grid<D, DIM> &g;
  vector<V3i> nodes;
  Over(const gc::Grid<D, DIM> &g_, int pad) : g(g_)
  {
    const V3i n = g.numCells();
    const int p1 = pad, p2 = DIM >= 2 ? pad : 0, p3 = DIM >= 3 ? pad : 0;
    for (int k = -p3; k < n[2] + p3; ++k)
      for (int j = -p2; j < n[1] + p2; ++j)
        for (int i = -p1; i < n[0] + p1; ++i) nodes.push_back(V3i(i, j, k));
  }
};

template <class A>
static Contents read_array(const A &a, const vector<V3i> &nodes, const string &path)
{
  Contents c;
  const int nc = ncomp((const typename A::value_type *)nullptr);
  for (const V3i &n : nodes) {
    const auto &e = path == "vec" ? a(n)
                                  : path == "lin" ? a[a.grid().index(n[0], n[1], n[2])]
                                                  : path == "raw" ? a.data().at(a.grid().index(n)) : a(n[0], n[1], n[2]);
    Elem v(nc);
    for (int q = 0; q < nc; ++q) v[q] = get(e, q);
    c.push_back(v);
  }
  return c;
}
template <class A>
static void write_array(A &a, const string &path, const V3i &n, int c, D v)
{
  auto &e = path == "vec" ? a(n) : path == "lin" ? a[a.grid().index(n)] : a(n[0], n[1], n[2]);
  put(e, c, v);
}

template <int DIM, class T>
struct ArrayOf : Array0 {
  typedef gc::Array<gc::Grid<D, DIM>, T> A;
  A a;
  vector<V3i> nodes;
  ArrayOf(const gc::Grid<D, DIM> &g, const vector<V3i> &n) : a(g), nodes(n) {}
  ArrayOf(const A &b, const vector<V3i> &n) : a(b), nodes(n) {}
  Contents read(const string &path) const override { return read_array(a, nodes, path); }
  void write(const string &path, int i, int j, int k, int c, D v) override { write_array(a, path, V3i(i, j, k), c, v); }
  void assign(const Array0 &b) override { a = dynamic_cast<const ArrayOf<DIM, T> &>(b).a; }
  std::unique_ptr<Array0> clone() const override { return std::unique_ptr<Array0>(new ArrayOf<DIM, T>(a, nodes)); }
  string print() const override
  {
    std::ostringstream os;
    os << a;
    return os.str();
  }
  size_t size() const override { return a.size(); }
  V3i cells() const override { return a.numCells(); }
  int nc() const override { return ncomp((const T *)nullptr); }
};

// kinds of arrays that the library instantiates
template <int DIM>
static std::unique_ptr<Array0> make_array(const gc::Grid<D, DIM> &g, const vector<V3i> &nodes, const string &kind)
{
  typedef std::unique_ptr<Array0> P;
  if (kind == "d") return P(new ArrayOf<DIM, D>(g, nodes));
  if (kind == "v") return P(new ArrayOf<DIM, V3>(g, nodes));
  if (kind == "m") return P(new ArrayOf<DIM, M3>(g, nodes));
  if (kind == "n") return P(new ArrayOf<DIM, gc::VecN<D, DIM == 1 ? 0 : DIM == 2 ? 1 : 4>>(g, nodes));
  return P(new ArrayOf<DIM, gc::VecN<D, 2>>(g, nodes));
}

template <int DIM>
struct Linear1 {
  static string run(const gc::Grid<D, DIM> &, const vector<V3i> &, const string &) { exit(3); }
};
template <>
struct Linear1<1> {
  static string run(const gc::Grid<D, 1> &g, const vector<V3i> &nodes, const string &how)
  {
    typedef gc::Grid<D, 1> G;
    gc::Array<G, D> alpha(g), res(g);
    for (const V3i &n : nodes) alpha(n) = number();
    for (const V3i &n : nodes) res(n) = number();
    const int m = integer();
    G xg(m);
    xg.generate(0, 1, 0, 1, 0, 1);
    gc::Array<G, V3> x(xg);
    Contents xs;
    for (int i = 0; i < m; ++i) {
      V3 p = vector3();
      x(i, 0, 0) = p;
      xs.push_back(Elem{p[0], p[1], p[2]});
    }
    const Contents a0 = read_array(alpha, nodes, "ijk"), r0 = read_array(res, nodes, "ijk");
    if (how == "obj")
      GALS::INTERPOLATION::Linear<D, G>().compute(x, alpha, res);
    else if (how == "one")
      for (int i = 0; i < m; ++i)
        res(i, 0, 0) = GALS::INTERPOLATION::Linear<D, G>().linearInterpolation(g, x(i, 0, 0), alpha);
    else
      gc::Interpolate<D, G, GALS::INTERPOLATION::Linear<D, G>>::compute(x, alpha, res);
    string s = ",\"src\":" + list(a0) + ",\"x\":" + list(xs) + ",\"out0\":" + list(r0) +
               ",\"o\":{\"out\":" + list(read_array(res, nodes, "ijk")) +
               ",\"src\":" + list(read_array(alpha, nodes, "ijk")) + "}";
    return s;
  }
};

// overloads that are declared but have no implementation
template <int DIM>
struct LinearHole {
  static void call(const gc::Array<gc::Grid<D, DIM>, V3> &, gc::Levelset<gc::Grid<D, DIM>, D> &) { exit(3); }
};
template <>
struct LinearHole<1> {
  static void call(const gc::Array<gc::Grid<D, 1>, V3> &x, gc::Levelset<gc::Grid<D, 1>, D> &ls)
  {
    GALS::INTERPOLATION::Linear<D, gc::Grid<D, 1>>().compute(x, ls);
  }
};

template <int DIM>
struct System : System0 {
  typedef gc::Grid<D, DIM> G;
  std::shared_ptr<G> g;
  std::unique_ptr<gc::Levelset<G, D>> ls;
  std::unique_ptr<gc::LevelsetVelocity<G, D>> lv;
  vector<V3i> nodes;
  int pad = 1;
  // analytical fields in use: the object is kept as long as the same field is asked for
  std::unique_ptr<GALS::INPUT_FIELDS::Levelset> al_in;
  std::unique_ptr<GALS::INPUT_FIELDS::Velocity> av_in;
  std::unique_ptr<GALS::ANALYTICAL_FIELDS::Levelset<G, D>> al;
  std::unique_ptr<GALS::ANALYTICAL_FIELDS::Velocity<G, D>> av;
  string al_key, av_key;

  void grid(int n1, int n2, int n3, int ctor, int p, bool regen, const vector<D> &b) override
  {
    drop();
    if (!regen) g.reset(ctor == 3 ? new G(n1, n2, n3) : ctor == 2 ? new G(n1, n2) : new G(n1));
    if (p >= 0) g->setPadding(p), pad = p;
    else if (!regen) pad = 1;
    g->generate(b[0], b[1], b[2], b[3], b[4], b[5]);
    nodes = Over<DIM>(*g, pad).nodes;
  }
  // the same grid object as another simulation of this dimension
  void share(System0 &o) override
  {
    System<DIM> &t = dynamic_cast<System<DIM> &>(o);
    drop();
    g = t.g;
    pad = t.pad;
    nodes = t.nodes;
  }
  // another box for the same nodes, while the fields live on
  void rebox(const vector<D> &b) override { g->generate(b[0], b[1], b[2], b[3], b[4], b[5]); }
  string about() override
  {
    const V3i n = g->numCells();
    const int *m = g->getMask();
    const V3 dx = g->dX(), od = g->oneOverDX();
    return "{\"dim\":" + std::to_string(g->dimension()) + ",\"size\":" + std::to_string(g->size()) +
           ",\"total\":" + std::to_string(g->totalCells()) + ",\"n\":" + ints({n[0], n[1], n[2]}) +
           ",\"mask\":" + ints({m[0], m[1], m[2]}) + ",\"pad\":" + std::to_string(g->getPadding()) +
           ",\"dx\":" + list(Elem{dx[0], dx[1], dx[2]}) + ",\"odx\":" + list(Elem{od[0], od[1], od[2]}) + "}";
  }
  string probe() override
  {
    vector<long> a, b;
    Contents p, q, r;
    const G &cg = *g;
    for (const V3i &n : nodes) {
      a.push_back((long)cg.index(n[0], n[1], n[2]));
      b.push_back((long)cg.index(n));
    }
    const long sz = cg.size();
    bool ok = true;
    for (long i : a) ok = ok && i >= 0 && i < sz;
    for (long i : b) ok = ok && i >= 0 && i < sz;
    if (ok)
      for (const V3i &n : nodes) {
        V3 x = cg(n[0], n[1], n[2]), y = cg(n), z = g->x(n[0], n[1], n[2]);
        p.push_back(Elem{x[0], x[1], x[2]});
        q.push_back(Elem{y[0], y[1], y[2]});
        r.push_back(Elem{z[0], z[1], z[2]});
      }
    return "{\"idx\":" + ints(a) + ",\"idxv\":" + ints(b) + ",\"pos\":" + list(p) + ",\"posv\":" + list(q) +
           ",\"posx\":" + list(r) + "}";
  }
  // storage slots of all nodes of a large grid, positions of every stride-th
  string peek(int stride) override
  {
    vector<long> a, b, at;
    Contents p, q, r;
    const G &cg = *g;
    const long sz = cg.size();
    for (size_t o = 0; o < nodes.size(); ++o) {
      const V3i &n = nodes[o];
      a.push_back((long)cg.index(n[0], n[1], n[2]));
      b.push_back((long)cg.index(n));
      if ((o % stride == 0 || o + 1 == nodes.size()) && a[o] >= 0 && a[o] < sz && b[o] >= 0 && b[o] < sz) {
        V3 x = cg(n[0], n[1], n[2]), y = cg(n), z = g->x(n[0], n[1], n[2]);
        at.push_back(o + 1);
        p.push_back(Elem{x[0], x[1], x[2]});
        q.push_back(Elem{y[0], y[1], y[2]});
        r.push_back(Elem{z[0], z[1], z[2]});
      }
    }
    return "{\"idx\":" + ints(a) + ",\"idxv\":" + ints(b) + ",\"at\":" + ints(at) + ",\"pos\":" + list(p) +
           ",\"posv\":" + list(q) + ",\"posx\":" + list(r) + "}";
  }
  // an array of a large grid: every element written once, with a value of its own (its number in the node order)
  string vast(const string &kind, const string &path) override
  {
    std::unique_ptr<Array0> x = make_array<DIM>(*g, nodes, kind), z = make_array<DIM>(*g, nodes, kind);
    const int nc = x->nc();
    auto flat = [](const Contents &c) {
      vector<long> v;
      for (const Elem &e : c)
        for (D d : e) v.push_back(d == std::floor(d) && std::fabs(d) < 1e9 ? (long)d : -1);
      return ints(v);
    };
    const string before = flat(x->read("ijk"));
    long v = 0;
    for (const V3i &n : nodes)
      for (int c = 0; c < nc; ++c) x->write(path, n[0], n[1], n[2], c, ++v);
    std::unique_ptr<Array0> y = x->clone();
    z->assign(*x);
    return ",\"nc\":" + std::to_string(nc) + ",\"o\":{\"size\":" + std::to_string(x->size()) + ",\"before\":" + before +
           ",\"ijk\":" + flat(x->read("ijk")) + ",\"vec\":" + flat(x->read("vec")) + ",\"lin\":" + flat(x->read("lin")) +
           ",\"raw\":" + flat(x->read("raw")) + ",\"copy\":" + flat(y->read("ijk")) + ",\"assigned\":" + flat(z->read("ijk")) +
           "}";
  }
  string base(const V3 &x) override
  {
    V3i b = g->baseNodeId(x);
    vector<long> v;
    for (int a = 0; a < DIM; ++a) v.push_back(b[a]);
    return "{\"b\":" + ints(v) + "}";
  }
  void alloc() override
  {
    ls.reset(new gc::Levelset<G, D>(*g));
    lv.reset(new gc::LevelsetVelocity<G, D>(*g));
    live = true;
  }
  void drop() override
  {
    al.reset();
    av.reset();
    ls.reset();
    lv.reset();
    live = false;
    seen.clear();
  }
  std::map<string, Contents> fields() const override
  {
    std::map<string, Contents> m;
    if (!live) return m;
    const gc::Levelset<G, D> &l = *ls;
    const gc::LevelsetVelocity<G, D> &v = *lv;
    m["phi"] = read_array(l.phi(), nodes, "ijk");
    m["psi"] = read_array(l.psi(), nodes, "ijk");
    m["mix"] = read_array(l.phiMixedDerivatives(), nodes, "ijk");
    m["phiP"] = read_array(l.phiPrev(), nodes, "ijk");
    m["psiP"] = read_array(l.psiPrev(), nodes, "ijk");
    m["mixP"] = read_array(l.phiMixedDerivativesPrev(), nodes, "ijk");
    m["phiI"] = read_array(l.phiInterpPrev(), nodes, "ijk");
    m["psiI"] = read_array(l.psiInterpPrev(), nodes, "ijk");
    m["vel"] = read_array(v.velocity(), nodes, "ijk");
    m["vgr"] = read_array(v.velocityGradient(), nodes, "ijk");
    return m;
  }
  gc::Array<G, D> *scalar(const string &f)
  {
    return f == "phi" ? &ls->phi() : f == "phiP" ? &ls->phiPrev() : f == "phiI" ? &ls->phiInterpPrev() : nullptr;
  }
  gc::Array<G, V3> *vec(const string &f)
  {
    return f == "psi" ? &ls->psi()
                      : f == "psiP" ? &ls->psiPrev()
                                    : f == "psiI" ? &ls->psiInterpPrev() : f == "vel" ? &lv->velocity() : nullptr;
  }
  gc::Array<G, gc::VecN<D, G::num_mixed_derivatives>> *mix(const string &f)
  {
    return f == "mix" ? &ls->phiMixedDerivatives() : f == "mixP" ? &ls->phiMixedDerivativesPrev() : nullptr;
  }
  template <class A>
  void fill(A &a, const string &path)
  {
    const int nc = ncomp((const typename A::value_type *)nullptr);
    for (const V3i &n : nodes)
      for (int c = 0; c < nc; ++c) write_array(a, path, n, c, number());
  }
  void load(const string &f, const string &path) override
  {
    if (scalar(f)) fill(*scalar(f), path);
    else if (vec(f)) fill(*vec(f), path);
    else if (mix(f)) fill(*mix(f), path);
    else if (f == "vgr") fill(lv->velocityGradient(), path);
    else exit(3);
  }
  void copy(const string &dst, const string &src) override
  {
    if (scalar(dst)) *scalar(dst) = *scalar(src);
    else if (vec(dst)) *vec(dst) = *vec(src);
    else if (mix(dst)) *mix(dst) = *mix(src);
    else exit(3);
  }
  // one object of each scheme, used for the whole run
  template <class S>
  static S &kept()
  {
    PER_THREAD S s;
    return s;
  }
  template <class S>
  void grad(const string &src, const string &dst, const string &how)
  {
    if (scalar(src)) {
      if (how == "kept") kept<S>().compute(*scalar(src), *vec(dst));
      else if (how == "obj") S()(*scalar(src), *vec(dst));
      else if (how == "comp") S().compute(*scalar(src), *vec(dst));
      else gc::Gradient<D, G, S>::compute(*scalar(src), *vec(dst));
    } else {
      if (how == "kept") kept<S>()(*vec(src), lv->velocityGradient());
      else if (how == "obj") S()(*vec(src), lv->velocityGradient());
      else if (how == "comp") S().compute(*vec(src), lv->velocityGradient());
      else gc::Gradient<D, G, S>::compute(*vec(src), lv->velocityGradient());
    }
  }
  void gradient(const string &scheme, const string &src, const string &dst, const string &how) override
  {
    if (scheme == "central") grad<gc::SecondOrderCentral<D, G>>(src, dst, how);
    else grad<gc::ThirdOrder<D, G>>(src, dst, how);
  }
  string interp(const string &how, int xpad) override
  {
    const int a = integer(), b = integer(), c = integer();
    G xg(a, b, c);
    xg.setPadding(xpad);
    xg.generate(-1, 1, -1, 1, -1, 1);
    gc::Array<G, V3> x(xg);
    Contents xs;
    for (int k = 0; k < c; ++k)
      for (int j = 0; j < b; ++j)
        for (int i = 0; i < a; ++i) {
          V3 p = vector3();
          x(i, j, k) = p;
          xs.push_back(Elem{p[0], p[1], p[2]});
        }
    if (how == "kept") kept<GALS::INTERPOLATION::Hermite<D, G>>()(x, *ls);
    else if (how == "obj") GALS::INTERPOLATION::Hermite<D, G>().compute(x, *ls);
    else gc::Interpolate<D, G, GALS::INTERPOLATION::Hermite<D, G>>::compute(x, *ls);
    return ",\"n\":" + ints({a, b, c}) + ",\"x\":" + list(xs);
  }
  string point(const V3 &x, bool lim) override
  {
    auto r = (lim ? GALS::INTERPOLATION::Hermite<D, G>() : kept<GALS::INTERPOLATION::Hermite<D, G>>()).interpolate(*g, x, *ls, lim);
    return ",\"x\":" + list(Elem{x[0], x[1], x[2]}) + ",\"lim\":" + (lim ? "true" : "false") +
           ",\"o\":{\"v\":" + hex(r.phi_interpolated) +
           ",\"d\":" + list(Elem{r.psi_interpolated[0], r.psi_interpolated[1], r.psi_interpolated[2]}) + "}";
  }
  string linear(const string &how) override { return Linear1<DIM>::run(*g, nodes, how); }
  void euler(D dt, const string &how) override
  {
    typedef GALS::TEMPORAL_SCHEMES::Euler<D, G> S;
    if (how == "obj") S().compute(dt, *lv, *ls);
    else if (how == "kept") kept<S>()(dt, *lv, *ls);
    else gc::Temporal<D, G, S>::compute(dt, *lv, *ls);
  }
  void semi(D dt, const string &how) override
  {
    typedef GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<D, G> S;
    if (how == "obj") S().compute(dt, *lv, *ls);
    else if (how == "kept") kept<S>()(dt, *lv, *ls);
    else gc::Temporal<D, G, S>::compute(dt, *lv, *ls);
  }
  void positions(const string &how, gc::Array<G, V3> &p)
  {
    for (const V3i &n : nodes) p(n) = how == "grid" ? V3((*g)(n)) : vector3();
  }
  string circle(const string &name, const V3 &c, D r, const string &how) override
  {
    gc::Array<G, V3> p(*g);
    positions(how, p);
    const string ps = list(read_array(p, nodes, "ijk"));
    const string key = name + list(Elem{c[0], c[1], c[2], r});
    if (!al || key != al_key) {
      al_key = key;
      al_in.reset(new GALS::INPUT_FIELDS::Levelset());
      al_in->name = name;
      al_in->center = c;
      al_in->radius = r;
      al_in->gradient_scheme = "CENTRAL";
      al.reset(new GALS::ANALYTICAL_FIELDS::Levelset<G, D>(*g, *al_in));
    }
    al->compute(p, *ls);
    return ",\"name\":" + text(name) + ",\"c\":" + list(Elem{c[0], c[1], c[2]}) + ",\"r\":" + hex(r) + ",\"pos\":" + ps;
  }
  string rotation(const string &name, const V3 &c, const string &gr, D time, const string &how) override
  {
    gc::Array<G, V3> p(*g);
    positions(how, p);
    const string ps = list(read_array(p, nodes, "ijk"));
    const string key = name + list(Elem{c[0], c[1], c[2]}) + gr;
    if (!av || key != av_key) {
      av_key = key;
      av_in.reset(new GALS::INPUT_FIELDS::Velocity());
      av_in->name = name;
      av_in->vector = {1., -2., 0.5};
      av_in->center = {c[0], c[1], c[2]};
      av_in->gradient_scheme = gr;
      av.reset(new GALS::ANALYTICAL_FIELDS::Velocity<G, D>(*g, *av_in));
    }
    av->compute(p, time, *lv);
    return ",\"name\":" + text(name) + ",\"c\":" + list(Elem{c[0], c[1], c[2]}) + ",\"gradient\":" + text(gr) +
           ",\"time\":" + hex(time) + ",\"pos\":" + ps;
  }
  // the velocity called name about a centre of however many coordinates
  string about_centre(const string &name, const vector<D> &c) override
  {
    gc::Array<G, V3> p(*g);
    positions("grid", p);
    GALS::INPUT_FIELDS::Velocity f;
    f.name = name;
    f.vector = {1., -2., 0.5};
    f.center = c;
    f.gradient_scheme = "ANALYTICAL";
    GALS::ANALYTICAL_FIELDS::Velocity<G, D>(*g, f).compute(p, 0.25, *lv);
    return ",\"name\":" + text(name) + ",\"c\":" + list(Elem(c.begin(), c.end())) + ",\"gradient\":\"ANALYTICAL\",\"time\":" + hex(0.25) +
           ",\"pos\":" + list(read_array(p, nodes, "ijk"));
  }
  void hole(const string &what) override
  {
    G xg(2, 1, 1);
    xg.generate(-1, 1, -1, 1, -1, 1);
    gc::Array<G, V3> x(xg);
    gc::Array<G, D> a(*g), b(xg);
    if (what == "linear") LinearHole<DIM>::call(x, *ls);
    else GALS::INTERPOLATION::Hermite<D, G>()(x, a, b);
  }
  std::unique_ptr<Array0> array(const string &kind) override { return make_array<DIM>(*g, nodes, kind); }
  string print(const string &f) override
  {
    std::ostringstream os;
    if (scalar(f)) os << *scalar(f);
    else if (vec(f)) os << *vec(f);
    else if (mix(f)) os << *mix(f);
    else os << lv->velocityGradient();
    return os.str();
  }
  bool write(GALS::UTILITIES::FileUtils &fu, const string &file, const string &f) override;
};
template <>
bool System<1>::write(GALS::UTILITIES::FileUtils &fu, const string &file, const string &f)
{
  if (scalar(f)) fu.write(file, *scalar(f));
  else fu.write(file, *vec(f));
  return true;
}
template <>
bool System<2>::write(GALS::UTILITIES::FileUtils &fu, const string &file, const string &f)
{
  if (scalar(f)) fu.write(file, *scalar(f));
  else fu.write(file, *vec(f));
  return true;
}
template <>
bool System<3>::write(GALS::UTILITIES::FileUtils &fu, const string &file, const string &f)
{
  if (scalar(f)) return false;
  fu.write(file, *vec(f));
  return true;
}

// ---------------------------------------------------------------- small algebra
static Elem comps(int n)
{
  Elem e(n);
  for (D &x : e) x = number();
  return e;
}
template <class T>
static string vals(const vector<T> &v, bool i)
{
  string s = "[";
  for (size_t q = 0; q < v.size(); ++q) s += (q ? "," : "") + (i ? hexi((long)v[q]) : hex((D)v[q]));
  return s + "]";
}
template <class T>
static vector<T> of(const gc::Vec3<T> &v)
{
  return {v[0], v[1], v[2]};
}
template <class T>
static vector<T> of(const gc::Mat3<T> &m)
{
  vector<T> r;
  for (int i = 0; i < 9; ++i) r.push_back(m[i]);
  return r;
}
template <class T, int N>
static vector<T> of(const gc::VecN<T, N> &m)
{
  vector<T> r;
  for (int i = 0; i < N; ++i) r.push_back(m[i]);
  return r;
}
template <class T>
static gc::Vec3<T> vec_of(const Elem &e)
{
  return gc::Vec3<T>((T)e[0], (T)e[1], (T)e[2]);
}
template <class T>
static gc::Mat3<T> mat_of(const Elem &e)
{
  return gc::Mat3<T>((T)e[0], (T)e[1], (T)e[2], (T)e[3], (T)e[4], (T)e[5], (T)e[6], (T)e[7], (T)e[8]);
}

struct AlgResult {
  string r = "[]", a = "[]", b = "[]";
  bool yes = false;
};
template <class T>
static AlgResult alg_vec(const string &op, const Elem &a, const Elem &b, int idx, bool i)
{
  AlgResult z;
  if (op == "zero") {
    gc::Vec3<T> v;
    z.r = vals(of(v), i);
    return z;
  }
  if (op == "makev") {
    vector<T> w;
    for (D x : a) w.push_back((T)x);
    gc::Vec3<T> u(w);
    z.r = vals(of(u), i);
    z.a = vals(w, i);
    return z;
  }
  gc::Vec3<T> v = vec_of<T>(a);
  if (op == "make") z.r = vals(of(v), i);
  if (op == "size") z.r = vals(vector<T>{(T)v.size()}, i);
  if (op == "min") z.r = vals(vector<T>{v.min()}, i);
  if (op == "mag") z.r = vals(vector<D>{v.mag()}, false);
  if (op == "set") {
    gc::Vec3<T> w = v;
    w[idx - 1] = (T)b[0];
    z.r = vals(of(w), i);
    z.a = vals(of(v), i);
    z.b = vals(vector<T>{(T)b[0]}, i);
    return z;
  }
  if (op == "muls") {
    z.r = vals(of(v * (T)b[0]), i);
    z.b = vals(vector<T>{(T)b[0]}, i);
  }
  if (b.size() == 3) {
    gc::Vec3<T> w = vec_of<T>(b);
    if (op == "assign") {
      gc::Vec3<T> u = v;
      u = w;
      z.r = vals(of(u), i);
      u[1] = (T)77;  // the source must not follow
    }
    if (op == "sub") z.r = vals(of(v - w), i);
    if (op == "mulv") z.r = vals(of(v * w), i);
    if (op == "divv" || op == "divi") z.r = vals(of(v / w), i);
    if (op == "eq") z.yes = v == w;
    z.b = vals(of(w), i);
  }
  z.a = vals(of(v), i);
  return z;
}
template <class T>
static AlgResult alg_mat(const string &op, const Elem &a, const Elem &b, int idx, int jdx, bool i)
{
  AlgResult z;
  if (op == "zero") {
    gc::Mat3<T> v;
    z.r = vals(of(v), i);
    return z;
  }
  gc::Mat3<T> v = mat_of<T>(a);
  if (op == "make") z.r = vals(of(v), i);
  if (op == "size") z.r = vals(vector<T>{(T)v.size()}, i);
  if (op == "at") {
    vector<T> r;
    for (int p = 0; p < 3; ++p)
      for (int q = 0; q < 3; ++q) {
        const gc::Mat3<T> &cv = v;
        r.push_back(cv(p, q));
      }
    z.r = vals(r, i);
  }
  if (op == "set" || op == "setrc") {
    gc::Mat3<T> w = v;
    if (op == "set") w[idx - 1] = (T)b[0];
    else w(idx, jdx) = (T)b[0];
    z.r = vals(of(w), i);
    z.b = vals(vector<T>{(T)b[0]}, i);
  }
  if (op == "muls") {
    z.r = vals(of(v * (T)b[0]), i);
    z.b = vals(vector<T>{(T)b[0]}, i);
  }
  if (op == "dot") {
    gc::Vec3<T> w = vec_of<T>(b);
    z.r = vals(of(v.dot(w)), i);
    z.b = vals(of(w), i);
  }
  if (b.size() == 9) {
    gc::Mat3<T> w = mat_of<T>(b);
    if (op == "assign") {
      gc::Mat3<T> u = v;
      u = w;
      z.r = vals(of(u), i);
      u[4] = (T)77;
    }
    if (op == "sub") z.r = vals(of(v - w), i);
    if (op == "eq") z.yes = v == w;
    z.b = vals(of(w), i);
  }
  z.a = vals(of(v), i);
  return z;
}
template <class T, int N>
static AlgResult alg_n(const string &op, const Elem &a, const Elem &b, int idx, bool i)
{
  AlgResult z;
  gc::VecN<T, N> v;
  if (op == "zero") {
    z.r = vals(of(v), i);
    return z;
  }
  for (int q = 0; q < N; ++q) v[q] = (T)a[q];
  if (op == "make") z.r = vals(of(v), i);
  if (op == "size") z.r = vals(vector<T>{(T)v.size()}, i);
  if (op == "set") {
    gc::VecN<T, N> w = v;
    w[idx - 1] = (T)b[0];
    z.r = vals(of(w), i);
    z.b = vals(vector<T>{(T)b[0]}, i);
  }
  if (op == "assign") {
    gc::VecN<T, N> w, u = v;
    for (int q = 0; q < N; ++q) w[q] = (T)b[q];
    u = w;
    z.r = vals(of(u), i);
    if (N > 0) u[N - 1] = (T)77;
    z.b = vals(of(w), i);
  }
  z.a = vals(of(v), i);
  return z;
}

// ---------------------------------------------------------------- inputs
static string inputs_json(const GALS::INPUT_FIELDS::InputFields &f)
{
  auto v = [](const vector<D> &x) { return list(Elem(x.begin(), x.end())); };
  const auto &g = *f.m_grid;
  return "{\"general\":{\"output_directory\":" + text(f.m_general->output_directory) + "},\"grid\":{\"x_min\":" +
         hex(g.x_min) + ",\"x_max\":" + hex(g.x_max) + ",\"y_min\":" + hex(g.y_min) + ",\"y_max\":" + hex(g.y_max) +
         ",\"z_min\":" + hex(g.z_min) + ",\"z_max\":" + hex(g.z_max) + ",\"nx\":" + std::to_string(g.nx) +
         ",\"ny\":" + std::to_string(g.ny) + ",\"nz\":" + std::to_string(g.nz) + "},\"time\":{\"start\":" +
         hex(f.m_time->start) + ",\"end\":" + hex(f.m_time->end) + ",\"dt\":" + hex(f.m_time->dt) +
         ",\"constant_dt\":" + text(f.m_time->constant_dt) + "},\"velocity\":{\"name\":" + text(f.m_velocity->name) +
         ",\"vector\":" + v(f.m_velocity->vector) + ",\"center\":" + v(f.m_velocity->center) +
         ",\"gradient_scheme\":" + text(f.m_velocity->gradient_scheme) + "},\"levelset\":{\"name\":" +
         text(f.m_levelset->name) + ",\"center\":" +
         list(Elem{f.m_levelset->center[0], f.m_levelset->center[1], f.m_levelset->center[2]}) +
         ",\"radius\":" + hex(f.m_levelset->radius) +
         ",\"gradient_scheme\":" + text(f.m_levelset->gradient_scheme) + "}}";
}

// a path below the scratch directory, as its list of name parts
static string name_word()       // "@none": the empty name
{
  const string w = word();
  return w == "@none" ? "" : w;
}

static string parts(const string &path)
{
  const string root = getenv("GALS_SCRATCH") ? getenv("GALS_SCRATCH") : "";
  std::istringstream is(path.compare(0, root.size(), root) == 0 ? path.substr(root.size()) : path);
  string w, r = "[";
  while (std::getline(is, w, '/'))
    if (!w.empty() && w != ".") r += (r == "[" ? "" : ",") + text(w);
  return r + "]";
}

// everything below the scratch directory, found without the library's help: path -> "dir" or "file"
static std::map<string, string> tree_now;
static void list_tree(const string &dir, std::map<string, string> &out)
{
  DIR *d = opendir(dir.c_str());
  if (!d) return;
  while (dirent *e = readdir(d)) {
    const string n = e->d_name, p = dir + "/" + n;
    struct stat st;
    if (n == "." || n == ".." || lstat(p.c_str(), &st)) continue;
    out[p] = S_ISDIR(st.st_mode) ? "dir" : "file";
    if (S_ISDIR(st.st_mode)) list_tree(p, out);
  }
  closedir(d);
}
static void tree_before()
{
  tree_now.clear();
  if (!gals_alone() || !getenv("GALS_SCRATCH")) return;
  list_tree(getenv("GALS_SCRATCH"), tree_now);
}
// what came and what went since tree_before
static string tree_changes()
{
  if (!gals_alone() || !getenv("GALS_SCRATCH")) return "";
  std::map<string, string> now;
  list_tree(getenv("GALS_SCRATCH"), now);
  string came, went;
  for (auto &kv : now)
    if (!tree_now.count(kv.first) || tree_now[kv.first] != kv.second)
      came += (came.empty() ? "" : ",") + string("{\"path\":") + parts(kv.first) + ",\"kind\":" + text(kv.second) + "}";
  for (auto &kv : tree_now)
    if (!now.count(kv.first)) went += (went.empty() ? "" : ",") + parts(kv.first);
  return ",\"tree\":{\"came\":[" + came + "],\"went\":[" + went + "]}";
}

// ---------------------------------------------------------------- main loop
typedef std::map<string, std::unique_ptr<System0>> Systems;
PER_THREAD Systems systems;
static Systems shared;                 // made before the threads started, and only read since
PER_THREAD std::map<string, std::unique_ptr<Array0>> arrays;
PER_THREAD std::map<string, Contents> arrays_seen;
PER_THREAD std::map<string, std::unique_ptr<GALS::INPUT_FIELDS::InputFields>> inputs;
PER_THREAD std::map<string, std::unique_ptr<GALS::UTILITIES::FileUtils>> helpers;

// what changed since the last event: in system s (upd), in other systems (oth), in arrays
static string changes(const string &s)
{
  gals_quiet(1);
  string upd, oth;
  for (auto &kv : systems) {
    if (!kv.second->live) continue;
    auto now = kv.second->fields();
    for (auto &f : now)
      if (!kv.second->seen.count(f.first) || !same(kv.second->seen[f.first], f.second)) {
        if (kv.first == s) upd += (upd.empty() ? "" : ",") + text(f.first) + ":" + list(f.second);
        else oth += (oth.empty() ? "" : ",") + text(kv.first + "." + f.first);
      }
    kv.second->seen = now;
  }
  string aup;
  for (auto &kv : arrays) {
    Contents now = kv.second->read("ijk");
    if (!same(arrays_seen[kv.first], now)) aup += (aup.empty() ? "" : ",") + text(kv.first) + ":" + list(now);
    arrays_seen[kv.first] = now;
  }
  string r;
  if (!upd.empty()) r += ",\"upd\":{" + upd + "}";
  if (!oth.empty()) r += ",\"oth\":[" + oth + "]";
  if (!aup.empty()) r += ",\"updA\":{" + aup + "}";
  gals_quiet(-1);
  return r;
}
static void emit(const string &s)
{
  fputs(("{" + s + "}\n").c_str(), out);
  fflush(out);
}
static string head(const string &t, const string &s) { return "\"t\":" + text(t) + ",\"s\":" + text(s); }

static void run(const string &cmd);
static string slurp(const string &name)
{
  std::ifstream is(name);
  std::ostringstream os;
  os << is.rdbuf();
  return os.str();
}
// try REQUEST COMMAND...: a copy of this process performs the command; what became of it
static void attempt()
{
  const string req = word(), said = string(getenv("GALS_SCRATCH")) + "/said", did = string(getenv("GALS_SCRATCH")) + "/did";
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) exit(3);
  if (pid == 0) {
    out = fopen(did.c_str(), "w");
    if (!freopen(said.c_str(), "w", stdout)) _exit(3);
    dup2(1, 2);
    bool threw = false;
    try {
      run(word());
    } catch (...) {
      threw = true;
      string left;
      for (auto &kv : inputs) left += (left.empty() ? "" : ",") + text(kv.first) + ":" + inputs_json(*kv.second);
      emit("\"t\":\"left\",\"inp\":{" + left + "}" + changes(systems.empty() ? "" : systems.begin()->first));
    }
    fflush(nullptr);
    _exit(threw ? 42 : 41);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  const string o = slurp(did);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
  const string how = !WIFEXITED(st) ? "crashed" : WEXITSTATUS(st) == 41 ? "went on" : WEXITSTATUS(st) == 42 ? "threw" : "ended";
  string r = "\"t\":\"try\",\"req\":" + req + ",\"o\":{\"how\":" + text(how) + ",\"said\":" + (slurp(said).empty() ? "false" : "true") + "}";
  if (how == "went on") r += ",\"did\":" + o.substr(0, o.size() - 1);
  if (how == "threw") r += ",\"left\":" + o.substr(0, o.size() - 1);
  emit(r);
}

static void run(const string &cmd)
{
  if (cmd == "try") return attempt();
  if (cmd == "begin") {
    arrays.clear();
    arrays_seen.clear();
    systems.clear();
    inputs.clear();
    helpers.clear();
    emit("\"t\":\"begin\",\"id\":" + text(word()));
    return;
  }
  if (cmd == "alg") {
    const string op = word(), ty = word(), kind = word();
    const int n = integer(), i = integer(), j = integer(), na = integer();
    Elem a = comps(na);
    const int nb = integer();
    Elem b = comps(nb);
    const bool I = ty == "i";
    AlgResult z;
    if (kind == "v") z = I ? alg_vec<int>(op, a, b, i, I) : alg_vec<D>(op, a, b, i, I);
    else if (kind == "m") z = I ? alg_mat<int>(op, a, b, i, j, I) : alg_mat<D>(op, a, b, i, j, I);
    else if (I) z = n == 1 ? alg_n<int, 1>(op, a, b, i, I) : n == 2 ? alg_n<int, 2>(op, a, b, i, I) : alg_n<int, 3>(op, a, b, i, I);
    else z = n == 0 ? alg_n<D, 0>(op, a, b, i, I)
               : n == 1 ? alg_n<D, 1>(op, a, b, i, I)
               : n == 2 ? alg_n<D, 2>(op, a, b, i, I)
               : n == 3 ? alg_n<D, 3>(op, a, b, i, I) : alg_n<D, 4>(op, a, b, i, I);
    emit("\"t\":\"alg\",\"op\":" + text(op == "makev" ? "make" : op) + ",\"ty\":" + text(ty) + ",\"kind\":" + text(kind) +
         ",\"n\":" + std::to_string(n) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) +
         ",\"a\":" + vals(a, I) + ",\"b\":" + vals(b, I) + ",\"o\":{\"r\":" + z.r +
         ",\"a\":" + z.a + ",\"b\":" + z.b + ",\"bool\":" + (z.yes ? "true" : "false") + "}");
    return;
  }
  if (cmd == "inp0") {
    const string s = word();
    auto *f = new GALS::INPUT_FIELDS::InputFields();
    inputs[s].reset(f);
    f->m_general->output_directory = word();
    auto &g = *f->m_grid;
    g.x_min = number(), g.x_max = number(), g.y_min = number(), g.y_max = number(), g.z_min = number(), g.z_max = number();
    g.nx = integer(), g.ny = integer(), g.nz = integer();
    f->m_time->start = number(), f->m_time->end = number(), f->m_time->dt = number();
    f->m_time->constant_dt = word();
    f->m_velocity->name = word();
    f->m_velocity->vector = comps(3);
    f->m_velocity->center = comps(3);
    f->m_velocity->gradient_scheme = word();
    f->m_levelset->name = word();
    f->m_levelset->center = vector3();
    f->m_levelset->radius = number();
    f->m_levelset->gradient_scheme = word();
    emit(head("inp0", s) + ",\"o\":" + inputs_json(*f));
    return;
  }
  if (cmd == "inputs") {
    const string s = word(), file = word();
    string given;
    std::getline(in, given);
    std::map<string, string> before;
    for (auto &kv : inputs) before[kv.first] = inputs_json(*kv.second);
    GALS::INPUT_PARSER::InputParser().parse(file, inputs[s].get());
    string oth;
    for (auto &kv : inputs)
      if (kv.first != s && before[kv.first] != inputs_json(*kv.second)) oth += (oth.empty() ? "" : ",") + text(kv.first);
    emit(head("inputs", s) + ",\"given\":" + given + (oth.empty() ? "" : ",\"oth\":[" + oth + "]") +
         ",\"o\":" + inputs_json(*inputs[s]));
    return;
  }
  if (cmd == "fs" || cmd == "fs2") {  // fs OP PATH: one object (fs2: another), its root directory set by "root"
    if (!helpers[cmd]) helpers[cmd].reset(new GALS::UTILITIES::FileUtils());
    GALS::UTILITIES::FileUtils &fu = *helpers[cmd];
    const string op = word(), path = word();
    string o;
    tree_before();
    if (op == "root") fu.setRootDirectory(path), o = text(fu.getRootDirectory());
    else if (op == "exists") o = fu.fileExists(path) ? "true" : "false";
    else if (op == "mkdir") o = fu.createDirectory(path) ? "true" : "false";
    else if (op == "rm") o = fu.removeFile(path) ? "true" : "false";
    else if (op == "rmdir") o = fu.removeDirectory(path) ? "true" : "false";
    else if (op == "getroot") o = text(fu.getRootDirectory());
    else if (op == "write") {
      const string s = word(), f = word();
      if (!systems[s]->write(fu, path, f)) exit(3);
      std::ifstream is(path);
      std::ostringstream os;
      os << is.rdbuf();
      emit(head("fs", s) + ",\"u\":" + text(cmd) + ",\"op\":\"write\",\"path\":" + parts(path) + ",\"f\":" + text(f) + changes(s) +
           tree_changes() + ",\"o\":{\"exists\":" + (is.good() || is.eof() ? "true" : "false") + ",\"lines\":" + tokens_of(os.str()) + "}");
      return;
    }
    emit("\"t\":\"fs\",\"u\":" + text(cmd) + ",\"op\":" + text(op) + ",\"path\":" + (op == "root" || op == "getroot" ? text(path) : parts(path)) + tree_changes() + ",\"o\":{\"ret\":" + o + "}");
    return;
  }
  if (cmd == "awr" || cmd == "aasg" || cmd == "ard" || cmd == "acpy" || cmd == "adel" || cmd == "atxt") {
    const string a = word();
    string s = "\"t\":" + text(cmd) + ",\"a\":" + text(a);
    if (cmd == "awr") {
      const string path = word();
      const int i = integer(), j = integer(), k = integer(), c = integer();
      const D v = number();
      arrays[a]->write(path, i, j, k, c - 1, v);
      s += ",\"path\":" + text(path) + ",\"nd\":" + ints({i, j, k}) + ",\"c\":" + std::to_string(c) + ",\"v\":" + hex(v);
    } else if (cmd == "aasg") {
      const string b = word();
      arrays[a]->assign(*arrays[b]);
      s += ",\"b\":" + text(b);
    } else if (cmd == "acpy") {
      const string b = word();
      arrays[a] = arrays[b]->clone();
      arrays_seen[a] = arrays[a]->read("ijk");
      s += ",\"b\":" + text(b) + ",\"o\":{\"data\":" + list(arrays_seen[a]) +
           ",\"size\":" + std::to_string(arrays[a]->size()) + "}";
    } else if (cmd == "adel") {
      arrays.erase(a);
      arrays_seen.erase(a);
    } else if (cmd == "atxt") {
      s += ",\"o\":{\"lines\":" + tokens_of(arrays[a]->print()) + "}";
    } else {
      const Array0 &x = *arrays[a];
      s += ",\"o\":{\"ijk\":" + list(x.read("ijk")) + ",\"vec\":" + list(x.read("vec")) + ",\"lin\":" +
           list(x.read("lin")) + ",\"raw\":" + list(x.read("raw")) + ",\"size\":" + std::to_string(x.size()) + "}";
    }
    emit(s + changes(""));
    return;
  }
  const string s = word();
  if (cmd == "grid") {
    const string mode = word();
    const int dim = integer(), n1 = integer(), n2 = integer(), n3 = integer(), pad = integer(), exact = integer();
    vector<D> box;
    for (int i = 0; i < 6; ++i) box.push_back(number());
    const bool regen = mode == "regen";
    if (!regen) systems[s].reset();              // the new one may come to lie where the old one was
    if (!regen)
      systems[s].reset(dim == 1 ? (System0 *)new System<1>() : dim == 2 ? (System0 *)new System<2>() : new System<3>());
    systems[s]->grid(n1, n2, n3, mode == "new1" ? 1 : mode == "new2" ? 2 : 3, pad, regen, box);
    const int want_pad = pad >= 0 ? pad : 1;
    emit(head("grid", s) + ",\"dim\":" + std::to_string(dim) + ",\"n\":" + ints({n1, n2, n3}) +
         ",\"pad\":" + std::to_string(want_pad) + ",\"lo\":" + list(Elem{box[0], box[2], box[4]}) +
         ",\"hi\":" + list(Elem{box[1], box[3], box[5]}) + ",\"exact\":" + (exact ? "true" : "false") +
         ",\"o\":" + systems[s]->about() + changes(s));
    return;
  }
  if (cmd == "twin") {       // twin B A dim n1 n2 n3 pad exact box: B lives on A's grid
    const string o = word();
    const int dim = integer(), n1 = integer(), n2 = integer(), n3 = integer(), pad = integer(), exact = integer();
    vector<D> box;
    for (int i = 0; i < 6; ++i) box.push_back(number());
    systems[s].reset(dim == 1 ? (System0 *)new System<1>() : dim == 2 ? (System0 *)new System<2>() : new System<3>());
    systems[s]->share(systems.count(o) ? *systems[o] : *shared.at(o));
    emit(head("grid", s) + ",\"dim\":" + std::to_string(dim) + ",\"n\":" + ints({n1, n2, n3}) + ",\"pad\":" + std::to_string(pad) +
         ",\"lo\":" + list(Elem{box[0], box[2], box[4]}) + ",\"hi\":" + list(Elem{box[1], box[3], box[5]}) +
         ",\"exact\":" + (exact ? "true" : "false") + ",\"o\":" + systems[s]->about() + changes(s));
    return;
  }
  System0 &S = *systems[s];
  if (cmd == "rebox") {
    const int exact = integer();
    vector<D> box;
    for (int i = 0; i < 6; ++i) box.push_back(number());
    S.rebox(box);
    emit(head(cmd, s) + ",\"lo\":" + list(Elem{box[0], box[2], box[4]}) + ",\"hi\":" + list(Elem{box[1], box[3], box[5]}) +
         ",\"exact\":" + (exact ? "true" : "false") + ",\"o\":" + S.about() + changes(s));
  } else if (cmd == "probe") emit(head(cmd, s) + ",\"o\":" + S.probe() + changes(s));
  else if (cmd == "peek") {
    const int stride = integer();
    emit(head(cmd, s) + ",\"o\":" + S.peek(stride) + changes(s));
  } else if (cmd == "vast") {
    const string kind = word(), path = word();
    emit(head(cmd, s) + S.vast(kind, path) + changes(s));
  } else if (cmd == "base") {
    V3 x = vector3();
    emit(head(cmd, s) + ",\"x\":" + list(Elem{x[0], x[1], x[2]}) + ",\"o\":" + S.base(x) + changes(s));
  } else if (cmd == "alloc") {
    S.drop();
    S.alloc();
    emit(head(cmd, s) + changes(s));
  } else if (cmd == "load") {
    const string f = word(), path = word();
    // the values written are what the script says; read them again for the event
    const std::streampos at = in.tellg();
    S.load(f, path);
    in.clear();
    in.seekg(at);
    const auto now = S.fields();
    string v = "[";
    const Contents &shape = now.at(f);
    for (size_t o = 0; o < shape.size(); ++o) v += (o ? "," : "") + list(comps((int)shape[o].size()));
    emit(head(cmd, s) + ",\"f\":" + text(f) + ",\"v\":" + v + "]" + changes(s));
  } else if (cmd == "copy") {
    const string d = word(), r = word();
    S.copy(d, r);
    emit(head(cmd, s) + ",\"dst\":" + text(d) + ",\"src\":" + text(r) + changes(s));
  } else if (cmd == "grad") {
    const string sch = word(), src = word(), dst = word(), how = word();
    S.gradient(sch, src, dst, how);
    emit(head(cmd, s) + ",\"scheme\":" + text(sch) + ",\"src\":" + text(src) + ",\"dst\":" + text(dst) + changes(s));
  } else if (cmd == "interp") {
    const string how = word();
    const int xpad = integer();
    const string r = S.interp(how, xpad);
    emit(head(cmd, s) + r + changes(s));
  } else if (cmd == "point") {
    const int lim = integer();
    const V3 x = vector3();
    const string r = S.point(x, lim);
    emit(head(cmd, s) + r + changes(s));
  } else if (cmd == "lin") {
    const string how = word();
    const string r = S.linear(how);
    emit(head(cmd, s) + r + changes(s));
  } else if (cmd == "euler" || cmd == "sl") {
    const string how = word();
    const D dt = number();
    if (cmd == "euler") S.euler(dt, how);
    else S.semi(dt, how);
    emit(head(cmd, s) + ",\"dt\":" + hex(dt) + changes(s));
  } else if (cmd == "alev") {
    const string name = name_word();
    const V3 c = vector3();
    const D r = number();
    const string j = S.circle(name, c, r, word());
    emit(head(cmd, s) + j + changes(s));
  } else if (cmd == "avel") {
    const string name = name_word();
    const V3 c = vector3();
    const string g = name_word();
    const D t = number();
    const string j = S.rotation(name, c, g, t, word());
    emit(head(cmd, s) + j + changes(s));
  } else if (cmd == "turn") {
    const string name = word();
    const Elem c = comps(integer());
    const string j = S.about_centre(name, c);
    emit(head("avel", s) + j + changes(s));
  } else if (cmd == "hole") {
    S.hole(word());
    emit(head(cmd, s) + changes(s));
  } else if (cmd == "text") {
    const string f = word();
    const string j = tokens_of(S.print(f));
    emit(head(cmd, s) + ",\"f\":" + text(f) + ",\"o\":{\"lines\":" + j + "}" + changes(s));
  } else if (cmd == "arr") {
    const string a = word(), kind = word();
    arrays[a] = S.array(kind);
    const Contents d = arrays[a]->read("ijk");
    arrays_seen[a] = d;
    const V3i n = arrays[a]->cells();
    emit(head(cmd, s) + ",\"a\":" + text(a) + ",\"nc\":" + std::to_string(arrays[a]->nc()) + ",\"o\":{\"data\":" +
         list(d) + ",\"size\":" + std::to_string(arrays[a]->size()) + ",\"n\":" + ints({n[0], n[1], n[2]}) + "}" +
         changes(s));
  } else {
    fprintf(stderr, "script: unknown command %s\n", cmd.c_str());
    exit(3);
  }
}

static char **args;
static void perform(const char *from, const char *to)
{
  std::ifstream script(from);
  out = fopen(to, "w");
  if (!script || !out) exit(3);
  string line;
  while (std::getline(script, line)) {
    if (line.empty()) continue;
    in.clear();
    in.str(line);
    run(word());
  }
}
static void finish()
{
  arrays.clear();
  systems.clear();
  inputs.clear();
  helpers.clear();
  fclose(out);
}
#ifdef GALS_THREADS
static void thread(int k)
{
  perform(args[3 + 2 * k], args[4 + 2 * k]);
  finish();
}
#endif

int main(int argc, char **argv)
{
  args = argv;
#ifdef GALS_THREADS
  if (argc < 5) return 3;
  perform(argv[1], "/dev/null");
  shared.swap(systems);
  gals_threads((argc - 3) / 2, thread);
  return 0;
#else
  if (argc != 3) return 3;
  perform(argv[1], argv[2]);
  finish();
  return 0;
#endif
}
