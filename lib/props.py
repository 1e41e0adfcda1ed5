"""The checks: for every property the models that TLC explores and the histories replayed into the implementation."""
import math
import random

from scripts import *
from replays import *
from refgen import *
import engine
import refs


def rng_of(prop, seed, part=""):
    return random.Random("%s/%s/%s" % (prop, seed, part))


def scale(tier, q, t):
    return q if tier == "quick" else t


def several(rng, pid, k, g, body, again=0.5, alloc=True):
    """body(s, g) on a grid; often again on a grid of the same shape in the same process, and then on the first one"""
    def setup(s, grid, mode="new3"):
        return [grid.line(s, mode)] + (["alloc " + s] if alloc else [])
    small = rng.random() < 0.12
    if small:
        g = tiny(rng, g)
    first = body("A", g)
    h = [begin(pid, k)] + setup("A", g) + first
    if small:
        g2 = tiny(rng, g)
        h += setup("B", g2) + body("B", g2) + (body("A", g) if rng.random() < 0.5 else [])
    elif alloc and rng.random() < 0.15:          # nearly the same calls on a second system over the same box
        h += setup("B", g) + nudged(rng, first, "A", "B")
        if rng.random() < 0.5:
            h += nudged(rng, first, "A", "A")
    elif rng.random() < again:
        g2 = sibling(rng, g)
        c = rng.random()
        if c < 0.25:          # the first one is gone
            h += setup("A", g2, rng.choice(["new3", "regen"])) + body("A", g2)
        else:
            h += setup("B", g2) + body("B", g2)
            if rng.random() < 0.5:
                h += body("A", g)
    return h


def often(rng, pid, tier, op, times=45, dims=(1, 2, 3), alloc=True, systems=1):
    """op(s, g, q) over and over on tiny grids: nothing may depend on how often it was done"""
    hs = []
    for k in range(scale(tier, 2, 6) * len(dims)):
        dim = dims[k % len(dims)]
        h = [begin(pid + "o", k)]
        gs = []
        for s in "ABC"[:systems]:
            gs.append((s, rand_grid(rng, dim, nmax={1: 3, 2: 2, 3: 2}[dim], pad=2 if dim < 3 else rng.choice([1, 2]) if pid not in NEEDS_TWO else 2)))
            h += [gs[-1][1].line(s)] + (["alloc " + s] if alloc else [])
        for q in range({1: times, 2: times, 3: times * 2 // 3}[dim]):
            for s, g in gs:
                h += op(s, g, q)
        hs.append(h)
    return hs


NEEDS_TWO = ("C06", "C07", "C20")                    # properties whose calls reach two nodes far


# --------------------------------------------------------------------------------------------------------------- grids
def small_grids(rng, count, nmax):
    """the corner cases first, then random ones"""
    out = []
    for dim in (1, 2, 3):
        for pad in (0, 1, 2, 3):
            out.append(rand_grid(rng, dim, nmax=nmax, pad=pad, exact=True))
            out.append(rand_grid(rng, dim, nmax=nmax, pad=pad, exact=False))
    for dim in (1, 2, 3):
        g = rand_grid(rng, dim, nmax=1, pad=1)
        out.append(g)
    while len(out) < count:
        out.append(rand_grid(rng, rng.choice([1, 2, 2, 3, 3]), nmax=nmax, big=0.15))
    return out[:max(count, 27)]


def modes(rng, g):
    m = ["new3"]
    if g.dim <= 2:
        m.append("new2")
    if g.dim == 1:
        m.append("new1")
    return rng.choice(m)


def gen_C01(rng, tier):
    hs = []
    for k, g in enumerate(small_grids(rng, scale(tier, 120, 600), scale(tier, 5, 7))):
        given = not (g.pad == 1 and rng.random() < 0.5)
        h = [begin("C01", k), g.line("A", modes(rng, g), given), "probe A"]
        if rng.random() < 0.5:        # another grid of another shape lives at the same time
            g2 = rand_grid(rng, rng.choice([1, 2, 3]), nmax=4)
            h += [g2.line("B"), "probe B", "probe A"]
        hs.append(h)
    for k in range(scale(tier, 6, 12)):
        hs.append([begin("C01v", k), vast_grid(rng, 1 + k % 3).line("A"), "peek A 977"])
    return hs


def gen_C02(rng, tier):
    hs = []
    for k, g in enumerate(small_grids(rng, scale(tier, 120, 600), scale(tier, 6, 8))):
        h = [begin("C02", k), g.line("A", modes(rng, g)), "probe A"]
        for _ in range(rng.choice([0, 1, 1, 2])):          # regenerate the same object with another box and padding
            if rng.random() < 0.5:
                g2 = sibling(rng, g)
            else:
                g2 = rand_grid(rng, g.dim, nmax=4)
                g2 = Grid(g.dim, g.n, rng.choice([g.pad, rng.randint(0, 3)]), g2.lo, g2.hi, False)
            g = g2
            h += [g2.line("A", "regen"), "probe A"]
            if rng.random() < 0.4:
                h += [other_box(rng, g2).rebox_line("A"), "probe A"]
        hs.append(h)
    for k in range(scale(tier, 36, 120)):         # every bound by itself
        g = rand_grid(rng, 1 + k % 3, nmax=4, big=0.1)
        h = [begin("C02b", k), g.line("A"), "probe A"]
        bounds = [(a, m) for a in range(3) for m in (0, 1)]
        rng.shuffle(bounds)
        for a, m in bounds[:4]:
            lo, hi = list(g.lo), list(g.hi)
            w = g.dx[a] * g.n[a] * rng.choice([0.5, 0.125, 2.0 ** -20])
            lo[a], hi[a] = (lo[a] - w, hi[a]) if m == 0 else (lo[a], hi[a] + w)
            g = Grid(g.dim, g.n, g.pad, lo, hi, False)
            h += [g.line("A", "regen") if rng.random() < 0.6 else g.rebox_line("A"), "probe A"]
        hs.append(h)
    # one axis at a time, sizes up to 40: positions must not drift
    for k in range(scale(tier, 12, 30)):
        g = rand_grid(rng, 1, nmin=20, nmax=scale(tier, 60, 200))
        hs.append([begin("C02l", k), g.line("A"), "probe A"])
    for k in range(scale(tier, 6, 12)):
        hs.append([begin("C02v", k), vast_grid(rng, 1 + k % 3).line("A"), "peek A %d" % scale(tier, 61, 7)])
    return hs


def gen_C03(rng, tier):
    hs = []
    for k in range(scale(tier, 120, 500)):
        g = rand_grid(rng, rng.choice([1, 2, 3]), nmax=6, big=0.2)
        h = [begin("C03", k), g.line("A", modes(rng, g))]
        for q in range(scale(tier, 25, 40)):
            x = []
            for a in range(3):
                if a >= g.dim:
                    x.append(rng.choice([0.0, 0.37, -5.0]))
                    continue
                c = rng.random()
                if c < 0.35:          # on a node, or half way between two
                    cc = rng.randint(g.first(a) - 2, g.last(a) + 2) + rng.choice([0, 0, 0.5, 0.25])
                elif c < 0.5:         # just beside a node
                    cc = rng.randint(g.first(a) - 1, g.last(a) + 1) + rng.choice([-1, 1]) * 2.0 ** -rng.randint(8, 40)
                elif c < 0.6:
                    cc = rng.uniform(-300, 300)
                else:
                    cc = rng.uniform(g.first(a) - 1, g.last(a) + 1)
                x.append(g.at(a, cc))
            h.append("base A " + hv(x))
        if rng.random() < 0.3:
            g2 = rand_grid(rng, g.dim, nmax=4)
            g2 = Grid(g.dim, g.n, rng.randint(0, 3), g2.lo, g2.hi, False)
            h.append(g2.line("A", "regen"))
            for q in range(6):
                h.append("base A " + hv(point(rng, g2, near_nodes=False) if g2.pad or min(g2.n[:g2.dim]) > 1 else
                                        [g2.at(a, 0.3) for a in range(3)]))
        hs.append(h)
    return hs


# -------------------------------------------------------------------------------------------------------------- arrays
def gen_C04(rng, tier):
    """random histories of several arrays of all element types on grids of every dimension"""
    hs = []
    for k in range(scale(tier, 80, 400)):
        dim = rng.choice([1, 2, 3])
        g = rand_grid(rng, dim, nmax=3 if dim == 3 else 4, pads=(0, 1, 1, 2), big=0.12)
        h = [begin("C04", k), g.line("A")]
        homes = ["A"]
        if rng.random() < 0.4:                 # arrays of two grids of one shape: values are assigned across, positions are not
            h.append(other_box(rng, g).line("B"))
            homes.append("B")
        arrays = {}
        for q in range(scale(tier, 14, 30)):
            c = rng.random()
            if len(arrays) < 2 or (c < 0.1 and len(arrays) < 5):
                kind = rand_kind(rng, dim) if not arrays or rng.random() < 0.4 else rng.choice(list(arrays.values()))
                a = "x%d" % q
                arrays[a] = kind
                h.append("arr %s %s %s" % (rng.choice(homes), a, kind))
                continue
            a = rng.choice(list(arrays))
            peers = [b for b in arrays if arrays[b] == arrays[a]]
            if c < 0.5:
                nd = rng.choice(g.nodes())
                h.append("awr %s %s %d %d %d %d %s" % (a, rng.choice(PATHS), *nd, rng.randint(1, kind_nc(dim, arrays[a])),
                                                      hx(values(rng, 1, "mixed")[0])))
            elif c < 0.65:
                h.append("aasg %s %s" % (a, rng.choice(peers)))
            elif c < 0.72:
                h.append("acpy y%d %s" % (q, a))
                arrays["y%d" % q] = arrays[a]
            elif c < 0.76 and len(arrays) > 2:
                h.append("adel %s" % a)
                del arrays[a]
            elif c < 0.8:
                h.append("atxt %s" % a)
            else:
                h.append("ard %s" % a)
        for a in arrays:
            h.append("ard %s" % a)
        hs.append(h)
    # a new level set and velocity hold zeros everywhere, also when memory was used before
    for k in range(scale(tier, 18, 45)):
        dim = 1 + k % 3
        g = rand_grid(rng, dim, nmax=3)
        h = [begin("C04z", k), g.line("A"), "alloc A"]
        for f in ("phi", "psi", "mix", "phiP", "psiP", "mixP", "vel", "vgr", "phiI", "psiI"):
            if ncomp(dim, f):
                h.append(load(rng, "A", g, f, "unit"))
        for d, sr in [("phiP", "phi"), ("psiP", "psi"), ("mixP", "mix"), ("phi", "phiI"), ("psi", "psiI")]:
            h.append("copy A %s %s" % (d, sr))
        h += ["alloc A"]
        hs.append(h)
    for k in range(scale(tier, 6, 15)):
        dim = 1 + k % 3
        hs.append([begin("C04v", k), vast_grid(rng, dim).line("A")] +
                  ["vast A %s %s" % (kd, rng.choice(PATHS)) for kd in (["d"] if tier == "quick" else ["d", "v"])])
    return hs


# ------------------------------------------------------------------------------------------------------------ gradients
HOWS = ["static", "static", "obj", "comp", "kept"]


def grad_history(rng, pid, k, scheme, vector, dim, nmax, style=None):
    pad = rng.randint(1, 3) if scheme == "central" else rng.randint(2, 3)
    if rng.random() < 0.15:
        pad, nmax = rng.choice([4, 4, 5, 6]), min(nmax, 5 - dim)
    g = rand_grid(rng, dim, nmax=nmax, pad=pad, big=0.15)

    def body(s, g):
        h = []
        if vector:
            src, dst = rng.choice(["vel", "vel", "psi", "psiP", "psiI"]), "vgr"
        else:
            src, dst = rng.choice(["phi", "phi", "phiP", "phiI"]), rng.choice(["psi", "psi", "psiP", "vel"])
        h.append(load(rng, s, g, src, style))
        h.append(load(rng, s, g, dst, "unit"))
        h.append("grad %s %s %s %s %s" % (s, scheme, src, dst, rng.choice(HOWS)))
        if rng.random() < 0.4:          # again, with other data
            h.append(load(rng, s, g, src, rng.choice(["spike", "small", None])))
            h.append("grad %s %s %s %s %s" % (s, scheme, src, dst, rng.choice(HOWS)))
        if rng.random() < 0.25:         # the same fields over another box
            h.append(sibling(rng, g).rebox_line(s))
            h.append("grad %s %s %s %s %s" % (s, scheme, src, dst, rng.choice(HOWS)))
            h.append(g.rebox_line(s))
        return h
    return several(rng, pid, k, g, body)


def grad_often(rng, pid, tier, schemes, src, dst):
    def op(s, g, q):
        return ([load(rng, s, g, src, "unit")] if q % 9 == 0 else []) + ["grad %s %s %s %s %s" % (s, schemes[q % len(schemes)], src, dst, ["static", "kept"][q // 16 % 2])]
    return often(rng, pid, tier, op)


def gen_grad(pid, scheme, vector):
    def gen(rng, tier):
        return [grad_history(rng, pid, k, scheme, vector, 1 + k % 3, 4 if k % 3 == 2 else 6)
                for k in range(scale(tier, 72, 400))] + grad_often(rng, pid, tier, [scheme], "phi", "psi")
    return gen


def gen_C07(rng, tier):
    return [grad_history(rng, "C07", k, ["central", "third"][(k // 3) % 2], True, 1 + k % 3, 3 if k % 3 == 2 else 5)
            for k in range(scale(tier, 72, 400))] + grad_often(rng, "C07", tier, ["central", "third"], "vel", "vgr")


# -------------------------------------------------------------------------------------------------------- interpolation
def loaded(rng, s, g, names, style=None):
    out = []
    for f in names:
        if ncomp(g.dim, f) == 0:
            continue
        if f.startswith("psi"):
            out.append(load_psi(rng, s, g, f, style))
        else:
            out.append(load(rng, s, g, f, style))
    return out


def interp_grid(rng, dim, nmax=None, pads=(1, 2, 3), exact=None, big=0.0):
    nmax = nmax or {1: 6, 2: 4, 3: 3}[dim]
    return rand_grid(rng, dim, nmax=nmax, pads=pads if dim < 3 else pads[:2], exact=exact, big=big)


def gen_C08(rng, tier):
    hs = []
    for k in range(scale(tier, 84, 420)):
        dim = 1 + k % 3
        g = interp_grid(rng, dim, big=0.12)

        def body(s, g):
            st = rng.choice([None, "unit", "unit", "int", "small"])
            h = loaded(rng, s, g, ["phiP", "psiP", "mixP"], st)
            # decoys: the interpolation must not look at these
            if rng.random() < 0.6:
                h += loaded(rng, s, g, ["phi", "psi", "mix"], "unit")
            if rng.random() < 0.5:
                h += loaded(rng, s, g, ["phiI", "psiI"], "unit")
            n = [rng.randint(1, g.n[a]) if a < dim else 1 for a in range(3)]
            pts = [point(rng, g) for _ in range(n[0] * n[1] * n[2])]
            h.append("interp %s %s %d %d %d %d %s" % (s, rng.choice(["static", "obj", "kept"]), rng.randint(1, 3), *n,
                                                     " ".join(hv(p) for p in pts)))
            for _ in range({1: 8, 2: 6, 3: 3}[dim]):
                h.append("point %s 0 %s" % (s, hv(point(rng, g))))
            # the same point again after one kind of data has changed
            p = hv(point(rng, g))
            h.append("point %s 0 %s" % (s, p))
            h += loaded(rng, s, g, [rng.choice(["phiP", "psiP", "mixP"])], rng.choice(["unit", "spike", st]))
            h.append("point %s 0 %s" % (s, p))
            if rng.random() < 0.25:
                g2 = sibling(rng, g)
                h += [g2.rebox_line(s), "point %s 0 %s" % (s, hv(point(rng, g2))), g.rebox_line(s)]
            return h
        hs.append(several(rng, "C08", k, g, body, 0.4))
    more = often(rng, "C08", tier, lambda s, g, q: (loaded(rng, s, g, ["phiP", "psiP", "mixP"], "unit") if q % 11 == 0 else []) +
                 ["point %s 0 %s" % (s, hv(point(rng, g)))])
    return hs + more


def nice_grid(rng, dim):
    return rand_grid(rng, dim, nmax={1: 4, 2: 3, 3: 2}[dim], pad=1, exact=True)


def limiter_data(rng, s, g, nice):
    dim, d = g.dim, g.dx
    if nice:
        hi = rng.choice([2, 4])
        r = lambda m: float(rng.randint(-m, m))
        phi = [r(hi) for _ in range(g.size())]
        slope = lambda a: 3.0 * r(hi) / d[a]
        mixed = [lambda: 9.0 * r(2) / (d[0] * d[1])] if dim == 2 else [
            lambda: 9.0 * r(1) / (d[0] * d[1]), lambda: 9.0 * r(1) / (d[1] * d[2]),
            lambda: 9.0 * r(1) / (d[2] * d[0]), lambda: 27.0 * r(1) / (d[0] * d[1] * d[2])]
    else:       # slopes comparable with the differences, so that every branch is taken
        sc = rng.choice([1.0, 1.0, 2.0 ** -40, 2.0 ** 30])
        phi = [sc * x for x in values(rng, g.size(), "unit")]
        slope = lambda a: sc * rng.uniform(-4, 4) * rng.choice([0.1, 1, 1, 3]) / d[a]
        w = lambda *ax: (lambda: sc * rng.uniform(-3, 3) / math.prod(d[a] for a in ax))
        mixed = [w(0, 1)] if dim == 2 else [w(0, 1), w(1, 2), w(2, 0), w(0, 1, 2)]
    psi = [slope(a) if a < dim else 0.0 for _ in range(g.size()) for a in range(3)]
    h = [load(rng, s, g, "phiP", vals=phi), load(rng, s, g, "psiP", vals=psi)]
    if dim > 1:
        h.append(load(rng, s, g, "mixP", vals=[m() for _ in range(g.size()) for m in mixed]))
    return h


def gen_C09(rng, tier):
    """limited interpolation: generic data, and exact small data in which the limiter's comparisons tie"""
    hs = []
    for k in range(scale(tier, 90, 450)):
        dim = 1 + k % 3
        nice = rng.random() < 0.6
        g = nice_grid(rng, dim) if nice else interp_grid(rng, dim, nmax={1: 4, 2: 3, 3: 2}[dim], pads=(1, 1, 2))

        def body(s, g):
            tie = nice and g.exact
            h = limiter_data(rng, s, g, tie)
            for _ in range({1: 10, 2: 8, 3: 5}[dim]):
                h.append("point %s 1 %s" % (s, hv(point(rng, g, near_nodes=tie))))
            p = hv(point(rng, g, near_nodes=False))
            h += ["point %s %d %s" % (s, q, p) for q in rng.sample([0, 1, 0, 1], 3)]     # on and off at one point
            return h
        hs.append(several(rng, "C09", k, g, body, 0.3))
    return hs


def gen_C10(rng, tier):
    hs = []
    for k in range(scale(tier, 120, 600)):
        g = rand_grid(rng, 1, nmax=8, pads=(1, 1, 2, 3), big=0.15)

        def body(s, g):
            h = []
            for _ in range(3):
                m = rng.randint(1, g.n[0])
                pts = [point(rng, g) for _ in range(m)]
                h.append("lin %s %s %s %s %d %s" % (s, rng.choice(["static", "obj", "one"]), hv(values(rng, g.size())),
                                                    hv(values(rng, g.size(), "unit")), m, " ".join(hv(p) for p in pts)))
            return h
        h = several(rng, "C10", k, g, body, 0.5, alloc=False)
        w = h[1].split(" ")
        w[2] = modes(rng, g)
        h[1] = " ".join(w)
        hs.append(h)
    more = often(rng, "C10", tier, lambda s, g, q: ["lin %s %s %s %s 1 %s" % (s, ["static", "obj", "one"][q // 15 % 3], hv(values(rng, g.size())),
                                                   hv(values(rng, g.size(), "unit")), hv(point(rng, g)))], dims=(1,), alloc=False)
    return hs + more


# --------------------------------------------------------------------------------------------------------------- steps
def rand_dt(rng):
    return rng.choice([1.0, 0.5, 0.125, 2.0, -0.5, rng.uniform(1e-3, 3), rng.uniform(1e-3, 3), rng.uniform(1e-6, 1e-3),
                       2.0 ** rng.randint(28, 36), 10.0 ** rng.uniform(-12, -9)])


def gen_C11(rng, tier):
    hs = []
    for k in range(scale(tier, 72, 400)):
        dim = 1 + k % 3
        g = interp_grid(rng, dim, big=0.12)
        dt0 = rand_dt(rng)
        sc0 = rng.choice([1.0, 1.0, 0.0, 1 / dt0, 1 / dt0])

        def body(s, g):
            dt = dt0 if rng.random() < 0.7 else rand_dt(rng)
            h = loaded(rng, s, g, ["phiP", "psiP", "mixP"], rng.choice([None, "unit"]))
            if rng.random() < 0.7:
                h += loaded(rng, s, g, ["phi", "psi", "mix", "phiI", "psiI"], "unit")
            h.append(load(rng, s, g, "vel", vals=velocity(rng, g, dt)))
            h.append(load(rng, s, g, "vgr", vals=[sc0 * x for x in vgr(rng, g)]))
            h.append("sl %s %s %s" % (s, rng.choice(["static", "obj", "kept"]), hx(dt)))
            c = rng.random()
            if c < 0.15:        # again at once: same previous level, so the same answer
                h.append("sl %s %s %s" % (s, rng.choice(["static", "obj", "kept"]), hx(dt)))
            elif c < 0.25:     # a step of no length: the previous level itself
                h.append("sl %s static %s" % (s, hx(0.0)))
            elif c < 0.45:     # one kind of data changes between two steps
                f = rng.choice(["phiP", "psiP", "mixP", "vgr", "vel"])
                if f == "vel":
                    h.append(load(rng, s, g, "vel", vals=velocity(rng, g, dt)))
                elif f == "vgr":
                    h.append(load(rng, s, g, "vgr", vals=[sc0 * x for x in vgr(rng, g)]))
                else:
                    h += loaded(rng, s, g, [f], "unit")
                h.append("sl %s kept %s" % (s, hx(dt)))
            elif c < 0.55:
                g2 = sibling(rng, g)
                h += [g2.rebox_line(s), load(rng, s, g2, "vel", vals=velocity(rng, g2, dt)), "sl %s kept %s" % (s, hx(dt)), g.rebox_line(s)]
            return h
        hs.append(several(rng, "C11", k, g, body, 0.4))
    dt1 = rand_dt(rng)

    def again(s, g, q):
        h = (loaded(rng, s, g, ["phiP", "psiP", "mixP"], "unit") + [load(rng, s, g, "vel", vals=velocity(rng, g, dt1))]) if q % 13 == 0 else []
        return h + [load(rng, s, g, "phiP", "unit"), "sl %s %s %s" % (s, ["static", "kept"][q // 13 % 2], hx(dt1))]
    more = often(rng, "C11", tier, again, times=40)
    return hs + more


def step_ops(rng, s, g, dt, scheme):
    """one full step as a user writes it: velocity, gradient, snapshot, semi-Lagrangian step"""
    out = []
    if rng.random() < 0.7:
        out.append(load(rng, s, g, "vel", vals=velocity(rng, g, dt)))
    if rng.random() < 0.5:
        if rng.random() < 0.5 and scheme:
            out.append("grad %s %s vel vgr static" % (s, scheme))
        else:
            out.append(load(rng, s, g, "vgr", vals=[x * rng.choice([1.0, 1 / dt]) for x in vgr(rng, g)]))
    if scheme and rng.random() < 0.6:
        out.append("grad %s %s phi psi static" % (s, scheme))
    snap = ["copy %s phiP phi" % s, "copy %s psiP psi" % s] + (["copy %s mixP mix" % s] if g.dim > 1 else [])
    rng.shuffle(snap)
    out += snap
    out.append("sl %s static %s" % (s, hx(dt)))
    return out


def gen_C12(rng, tier):
    """whole histories: several steps, each the next one's starting point"""
    hs = []
    for k in range(scale(tier, 48, 240)):
        dim = 1 + k % 3
        g = interp_grid(rng, dim, nmax={1: 6, 2: 4, 3: 2}[dim], pads=(2, 2, 3), big=0.08)
        h = [begin("C12", k), g.line("A"), "alloc A"]
        h += loaded(rng, "A", g, ["phi", "psi", "mix"], "unit")
        dt = rand_dt(rng)
        kind = rng.choice(["rest", "cells", "any", "any", "any"])
        if kind in ("rest", "cells"):
            h.append(load(rng, "A", g, "vel", vals=velocity(rng, g, dt, mode="zero" if kind == "rest" else "cells")))
            for _ in range(3):
                h += ["copy A phiP phi", "copy A psiP psi"] + (["copy A mixP mix"] if dim > 1 else [])
                h.append("sl A static " + hx(dt))
        else:
            for _ in range({1: 5, 2: 3, 3: 2}[dim]):
                h += step_ops(rng, "A", g, dt, rng.choice(["central", "third", None]))
                if rng.random() < 0.2:
                    dt = rand_dt(rng)
                    h.append(load(rng, "A", g, "vel", vals=velocity(rng, g, dt)))
                elif rng.random() < 0.15:
                    g = other_box(rng, g)
                    h += [g.rebox_line("A"), load(rng, "A", g, "vel", vals=velocity(rng, g, dt))]
        hs.append(h)
    for k in range(scale(tier, 12, 40)):                # many steps: nothing wears out
        dim = 1 + k % 2
        g = rand_grid(rng, dim, nmax={1: 3, 2: 2}[dim], pad=2)
        h = [begin("C12l", k), g.line("A"), "alloc A"] + loaded(rng, "A", g, ["phi", "psi", "mix"], "unit")
        dt = rand_dt(rng)
        scheme = rng.choice(["central", "third", None])
        for q in range({1: 140, 2: 40}[dim]):
            if q % 7 == 0:
                h.append(load(rng, "A", g, "vel", vals=velocity(rng, g, dt)))
            h += ["grad A %s phi psi static" % scheme] if scheme and q % 5 == 0 else []
            h += ["copy A phiP phi", "copy A psiP psi", "sl A static " + hx(dt)]
            if q % 20 == 19:                           # (values that grow without bound say nothing)
                h += loaded(rng, "A", g, ["phi", "psi"], "unit")
        hs.append(h)
    return hs


def gen_C13(rng, tier):
    hs = []
    for k in range(scale(tier, 72, 400)):
        dim = 1 + k % 3
        g = rand_grid(rng, dim, nmax={1: 8, 2: 5, 3: 3}[dim], pads=(0, 1, 2), big=0.12)

        def body(s, g):
            h = loaded(rng, s, g, ["phiP"]) + [load(rng, s, g, "vel")]
            if rng.random() < 0.7:
                h += loaded(rng, s, g, ["phi", "psi", "psiP"], "unit")
            for _ in range(3):
                h.append("euler %s %s %s" % (s, rng.choice(["static", "obj", "kept"]), hx(rand_dt(rng) * rng.choice([1, -1, 1]))))
                if rng.random() < 0.6:
                    h.append("copy %s phiP phi" % s)
                if rng.random() < 0.2:
                    h.append(load(rng, s, g, "vel"))
            return h
        hs.append(several(rng, "C13", k, g, body, 0.4))
    more = often(rng, "C13", tier, lambda s, g, q: ([load(rng, s, g, "vel", "unit"), load(rng, s, g, "phiP", "unit")] if q % 13 == 0 else []) +
                 ["euler %s %s %s" % (s, ["static", "kept"][q // 13 % 2], hx(0.25)), "copy %s phiP phi" % s])
    return hs + more


# ----------------------------------------------------------------------------------------------------- analytical fields
def circle_line(rng, s, g):
    name = rng.choice(["CIRCLE"] * 12 + ["SQUARE", "circle", "CIRCLES", "CIRCL", "CIRCULAR", "@none"])
    w = rng.choice([1.0, max(g.hi[a] - g.lo[a] for a in range(g.dim))])      # the circle's size: one, or the box's
    c = [rng.choice([0.0, 0.0, w * rng.uniform(-2, 2), g.at(a, rng.randint(0, g.n[a] - 1)) if a < g.dim else w * rng.uniform(-1, 1)])
         for a in range(3)]
    r = w * rng.choice([0.5, 0.0, rng.uniform(0, 3), rng.uniform(0, 3), 1e3, -rng.uniform(0, 3)])
    if rng.random() < 0.7:
        pos = "grid"
    else:
        pos = "list " + hv(values(rng, 3 * g.size(), rng.choice(["unit", "mixed"])))
    return "alev %s %s %s %s %s" % (s, name, hv(c), hx(r), pos)


def gen_C14(rng, tier):
    hs = []
    for k in range(scale(tier, 90, 450)):
        dim = 1 + k % 3
        g = rand_grid(rng, dim, nmax={1: 8, 2: 5, 3: 3}[dim], big=0.12)

        def body(s, g):
            h = []
            if rng.random() < 0.5:
                h += loaded(rng, s, g, ["phi", "psi"], "unit")
            for _ in range(2):
                l = circle_line(rng, s, g)
                h.append(l)
                if rng.random() < 0.4:      # the same circle again, at other positions
                    h.append(" ".join(l.split()[:7]) + " list " + hv(values(rng, 3 * g.size(), rng.choice(["unit", "small", "int"]))))
            return h
        hs.append(several(rng, "C14", k, g, body, 0.4))
    more = often(rng, "C14", tier, lambda s, g, q: [circle_line(rng, s, g)])
    return hs + more


def rotation_line(rng, s, g):
    name = rng.choice(["CIRCULAR"] * 12 + ["UNIFORM", "circular", "CIRCULAR2", "CIRCULA", "CIRCLE", "@none"])
    c = [rng.choice([0.0, rng.uniform(-2, 2), rng.uniform(-2, 2), g.at(a, rng.randint(0, g.n[a] - 1)) if a < g.dim else 1.5])
         for a in range(3)]
    gr = rng.choice(["ANALYTICAL"] * 12 + ["CENTRAL", "analytical", "ANALYTICAL_", "ANALYTIC", "THIRD", "@none"])
    if rng.random() < 0.7:
        pos = "grid"
    else:
        pos = "list " + hv(values(rng, 3 * g.size(), rng.choice(["unit", "mixed"])))
    return "avel %s %s %s %s %s %s" % (s, name, hv(c), gr, hx(rng.choice([0.0, rng.uniform(0, 9), rng.uniform(0, 9), -rng.uniform(0, 9), 3.15, 1e6])), pos)


def gen_C15(rng, tier):
    hs = []
    for k in range(scale(tier, 90, 450)):
        dim = 2 + k % 2
        g = rand_grid(rng, dim, nmax={2: 5, 3: 3}[dim], big=0.12)

        def body(s, g):
            h = []
            if rng.random() < 0.5:
                h += [load(rng, s, g, "vel", "unit"), load(rng, s, g, "vgr", "unit")]
            for _ in range(2):
                l = rotation_line(rng, s, g)
                h.append(l)
                if rng.random() < 0.5:      # the same rotation later, at other positions, over whatever is there now
                    if rng.random() < 0.5:
                        h += [load(rng, s, g, "vel", "unit"), load(rng, s, g, "vgr", "unit")]
                    w = l.split()
                    h.append(" ".join(w[:7]) + " " + hx(rng.uniform(0, 99)) + " list " + hv(values(rng, 3 * g.size(), rng.choice(["unit", "small", "int"]))))
            return h
        hs.append(several(rng, "C15", k, g, body, 0.4))
    more = often(rng, "C15", tier, lambda s, g, q: [rotation_line(rng, s, g)], dims=(2, 3))
    return hs + more


# -------------------------------------------------------------------------------------------------------------- algebra
def operand(rng, n, ty, style=None):
    if ty == "i":
        m = rng.choice([3, 3, 100, 30000])
        return [float(rng.randint(-m, m)) for _ in range(n)]
    style = style or rng.choice(["unit", "int", "mixed", "mixed", "big", "small"])
    return values(rng, n, style)


def gen_C17(rng, tier):
    hs = []
    # every order type of three components, ties included
    orders = [[a, b, c] for a in range(3) for b in range(3) for c in range(3)]
    for ty in "di":
        for f in (1.0, -1.0):
            h = [begin("C17o", len(hs))]
            for o in orders:
                h.append(alg("min", ty, "v", 3, 0, 0, [f * x * (1 if ty == "i" else 0.37) for x in o], []))
            hs.append(h)
    for k in range(scale(tier, 80, 400)):
        h = [begin("C17", k)]
        for _ in range(scale(tier, 40, 60)):
            ty = rng.choice("ddi")
            c = rng.random()
            if c < 0.45:
                op = rng.choice(["make", "makev", "zero", "size", "assign", "set", "min", "mag", "sub", "mulv", "muls", "divv", "eq"])
                a = operand(rng, 3, ty)
                if op in ("make", "makev", "size", "min", "mag"):
                    b = []
                elif op in ("set", "muls"):
                    b = operand(rng, 1, ty)
                elif op == "zero":
                    a, b = [], []
                else:
                    b = operand(rng, 3, ty)
                if op == "divv":
                    b = [x if x else 1.0 for x in b]
                    if ty == "d" and rng.random() < 0.3:
                        b[rng.randrange(3)] = 0.0
                    op = "divi" if ty == "i" else "divv"
                if op == "mag" and ty == "i":
                    m = rng.choice([10, 1000, 40000, 10 ** 9])
                    a = [float(rng.randint(-m, m)) for _ in range(3)]
                if op == "eq":
                    b = equalish(rng, a, ty)
                if ty == "i" and op in ("make", "makev", "assign", "set", "min", "eq", "sub") and rng.random() < 0.3:     # beyond what a float can hold
                    a = [float(rng.randint(-10 ** 9, 10 ** 9)) for _ in range(3)]
                    b = equalish(rng, a, ty) if op == "eq" else [float(rng.randint(-10 ** 9, 10 ** 9)) for _ in b]
                if ty == "i" and op in ("mulv", "muls"):
                    a = [max(-30000, min(30000, x)) for x in a]
                h.append(alg(op, ty, "v", 3, rng.randint(1, 3), 0, a, b))
            elif c < 0.8:
                op = rng.choice(["make", "zero", "size", "assign", "set", "setrc", "at", "sub", "muls", "dot", "dot", "eq"])
                a = operand(rng, 9, ty)
                if ty == "i":
                    a = [max(-10000, min(10000, x)) for x in a]
                i, j = rng.randint(0, 2), rng.randint(0, 2)
                if op == "set":
                    i = rng.randint(1, 9)
                if op in ("make", "size", "at"):
                    b = []
                elif op == "zero":
                    a, b = [], []
                elif op in ("set", "setrc", "muls"):
                    b = operand(rng, 1, ty)
                elif op == "dot":
                    b = operand(rng, 3, ty)
                elif op == "eq":
                    b = equalish(rng, a, ty)
                else:
                    b = operand(rng, 9, ty)
                h.append(alg(op, ty, "m", 9, i, j, a, b))
            else:
                n = rng.randint(1, 3) if ty == "i" else rng.randint(0, 4)
                op = rng.choice(["make", "zero", "size", "assign"] + (["set"] if n else []))
                a = operand(rng, n, ty) if op != "zero" else []
                b = operand(rng, n, ty) if op == "assign" else operand(rng, 1, ty) if op == "set" else []
                h.append(alg(op, ty, "n", n, rng.randint(1, max(1, n)), 0, a, b))
        hs.append(h)
    return hs


def equalish(rng, a, ty):
    """equal, or different in one component by clearly more or clearly less than the comparison's tolerance"""
    b = list(a)
    c = rng.random()
    if c < 0.3:
        return b
    i = rng.randrange(len(b))
    if ty == "i":
        b[i] += rng.choice([-1, 1])
    else:
        b[i] = b[i] + rng.choice([-1, 1]) * rng.choice([5e-11 if abs(a[i]) < 100 else 1.0, 5e-10 if abs(a[i]) < 1000 else 1.0, 1e-3, 1.0])
        if b[i] != a[i] and 0.7e-10 < abs(b[i] - a[i]) < 2e-10:
            b[i] = a[i] + 1
    return b


# --------------------------------------------------------------------------------------------------------------- output
def gen_C18(rng, tier):
    hs = []
    for k in range(scale(tier, 120, 600)):
        dim = 1 + k % 3
        g = rand_grid(rng, dim, nmax={1: 8, 2: 4, 3: 3}[dim], big=0.2)
        base = rng.choice(["@S/case%d", "case%d"]) % k            # absolute, or relative to where the program runs
        vary = lambda p: p if rng.random() < 0.8 else rng.choice([p.replace("/", "//"), p + "//", p.replace("case", "./case"), p.replace("/a", "/./a")])
        fs = lambda: rng.choice(["fs", "fs", "fs2"])               # two helpers at once
        h = [begin("C18", k), "fs root %s/" % base, g.line("A"), "alloc A"]
        if rng.random() < 0.5:
            h.append("fs2 root %s/%s" % (base, rng.choice(["other", "case/", "x/y"])))
        names = ["phi", "psi", "vel", "vgr"] + (["mix"] if dim > 1 else [])
        for f in names:
            h.append(load(rng, "A", g, f))
            h.append("text A %s" % f)
        h += ["%s getroot x" % fs(), "fs mkdir %s/" % base]
        for q in range(6):
            c = rng.random()
            d = rng.choice([base, base, "@S/case%d" % k])
            p = d + "/" + rng.choice(["a", "b", "sub/a", "sub/deep/er", "c.txt", "sub", "f1", "f2/x", "velocity/sub/y"])
            if c < 0.3:
                h.append("%s exists %s" % (fs(), vary(p).rstrip("/")))   # a file has no slash behind it
            elif c < 0.5:
                h.append("%s mkdir %s" % (fs(), vary(p) + rng.choice(["", "/"])))
            elif c < 0.6:
                h.append("%s rm %s" % (fs(), vary(p).rstrip("/")))
            elif c < 0.7:
                h.append("%s rmdir %s" % (fs(), vary(p)))
            else:
                f = rng.choice(["psi", "vel"] + (["phi", "phiP"] if dim < 3 else []))
                t = d + "/" + rng.choice(["f1", "f2", "velocity", "velocity"])
                h += ["%s write %s A %s" % (fs(), t, f), "%s exists %s" % (fs(), t)]
                if rng.random() < 0.4:      # overwritten, not appended to
                    h += [load(rng, "A", g, f), "%s write %s A %s" % (fs(), t, f)]
                if rng.random() < 0.4:
                    h += ["%s rm %s" % (fs(), t), "%s exists %s" % (fs(), t), "%s rm %s" % (fs(), t)]
        h += ["%s rmdir %s" % (fs(), base), "%s exists %s/" % (fs(), base), "fs getroot x", "fs2 getroot x"]
        hs.append(h)
    return hs


# ---------------------------------------------------------------------------------------------------------------- inputs
def gen_C16(rng, tier):
    import json as js
    hs = []
    for k in range(scale(tier, 120, 600)):
        h = [begin("C16", k), inp0_line(rng, "I")]
        if rng.random() < 0.4:
            h.append(inp0_line(rng, "J"))
        for q in range(rng.randint(1, 4)):
            text, given = input_file(rng, [s for s in SECTIONS if rng.random() < (0.75 if q else 0.9)] or ["time"])
            if rng.random() < 0.2:
                text += ["other:", "   thing: 1"]
            name = "@S/in%d_%d" % (k, q)
            h.append(("file", name, "\n".join(text) + "\n"))
            h.append("inputs %s %s %s" % (rng.choice(["I", "I", "J"]) if any(x.startswith("inp0 J") for x in h if isinstance(x, str)) else "I",
                                           name, js.dumps(given)))
        hs.append(h)
    return hs


# ------------------------------------------------------------------------------------------------------------- isolation
def gen_C20(rng, tier):
    """two or three simulations of different shapes, their calls interleaved"""
    hs = []
    for k in range(scale(tier, 84, 400)):
        ids = ["A", "B", "C"][:rng.choice([2, 2, 3])]
        gs, per, lives, twins = {}, {}, {}, []
        common = rng.choice(["central", "third"])
        pick = lambda: common if rng.random() < 0.75 else rng.choice(["central", "third"])
        echo = len(ids) == 2 and rng.random() < 0.4
        h = [begin("C20", k)]
        dim0 = rng.choice([1, 2, 3])
        for s in ids:
            dim = dim0 if rng.random() < 0.6 else rng.choice([1, 2, 3])
            g = interp_grid(rng, dim, nmax={1: 5, 2: 3, 3: 2}[dim], pads=(2, 2, 2))
            if gs and rng.random() < 0.6:          # the same shape as the first one, another box or the very same
                o = gs["A"]
                g = sibling(rng, o) if rng.random() < 0.6 else o
            gs[s] = g
        for s in ids:
            g, l = gs[s], []
            dt = rand_dt(rng) if not echo or rng.random() < 0.4 else 2.0 ** rng.randint(12, 34)
            if s != "A" and g is gs["A"] and rng.random() < 0.7:
                h += [g.line("A")] if not twins else []
                twins.append(s)
                l += [g.twin_line(s, "A"), "alloc " + s]     # two simulations on one grid object
            else:
                l += [g.line(s), "alloc " + s]
            l += loaded(rng, s, g, ["phi", "psi", "mix"], "unit")
            l.append(load(rng, s, g, "vel", vals=velocity(rng, g, dt)))
            for _ in range({1: 3, 2: 2, 3: 1}[g.dim]):
                if rng.random() < 0.7:
                    l.append("grad %s %s vel vgr %s" % (s, pick(), rng.choice(["static", "kept"])))
                l += step_ops(rng, s, g, dt, rng.choice([pick(), pick(), None]))
                if rng.random() < 0.3:
                    l.append("point %s 0 %s" % (s, hv(point(rng, g))))
                if rng.random() < 0.2:
                    l.append(circle_line(rng, s, g))
            if rng.random() < 0.4 and g.dim > 1:      # last: its velocity may point out of the grid
                l.append(rotation_line(rng, s, g))
            per[s] = l
            lives[s] = [dt, g]
        for s in ids:
            while not echo and not twins and rng.random() < 0.5:     # gone, and another one in its place: the same shape or not
                dt, g = lives[s]
                if rng.random() < 0.8:
                    g = sibling(rng, g)
                else:
                    d = rng.choice([1, 2, 3])
                    g = interp_grid(rng, d, nmax={1: 5, 2: 3, 3: 2}[d], pads=(2, 2, 2))
                l = [g.line(s), "alloc " + s] + loaded(rng, s, g, ["phi", "psi", "mix"], "unit")
                l.append(load(rng, s, g, "vel", vals=velocity(rng, g, dt)))
                l += ["grad %s %s vel vgr %s" % (s, pick(), rng.choice(["static", "kept"]))] + step_ops(rng, s, g, dt, pick())
                if rng.random() < 0.5:
                    l.append("point %s 0 %s" % (s, hv(point(rng, g))))
                if rng.random() < 0.3:
                    l.append(circle_line(rng, s, g))
                per[s] += l
        if echo:      # the second does nearly the same as the first
            gs["B"] = gs["A"]
            lines = nudged(rng, [l for l in per["A"] if l.split(" ")[0] not in ("grid", "twin")], "A", "B")
            per["B"] = [gs["A"].line("B")] + lines
            h, twins = h[:1], []
            if per["A"][0].split(" ")[0] != "grid":
                per["A"].insert(0, gs["A"].line("A"))
            if rng.random() < 0.7:                     # in step with each other
                h += [l for pair in zip(per["A"], per["B"]) for l in pair]
                per = {s: [] for s in ids}
        if twins:
            per["A"].pop(0)
        while any(per.values()):
            s = rng.choice([x for x in ids if per[x]])
            for _ in range(rng.randint(1, 3)):
                if per[s]:
                    h.append(per[s].pop(0))
        hs.append(h)
    dts = {s: rand_dt(rng) for s in "ABC"}

    def full(s, g, q):
        h = (loaded(rng, s, g, ["phi", "psi", "mix"], "unit") + [load(rng, s, g, "vel", vals=velocity(rng, g, dts[s]))]) if q % 13 == 0 else []
        return h + ["copy %s phiP phi" % s, "copy %s psiP psi" % s, "sl %s static %s" % (s, hx(dts[s]))] + (["grad %s third phi psi static" % s] if q % 4 == 0 else [])
    more = often(rng, "C20", tier, full, times=16, systems=2)
    return hs + more


# ----------------------------------------------------------------------------------------------------------- application
def gen_C19(rng, tier):
    """whole runs of the advection program, from an input file to its output file"""
    hs = []
    for k in range(scale(tier, 56, 280)):
        n = [rng.randint(2, 6), rng.randint(2, 6), 1]
        if k % 14 == 5:                               # a long axis
            n[k // 14 % 2] = [34, 20, 70][k // 28 % 3] + rng.randint(0, 3)
        lo, hi = [], []
        for a in range(3):
            dx = rng.choice([0.25, 0.2, rng.uniform(0.05, 0.6)])
            l = rng.choice([-n[a] * dx / 2, 0.0, rng.uniform(-1, 1)])
            lo.append(l)
            hi.append(l + n[a] * dx)
        if rng.random() < 0.5:
            lo[2], hi[2] = rng.choice([(-1.0, 1.0), (0.0, 0.0), (0.0, 0.01), (0.0, 50.0)])
        g = Grid(2, n, 2, lo, hi, False)
        vc = [rng.choice([0.0, rng.uniform(lo[a], hi[a]) if a < 2 else 0.5]) for a in range(3)]
        # roots have to stay within the two ghost layers
        far = [max(abs(g.at(1 - a, c) - vc[1 - a]) for c in (0, n[1 - a] - 1)) for a in (0, 1)]
        cap = min(1.9 * g.dx[a] / max(far[a], 1e-3) for a in (0, 1))
        auto = 0.5 * min(g.dx[0], g.dx[1])
        constant = rng.choice(["YES", "YES", "YES", "NO", "NO", "NO", "MAYBE", "no", "No", "N", "NOT", "NO_", "FALSE", "AUTO"])
        if constant == "NO" and auto > cap:
            constant = "YES"
        dt = min(rng.choice([0.1, 0.05, 0.125, 0.3, rng.uniform(0.01, 0.3)]), 0.95 * cap)
        used = auto if constant == "NO" else dt
        start = rng.choice([0.0, 0.0, 0.5, -1.0, rng.uniform(-3, 3), 10.0])
        steps = rng.randint(1, 6)
        end = start + used * (steps - rng.choice([0.0, 0.0, 0.5, 0.25, rng.uniform(0.02, 0.98)]))
        if rng.random() < 0.3:              # a little before or beyond a step: within the tolerance of 1e-10 or not
            end = start + used * steps + rng.choice([-1, 1]) * rng.choice([3e-11, 2.5e-10, 1e-9, 1e-8, 1e-7, 1e-5])
        if 7e-11 < abs((end - start) - used * round((end - start) / used)) < 1.5e-10:
            end = start + used * (steps - 0.5)
        far_c = rng.random() < 0.2
        lc = [rng.choice([0.0, rng.uniform(lo[a], hi[a]) if a < 2 else 0.0]) + (3.0 if far_c else 0.0) for a in range(3)]
        radius = rng.choice([0.5, rng.uniform(0.05, 2)])
        grad = rng.choice(["ANALYTICAL", "ANALYTICAL", "CENTRAL"])
        o = rng.choice(["out", "project/case", "a/b/c"])
        hs.append(app_history("C19-%d" % k, n, lo, hi, start, end, dt, constant, vc, grad, lc, radius, o, steps,
                              shown=dt if constant != "NO" else rng.uniform(0.5, 9), vector=rng.uniform(-2, 2),
                              vname=rng.choice(["CIRCULAR"] * 14 + ["UNIFORM", "circular", "CIRCULAR2"]),
                              lname=rng.choice(["CIRCLE"] * 14 + ["SQUARE", "circle", "CIRCLE2"]),
                              lgrad=rng.choice(["CENTRAL", "THIRD_ORDER", "ANALYTICAL"])))
        hs[-1]["relative"] = rng.random() < 0.3
        hs[-1]["stale"] = rng.random() < 0.3
        hs[-1]["others"] = rng.random() < 0.5
        hs[-1]["build"] = "delivered" if k % 2 else "app"           # built without BUILD_TESTS, or with
    for k in range(scale(tier, 6, 20)):                # long runs
        lo, hi = [-1.0, -1.0, -1.0], [1.0, 1.0, 1.0]
        dt = rng.choice([0.1, 0.01, 0.03, rng.uniform(0.01, 0.2)])
        steps = rng.randint(60, 130)
        hs.append(app_history("C19l-%d" % k, [rng.randint(2, 3), 2, 1], lo, hi, 0.0, dt * (steps - 0.5), dt, "YES", [rng.uniform(-0.5, 0.5), 0.25, 0.0],
                              "ANALYTICAL", [0.0, 0.25, 0.0], 0.5, "out", steps, shown=dt, vector=1.0))
        hs[-1]["most"] = 200
    return hs


# --------------------------------------------------------------------------------------------------------------- threads
def threads_history(rng, name, scripts, prologue=()):
    return {"id": name, "threads": scripts, "prologue": list(prologue), "seed": rng.randint(1, 10 ** 6),
            "rate": rng.choice([2, 10, 50, 200, 1000]), "weight": 2000 + sum(engine.weight(h) for h in scripts)}


def gen_C27(rng, tier):
    """two to four threads, each with a history of its own as the other properties make them, many of them alike"""
    hs, pool = [], {}
    for pid in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"):
        one = PROPS[pid]["gen"](rng, "quick")
        pool[pid] = [h for h in one if engine.weight(h) < 60000 and not any(l.split(" ")[0] in ("peek", "vast") for l in h if isinstance(l, str))]
    for k in range(scale(tier, 8, 30)):
        for pid in pool:
            n = rng.choice([2, 2, 2, 3, 4])
            c = rng.random()
            if c < 0.2 and pid != "C18":               # the same calls in all of them
                scripts = [rng.choice(pool[pid])] * n
            elif c < 0.8:
                scripts = rng.sample(pool[pid], n)
            else:
                scripts = [rng.choice(pool[pid])] + [rng.choice(pool[q]) for q in rng.sample([q for q in pool if q != pid], n - 1)]
            hs.append(threads_history(rng, "C27-%s-%d" % (pid, k), scripts))
    for k in range(scale(tier, 80, 300)):              # simulations on one grid, which nobody changes
        dim = 1 + k % 3
        g = interp_grid(rng, dim, nmax={1: 6, 2: 3, 3: 2}[dim], pads=(2, 2, 3))
        scripts = []
        for t in range(rng.choice([2, 2, 3])):
            h = [begin("C27g", k), g.twin_line("A", "S"), "alloc A"]
            if rng.random() < 0.3:
                h.append("probe A")
            dt = rand_dt(rng)
            h += loaded(rng, "A", g, ["phi", "psi", "mix"], "unit") + [load(rng, "A", g, "vel", vals=velocity(rng, g, dt))]
            for _ in range({1: 3, 2: 2, 3: 1}[dim]):
                h += step_ops(rng, "A", g, dt, rng.choice(["central", "third", None]))
                if rng.random() < 0.5:
                    h.append("euler A static " + hx(dt))
                h += ["point A 0 " + hv(point(rng, g, near_nodes=False))]
                h.append(circle_line(rng, "A", g))
                if rng.random() < 0.3:
                    h.append("text A %s" % rng.choice(["phi", "psi"]))
            if dim > 1:
                h.append(rotation_line(rng, "A", g))
            scripts.append(h)
        hs.append(threads_history(rng, "C27g-%d" % k, scripts, [g.line("S")]))
    return hs


def replay_threads(rng, tier, stats):
    """every pair of programs of the model, on one grid or on two"""
    hs = []
    for k, c in enumerate(replays(stats, "MC_Threads")):
        for dim in (1, 2, 3) if tier != "quick" else (1 + k % 3, 2):
            gs = [interp_grid(rng, dim, nmax={1: 5, 2: 3, 3: 2}[dim], pads=(2, 2, 2))]
            gs.append(gs[0] if c["one"] else rng.choice([gs[0], sibling(rng, gs[0])]))
            scripts = []
            for g, ops in zip(gs, c["prog"]):
                dt = 2.0 ** rng.randint(-3, 2)
                h = [begin("C27m", k), g.twin_line("A", "S") if c["one"] else g.line("A"), "alloc A"]
                h += loaded(rng, "A", g, ["phi", "psi", "mix", "phiP", "psiP", "mixP"], "unit")
                h += [load(rng, "A", g, "vel", vals=velocity(rng, g, dt)), load(rng, "A", g, "vgr", vals=vgr(rng, g))]
                turned = False
                for op in ops:
                    if op in ("grad", "vgrad"):
                        h.append("grad A %s %s %s" % (rng.choice(["central", "third"]), "phi psi" if op == "grad" else "vel vgr", rng.choice(["static", "kept"])))
                    elif op == "snap":
                        h += ["copy A phiP phi", "copy A psiP psi"]
                    elif op in ("sl", "euler"):
                        if turned:          # (the rotation's roots may leave the grid)
                            h.append(load(rng, "A", g, "vel", vals=velocity(rng, g, dt)))
                        h.append("%s A %s %s" % (op, rng.choice(["static", "kept"]), hx(dt)))
                    elif op == "circle":
                        h.append("alev A %s %s %s grid" % (rng.choice(["CIRCLE", "CIRCLE", "SQUARE"]), hv([rng.uniform(-1, 1) for _ in range(3)]), hx(0.5)))
                    elif op == "rotation":
                        if dim > 1:
                            h.append("avel A %s %s ANALYTICAL %s grid" % (rng.choice(["CIRCULAR", "CIRCULAR", "UNIFORM"]), hv([rng.uniform(-1, 1) for _ in range(3)]), hx(0.0)))
                            turned = True
                    else:
                        h += ["point A 0 " + hv(point(rng, g, near_nodes=False)) for _ in range(2)]
                scripts.append(h)
            hs.append(threads_history(rng, "C27m-%d-%d" % (k, dim), scripts, [gs[0].line("S")] if c["one"] else []))
    return hs


def gen_C28(rng, tier):
    """files with up to three flaws, forms at random, among requests that are in order"""
    needs = {"general": ["output_directory"], "grid": ["x_min", "x_max", "y_min", "y_max", "z_min", "z_max", "cells"],
             "time": ["start", "end", "dt", "constant_dt"], "velocity": ["name", "vector", "center", "gradient_scheme"],
             "levelset": ["name", "center", "radius", "gradient_scheme"]}
    forms = ["absent", "absent", "map", "word", "number", "untidy", "untidy", "list0", "list1", "list2", "list3", "list4", "reals3", "words3"]
    hs = []
    def flaws():
        f = []
        for sec in rng.sample(SECTIONS, rng.choice([0, 1, 1, 2, 3])):
            c = rng.random()
            f.append({"sec": sec, "key": "", "form": rng.choice(["empty section", "scalar section"])} if c < 0.1 else
                     {"sec": sec, "key": rng.choice(needs[sec]), "form": rng.choice(forms)})
        return f
    for k in range(scale(tier, 80, 500)):
        reqs = []
        for _ in range(12):
            c = rng.random()
            if c < 0.6:
                reqs.append({"kind": "file", "flaws": flaws()})
            elif c < 0.75:
                reqs.append({"kind": "vec3", "n": rng.choice([0, 1, 2, 3, 3, 4, 5, 8, 64])})
            elif c < 0.95:
                reqs.append({"kind": "turn", "dim": rng.randint(1, 3), "name": rng.choice(["CIRCULAR", "CIRCULAR", "VORTEX"]), "n": rng.randint(0, 4)})
            else:
                reqs.append({"kind": "hole", "what": "hermite", "dim": rng.randint(1, 3)})
        hs.append(request_history(rng, 1000 + k, reqs))
    for k in range(scale(tier, 120, 600)):
        hs.append(run_history(rng, 1000 + k, {"kind": "run", "argument": "file", "flaws": flaws()}))
    for pid in ["C%02d" % q for q in range(1, 19)] + ["C20"]:      # what can be done is done, in this build too
        pool = [h for h in PROPS[pid]["gen"](rng, "quick") if engine.weight(h) < 40000]
        hs += rng.sample(pool, min(len(pool), scale(tier, 3, 30)))
    return hs


PROPS = {}


def prop(pid, models, gen, **kw):
    PROPS[pid] = dict(models=[(m, m + ".cfg") if isinstance(m, str) else m for m in models], gen=gen, level="model_checking", **kw)


prop("C01", ["MC_Grid"], gen_C01)
prop("C02", ["MC_Grid"], gen_C02)
prop("C03", ["MC_Grid"], gen_C03)
prop("C04", ["MC_Array"], gen_C04, deep="_deep.cfg", from_models=[replay_arrays], workers=1)
prop("C05", [("MC_Gradient", "MC_Gradient_C05.cfg")], gen_grad("C05", "central", False), deep="_deep.cfg", from_models=[replay_gradient("C05", 200)])
prop("C06", [("MC_Gradient", "MC_Gradient_C06.cfg")], gen_grad("C06", "third", False), deep="_deep.cfg", from_models=[replay_gradient("C06", 200)])
prop("C07", [("MC_Gradient", "MC_Gradient_C07.cfg")], gen_C07, deep="_deep.cfg", from_models=[replay_gradient("C07", 40)])
prop("C08", ["MC_Hermite"], gen_C08, deep="_deep.cfg", from_models=[replay_hermite])
prop("C09", ["MC_Limiter"], gen_C09, deep="_deep.cfg", from_models=[replay_limiter])
prop("C10", ["MC_Linear"], gen_C10, deep="_deep.cfg", from_models=[replay_linear])
prop("C11", ["MC_Step"], gen_C11, deep="_deep.cfg", from_models=[replay_step("sl", "C11")])
prop("C12", [("MC_Sim", "MC_Sim_C12.cfg")], gen_C12, deep="_deep.cfg", from_models=[replay_sim("C12", 300)])
prop("C13", ["MC_Step"], gen_C13, deep="_deep.cfg", from_models=[replay_step("euler", "C13")])
prop("C14", ["MC_Fields"], gen_C14, deep="_deep.cfg", from_models=[replay_fields("alev")])
prop("C15", ["MC_Fields"], gen_C15, deep="_deep.cfg", from_models=[replay_fields("avel")])
prop("C16", ["MC_Inputs"], gen_C16, deep="_deep.cfg", from_models=[replay_inputs])
prop("C17", ["MC_Algebra"], gen_C17, deep="_deep.cfg", from_models=[replay_algebra])
prop("C18", ["MC_Files"], gen_C18, from_models=[replay_files], workers=1)
prop("C19", ["MC_Time"], gen_C19, deep="_deep.cfg", from_models=[replay_time], program="app")
prop("C20", [("MC_Sim", "MC_Sim_C20.cfg")], gen_C20, deep="_deep.cfg", from_models=[replay_sim("C20", 200)])

prop("C21", ["MC_RefStep"], gen_C21, deep="_deep.cfg", from_models=[replay_refstep("C21", ["phi", "psi"], 60, ALL)], refs=ALL)
prop("C22", ["MC_RefStep"], gen_C22, deep="_deep.cfg", from_models=[replay_refstep("C22", ["mix"], 80, ALL)], refs=ALL)
prop("C23", ["MC_RefStep"], gen_C23, deep="_deep.cfg", from_models=[replay_refstep("C23", ["init", "vel"], 60, ALL)], refs=ALL)
prop("C24", ["MC_RefRun"], gen_C24, deep="_deep.cfg", from_models=[replay_run], refs=ALL)
prop("C25", ["MC_RefPar"], gen_C25, deep="_deep.cfg", from_models=[replay_par], refs=CPU + ["ompx", "mpiompx"])
prop("C26", ["MC_RefPar"], gen_C26, deep="_deep.cfg", refs=["serial", "cuda", "cudax"])
prop("C27", ["MC_Threads"], gen_C27, deep="_deep.cfg", from_models=[replay_threads], program="threads")

prop("C28", ["MC_Requests"], gen_C28, deep="_deep.cfg", from_models=[replay_requests], program="refusing")


# ------------------------------------------------------------------------------------------------------------ deciding
import concurrent.futures
import json
import os
import time

import engine
from engine import VERIF


def known_findings(pid):
    """lines 'finding: property=<id> clause=<text> ...' of known-findings.txt: (substring to match, description)"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("finding: property=%s " % pid):
                m = l.split(" match=", 1)
                if len(m) == 2:
                    out.append((m[1].split(" :: ")[0].strip(), l.strip()))
    return out


def lasting(rng, histories):
    """part of the histories share a process, one after another: what the library keeps beyond the life of an object shows"""
    calls = [h for h in histories if not isinstance(h, dict)]
    rng.shuffle(calls)
    part = len(calls) * 2 // 3
    out, group = [], []
    for h in calls[:part]:
        group.append(h)
        if sum(map(engine.weight, group)) > 250000 or len(group) >= 24:
            out.append(sum(group, []))
            group = []
    return [h for h in histories if isinstance(h, dict)] + out + ([sum(group, [])] if group else []) + calls[part:]


def decide(work, pid, tier, seed, t0):
    P = PROPS[pid]
    violations, cover = [], {"models": []}
    rng = rng_of(pid, seed)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        work.java()
        models = [ex.submit(engine.model_check, work, m, workers=P.get("workers", 6), cfg=c if tier == "quick" else c.replace(".cfg", P.get("deep", ".cfg")))
                  for m, c in P["models"]]
        if P.get("program") == "app":
            trial = app_history("trial", [3, 3, 1], [0.0] * 3, [1.0] * 3, 0.0, 0.1, 0.05, "YES", [0.5, 0.5, 0.0], "ANALYTICAL",
                                [0.5, 0.5, 0.0], 0.25, "out", 2, shown=0.05, vector=1.0)
            built = ex.submit(lambda: {"app": work.build_app(trial), "delivered": work.build_app(trial, ["-UBUILD_TESTS"], ".prod")})
        elif P.get("program") == "threads":
            built = ex.submit(work.build_threads)
        elif P.get("program") == "refusing":
            built = ex.submit(work.build_refusing)
        else:
            built = ex.submit(refs.build, work, P["refs"]) if "refs" in P else ex.submit(work.build)
        stats = [f.result() for f in models]
        driver = built.result()
    histories = P["gen"](rng, tier)
    for extra in P.get("from_models", []):
        histories += extra(rng, tier, stats)
    histories = lasting(rng, histories)
    res = engine.conform(work, driver, histories, pid)
    for s in stats:
        s.pop("out")
    out_dir = os.path.join(VERIF, "out")
    os.makedirs(out_dir, exist_ok=True)
    known = known_findings(pid)
    bad = []
    for k, v in enumerate(res.violations):
        hit = next((d for sub, d in known if sub in v["why"]), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit))
            continue
        path = os.path.join(out_dir, "%s-%d.json" % (pid, k))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "why": v["why"], "script": v["history"],
                       "trace": [e.strip() for e in v["events"]]}, f, indent=1)
        bad.append(path)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        if len(bad) <= 3:
            print("  " + v["why"].replace("\n", "\n  ")[:500])
    sample = [h for h in histories[:2]]
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "states": sum(s["states"] for s in stats), "transitions": sum(s["transitions"] for s in stats),
            "traces_validated_against_impl": res.histories, "events_validated": res.events,
            "events_by_kind": res.kinds, "models": stats,
            "samples": [h if isinstance(h, dict) else [l[:300] for l in h[:6]] for h in sample],
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": ["rounding is excused up to the tolerances stated in spec/GalsNum.tla and spec/GalsTrace.tla",
                        "inputs are those the generators of lib/props.py produce from VERIF_SEED"],
        "violations": [{"replay": b} for b in bad],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s: %d histories, %d events, %d model states, %.1f s, %d violations" %
          (pid, tier, res.histories, res.events, evidence["coverage"]["states"], time.time() - t0, len(bad)))
    return 1 if bad else 0
