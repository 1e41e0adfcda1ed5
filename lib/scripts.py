"""Call scripts for harness/driver.cc: what is called, with which (explicit) values.

A history is a list of command lines that starts with "begin".  Values are generated from a seeded
random.Random; nothing here knows what the answers should be - that is the specification's business.
"""
import math


def hx(x):
    return float(x).hex()


def hv(v):
    return " ".join(hx(x) for x in v)


class Grid:
    """Parameters of a grid, enough to choose meaningful points and fields."""

    def __init__(self, dim, n, pad, lo, hi, exact):
        self.dim, self.n, self.pad, self.lo, self.hi, self.exact = dim, list(n), pad, list(lo), list(hi), exact
        self.dx = [(hi[a] - lo[a]) / n[a] for a in range(3)]

    def first(self, a):
        return -self.pad if a < self.dim else 0

    def last(self, a):
        return self.n[a] - 1 + (self.pad if a < self.dim else 0)

    def nodes(self):
        return [(i, j, k) for k in range(self.first(2), self.last(2) + 1)
                for j in range(self.first(1), self.last(1) + 1)
                for i in range(self.first(0), self.last(0) + 1)]

    def interior(self):
        return [(i, j, k) for k in range(self.n[2]) for j in range(self.n[1]) for i in range(self.n[0])]

    def size(self):
        return len(self.nodes())

    def at(self, a, c):
        """coordinate that is c cells from node 0 along axis a"""
        if a >= self.dim:
            return 0.0
        return self.lo[a] + (c + 0.5) * self.dx[a]

    def line(self, s, mode="new3", pad_given=True):
        box = [self.lo[0], self.hi[0], self.lo[1], self.hi[1], self.lo[2], self.hi[2]]
        return "grid %s %s %d %d %d %d %d %d %s" % (s, mode, self.dim, *self.n, self.pad if pad_given else -1,
                                                   1 if self.exact else 0, hv(box))


    def box(self):
        return hv([self.lo[0], self.hi[0], self.lo[1], self.hi[1], self.lo[2], self.hi[2]])

    def twin_line(self, s, other):
        return "twin %s %s %d %d %d %d %d %d %s" % (s, other, self.dim, *self.n, self.pad, 1 if self.exact else 0, self.box())

    def rebox_line(self, s):
        return "rebox %s %d %s" % (s, 1 if self.exact else 0, self.box())


NMIX = {1: 0, 2: 1, 3: 4}


def ncomp(dim, f):
    return {"phi": 1, "phiP": 1, "phiI": 1, "psi": 3, "psiP": 3, "psiI": 3, "vel": 3, "vgr": 9,
            "mix": NMIX[dim], "mixP": NMIX[dim]}[f]


LONG = {1: [33, 70, 140, 257, 300], 2: [13, 20, 33, 65, 130, 257], 3: [6, 7, 9, 17, 33, 65]}


def turn(rng, key, chance):
    """true for the given share of the calls with this key, evenly spread; how often it was true so far"""
    turns = rng.__dict__.setdefault("turns", {})
    acc, n = turns.setdefault(key, (rng.random(), rng.randrange(6)))
    acc += chance
    turns[key] = (acc - 1, n + 1) if acc >= 1 else (acc, n)
    return acc >= 1, n


def rand_grid(rng, dim, nmax=5, nmin=1, pad=None, exact=None, pads=(0, 1, 2, 3), big=0.0):
    n = [rng.randint(nmin, nmax) if a < dim else 1 for a in range(3)]
    now, nth = turn(rng, (dim, big), big)
    if now:                                           # now and then one or all axes are much longer, each axis in its turn
        if nth % (dim + 1) < dim:
            long = rng.choice(LONG[dim]) + rng.randint(0, 3)
            if long > 12 * (4 - dim):                  # the others short
                n = [rng.randint(nmin, max(nmin, 2)) if a < dim else 1 for a in range(3)]
                pad = rng.choice([p for p in pads if p < 3]) if pad is None else pad
            n[nth % (dim + 1)] = long
        else:
            top = {1: 140, 2: 20, 3: 7}[dim]
            n = [rng.randint(max(nmin, top // 2), top) if a < dim else 1 for a in range(3)]
    if pad is None:
        pad = rng.choice(pads)
        if pads[-1] >= 2 and rng.random() < 0.1:
            pad = rng.choice([3, 4, 5])
            if dim == 3:
                n = [min(x, 3) for x in n]
    if exact is None:
        exact = rng.random() < 0.5
    lo, hi = [], []
    far = rng.choice([-1, 1]) if rng.random() < 0.15 else 0       # very small or very large boxes
    for a in range(3):
        if exact:
            dx = 2.0 ** (rng.randint(-6, 3) + (rng.randint(-37, -30) if far < 0 else 20 if far > 0 else 0))
            l = dx * rng.choice([0, 0.5, -n[a] / 2.0, rng.randint(-40, 40), rng.randint(-160, 160) / 4.0])
            lo.append(l)
            hi.append(l + n[a] * dx)
        else:
            s = 10.0 ** (rng.uniform(-2, 2) if not far else rng.uniform(-11.5, -9) if far < 0 else rng.uniform(3, 7))
            l = s * rng.choice([0.0, -1.0, rng.uniform(-5, 5)])
            lo.append(l)
            hi.append(l + s * rng.uniform(0.2, 3) * n[a] / 3.0)
    return Grid(dim, n, pad, lo, hi, exact)


def vast_grid(rng, dim):
    """more nodes than a 16 bit number can count"""
    pad = rng.choice([0, 1, 2])
    n = {1: [70000, 1, 1], 2: rng.choice([[300, 240, 1], [35000, 2, 1], [2, 35000, 1]]),
         3: rng.choice([[42, 41, 43], [3, 150, 160], [160, 3, 150]])}[dim]
    n = [n[a] + rng.randint(0, 3) if a < dim else 1 for a in range(3)]
    lo = [rng.uniform(-2, 1) for _ in range(3)]
    return Grid(dim, n, pad, lo, [l + rng.uniform(0.5, 3) for l in lo], False)


def values(rng, count, style=None):
    """count numbers of one style"""
    style = style or rng.choice(["unit", "unit", "int", "big", "small", "mixed", "spike", "const", "sparse"])
    if style == "unit":
        return [rng.uniform(-1, 1) for _ in range(count)]
    if style == "int":
        return [float(rng.randint(-9, 9)) for _ in range(count)]
    if style == "big":
        return [rng.uniform(-1, 1) * 2.0 ** 40 for _ in range(count)]
    if style == "small":
        return [rng.uniform(-1, 1) * 2.0 ** -40 for _ in range(count)]
    if style == "const":
        c = rng.choice([1.0, -2.5, 0.0, rng.uniform(-9, 9)])
        return [c] * count
    if style == "sparse":
        return [rng.uniform(-1, 1) if rng.random() < 0.2 else 0.0 for _ in range(count)]
    if style == "spike":
        v = [0.0] * count
        if count:
            v[rng.randrange(count)] = rng.choice([1.0, -3.0, 0.1])
        return v
    return [rng.uniform(-1, 1) * 2.0 ** rng.randint(-12, 12) for _ in range(count)]


PATHS = ["ijk", "vec", "lin"]


def other_box(rng, g):
    """another box for the same nodes"""
    h = rand_grid(rng, g.dim, nmax=4)
    if rng.random() < 0.4:                           # exactly representable again
        dx = [2.0 ** rng.randint(-5, 2) for _ in range(3)]
        lo = [dx[a] * rng.randint(-40, 40) for a in range(3)]
        return Grid(g.dim, g.n, g.pad, lo, [lo[a] + g.n[a] * dx[a] for a in range(3)], True)
    return Grid(g.dim, g.n, g.pad, h.lo, h.hi, False)


def sibling(rng, g):
    """a grid of the same shape: another box, nearly the same box, one bound changed, or the same box"""
    c = rng.random()
    if c < 0.45:
        return other_box(rng, g)
    if c < 0.55:
        return g
    lo, hi = list(g.lo), list(g.hi)
    a = rng.randrange(3)
    if c < 0.8:                                       # one bound
        hi[a] += g.dx[a] * g.n[a] * rng.choice([1.0, 0.25, 3.0])
    else:                                            # by very little
        hi[a] += g.dx[a] * g.n[a] * rng.choice([2.0 ** -24, 2.0 ** -30, 1e-6])
    return Grid(g.dim, g.n, g.pad, lo, hi, False)


def tiny(rng, g):
    """a grid of the same shape whose cells are smaller than any absolute tolerance of the code"""
    if g.exact:
        dx = [2.0 ** rng.randint(-40, -34) for _ in range(3)]
        lo = [dx[a] * rng.choice([0, rng.randint(-40, 40)]) for a in range(3)]
    else:
        dx = [10.0 ** rng.uniform(-12, -10.3) for _ in range(3)]
        lo = [dx[a] * rng.choice([0.0, rng.uniform(-20, 20)]) for a in range(3)]
    return Grid(g.dim, g.n, g.pad, lo, [lo[a] + g.n[a] * dx[a] for a in range(3)], g.exact)


def nudged(rng, lines, frm, to, amount=None):
    """the same calls on another system, the numbers stored changed by very little (or, amount = 0, not at all)"""
    amount = rng.choice([0.0, 3e-11, 9e-11, 9e-11, 1e-8]) if amount is None else amount
    out = []
    for l in lines:
        w = l.split(" ")
        assert w[1] == frm
        w[1] = to
        if w[0] == "load":
            v = [float.fromhex(x) for x in w[4:]]     # (velocities only by so much that the roots stay in the grid)
            w[4:] = [hx(x + rng.uniform(0.5, 1) * rng.choice([-1, 1]) * (min(amount, 1e-8 * abs(x)) if w[2] == "vel" else amount))
                     if x else hx(x) for x in v]
        out.append(" ".join(w))
    return out


def load(rng, s, g, f, style=None, vals=None):
    nc = ncomp(g.dim, f)
    v = vals if vals is not None else values(rng, g.size() * nc, style)
    return "load %s %s %s %s" % (s, f, rng.choice(PATHS), hv(v))


def load_psi(rng, s, g, f, style=None):
    """gradient fields: the inactive components are zero"""
    out = []
    v = values(rng, g.size() * 3, style)
    for o in range(g.size()):
        out += [v[3 * o + a] if a < g.dim else 0.0 for a in range(3)]
    return load(rng, s, g, f, vals=out)


def cell_coord(rng, g, a, margin=0.02, lo=None, hi=None):
    """a position along axis a in cells from node 0, inside the ghost range"""
    l = g.first(a) if lo is None else lo
    h = g.last(a) if hi is None else hi
    c = rng.random()
    if c < 0.25 and h - l >= 1:                       # on a node
        k = rng.randint(l, h - 1)
        if g.exact or k > l:
            return float(k)
    if c < 0.4 and h - l >= 1:                       # simple fractions
        return rng.randint(l, h - 1) + rng.choice([0.5, 0.25, 0.75])
    if c < 0.55 and h - l >= 1:                       # very near a node, on either side of it
        k = rng.randint(l, h - 1)
        if k > l and rng.random() < 0.4:
            return k - 2.0 ** -rng.choice([8, 12, 20, 26])
        return k + 2.0 ** -rng.choice([8, 12, 20, 26])
    return rng.uniform(l + margin, h - margin)


def point(rng, g, near_nodes=True):
    x = []
    for a in range(3):
        if a >= g.dim:
            x.append(rng.choice([0.0, 0.0, 0.3, -7.5]))
        else:
            if near_nodes:
                c = cell_coord(rng, g, a)
            else:
                k = rng.randint(g.first(a), g.last(a) - 1)
                c = k + rng.choice([0.5, 0.25, 0.75, rng.uniform(0.03, 0.97)])
            x.append(g.at(a, c))
    return x


def velocity(rng, g, dt, reach=None, mode=None):
    """velocities whose roots stay inside the ghost range; one triple per node"""
    vel = []
    mode = mode or rng.choice(["any", "any", "zero", "cells", "uniform", "axis", "focus", "near"])
    cell = [rng.randint(g.first(a), g.last(a) - 1) if g.last(a) > g.first(a) else 0 for a in range(3)]
    uni = [rng.uniform(-0.9, 0.9) for _ in range(3)]
    cells = [float(rng.randint(-g.pad, g.pad)) for _ in range(3)]
    ax = rng.randrange(g.dim)
    for nd in g.nodes():
        u = []
        for a in range(3):
            if a >= g.dim or mode == "zero" or (mode == "axis" and a != ax):
                u.append(0.0)
                continue
            l, h = g.first(a) + 0.05, g.last(a) - 0.05
            if mode == "focus" and h > l:              # all roots in one cell
                c = nd[a] - max(l, min(h, cell[a] + rng.choice([0.5, rng.uniform(0.06, 0.94)])))
            elif mode == "near" and g.first(a) < nd[a] < g.last(a):      # roots very close to their nodes
                c = rng.choice([-1, 1, 0]) * 2.0 ** -rng.choice([10, 20, 26])
            elif mode == "uniform" and l <= nd[a] - uni[a] <= h:
                c = uni[a]
            elif mode == "cells" and g.first(a) < nd[a] - cells[a] < g.last(a):
                c = cells[a]
            elif rng.random() < 0.15 and g.first(a) < nd[a] < g.last(a):
                c = 0.0
            else:
                c = nd[a] - rng.uniform(l, h)
            u.append(c * g.dx[a] / dt)
        vel += u
    return vel


def vgr(rng, g, style=None):
    v = values(rng, g.size() * 9, style or "unit")
    for o in range(g.size()):
        for c in range(9):
            if c // 3 >= g.dim or c % 3 >= g.dim:
                v[9 * o + c] = 0.0
    return v
