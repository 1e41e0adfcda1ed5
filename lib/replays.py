"""Histories that TLC printed while it checked the models (REPLAY lines), as call scripts for the implementation."""
import json

from scripts import *


def begin(prop, k):
    return "begin %s-%d" % (prop, k)


KINDS = {"d": 1, "v": 3, "m": 9, "2": 2}


def kind_nc(dim, kind):
    return NMIX[dim] if kind == "n" else KINDS[kind]


def rand_kind(rng, dim):
    return rng.choice(["d", "v", "m", "2"] + (["n"] if dim > 1 else []))


# ------------------------------------------------------------------------------- histories that TLC printed while checking
def replays(stats, model):
    """the cases a model printed, in an order that does not depend on TLC's workers"""
    out = []
    for st in stats:
        if st["model"].split(".")[0].split("_deep")[0] == model:
            for l in st["out"].splitlines():
                if l.startswith('"REPLAY '):
                    out.append(json.loads(l)[7:])
    return [json.loads(x) for x in sorted(out, key=lambda x: (len(x), x))]


def bundled(hists, size):
    """several histories in one process (each starts with its own begin)"""
    return [sum(hists[i:i + size], []) for i in range(0, len(hists), size)]


def replay_files(rng, tier, stats):
    hs = []
    for k, calls in enumerate(replays(stats, "MC_Files")):
        d = "@S/m%d" % k
        dim = 1 + k % 2
        g = Grid(dim, [2, 2 if dim == 2 else 1, 1], 1, [0.0] * 3, [1.0] * 3, True)
        big = Grid(dim, [24, 1, 1] if dim == 1 else [8, 5, 1], 1, [0.0] * 3, [1.0] * 3, False)
        h = [begin("C18m", k), g.line("A"), "alloc A", big.line("B"), "alloc B", "fs mkdir " + d]
        last = max([i for i, c in enumerate(calls) if c["op"] == "write"], default=-1)
        for i, c in enumerate(calls):
            p = d + "/" + "/".join(c["path"])
            if c["op"] == "write":                     # the last one is shorter than those before
                s, gs, f = ("A", g, "phi") if i == last else ("B", big, "vel")
                h += [load(rng, s, gs, f, "int"), "fs write %s %s %s" % (p, s, f)]
            else:
                h.append("fs %s %s%s" % (c["op"], p, rng.choice(["", "/"]) if c["op"] == "mkdir" else ""))
        h += ["fs exists %s/%s" % (d, p) for p in ("a", "b", "a/x", "a/x/y", "b/z")]
        hs.append(h)
    return bundled(hs, 8)


def replay_arrays(rng, tier, stats):
    hs = []
    for k, calls in enumerate(replays(stats, "MC_Array")):
        dim = 1 + k % 3
        pad = rng.choice([0, 1, 1, 2])
        n = [rng.randint(1, 2) if a < dim else 1 for a in range(3)]
        if pad == 0:
            n[rng.randrange(dim)] = 2
        g = Grid(dim, n, pad, [0.0] * 3, [1.0] * 3, False)
        nodes = rng.sample(g.nodes(), 2)
        kind = rand_kind(rng, dim)
        c = rng.randint(1, kind_nc(dim, kind))
        val = [0.0, rng.choice([1.0, 1.0, -3.5, 5e-11, 1e300]), rng.choice([2.0, -1.0])]
        h = [begin("C04m", k), g.line("A")]
        names = set()
        for o in calls:
            if o["op"] == "new":
                h.append("arr A %s %s" % (o["a"], kind))
            elif o["op"] == "cpy":
                h.append("acpy %s %s" % (o["a"], o["b"]))
            elif o["op"] == "wr":
                h.append("awr %s %s %d %d %d %d %s" % (o["a"], rng.choice(PATHS), *nodes[o["i"] - 1], c, hx(val[o["v"]])))
            elif o["op"] == "asg":
                h.append("aasg %s %s" % (o["a"], o["b"]))
            else:
                h.append("adel %s" % o["a"])
            (names.discard if o["op"] == "del" else names.add)(o["a"])
        h += ["ard %s" % a for a in sorted(names)]
        hs.append(h)
    return bundled(hs, 20)




def chunks(l, size):
    return [l[i:i + size] for i in range(0, len(l), size)]


def mono(x, e, d=(0, 0, 0)):
    """derivative of order d of the monomial with exponents e"""
    r = 1.0
    for a in range(3):
        r *= x[a] ** e[a] if d[a] == 0 else (e[a] * x[a] ** (e[a] - 1) if e[a] else 0.0)
    return r


def place(g, nd):
    return [g.at(a, nd[a]) for a in range(3)]


UNITS = ((1, 0, 0), (0, 1, 0), (0, 0, 1))
MIXED = {1: [], 2: [(1, 1, 0)], 3: [(1, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 1)]}


def replay_gradient(pid, most):
    def make(rng, tier, stats):
        groups = {}
        for q in replays(stats, "MC_Gradient_" + pid):
            groups.setdefault((q["dim"], q["scheme"], q["vec"], q["c"]), []).append(q)
        n3 = 2 if tier == "quick" else 3
        hs = []
        for (dim, scheme, vec, c), cases in sorted(groups.items()):
            n = {1: [3, 1, 1], 2: [3, 2, 1], 3: [n3] * 3}[dim]
            lo, dx = [-1.0, 0.0, 0.5], [0.5, 1.0, 0.25]
            g = Grid(dim, n, 1 if scheme == "central" else 2, lo, [lo[a] + n[a] * dx[a] for a in range(3)], True)
            src, dst = ("vel", "vgr") if vec else ("phi", "psi")
            if tier == "quick" and len(cases) > most:
                cases = rng.sample(cases, most)
            for part in chunks(cases, 20):
                h = [begin(pid + "m", len(hs)), g.line("A"), "alloc A", load(rng, "A", g, dst, "unit")]
                for q in part:
                    v = []
                    for nd in g.nodes():
                        x = float(list(nd) == q["e"]) if q["what"] == "spike" else mono(place(g, nd), q["e"])
                        v += [x if i == c else 0.0 for i in (1, 2, 3)] if vec else [x]
                    h += [load(rng, "A", g, src, vals=v), "grad A %s %s %s %s" % (scheme, src, dst, rng.choice(["static", "obj", "comp", "kept"]))]
                hs.append(h)
        return hs
    return make


def hermite_fields(rng, s, g, value):
    out = [load(rng, s, g, "phiP", vals=[value(nd, (0, 0, 0)) for nd in g.nodes()]),
           load(rng, s, g, "psiP", vals=[value(nd, UNITS[a]) if a < g.dim else 0.0 for nd in g.nodes() for a in range(3)])]
    if g.dim > 1:
        out.append(load(rng, s, g, "mixP", vals=[value(nd, d) for nd in g.nodes() for d in MIXED[g.dim]]))
    return out


def replay_hermite(rng, tier, stats):
    hs, cases = [], {}
    for q in replays(stats, "MC_Hermite"):
        cases.setdefault(q["dim"], []).append(q)
    for dim, qs in sorted(cases.items()):
        g = Grid(dim, [1, 1, 1], 1, [-1.0, 0.5, 2.0], [1.0, 1.0, 3.0], True)
        if tier == "quick" and dim == 3:
            qs = rng.sample(qs, min(len(qs), 120))
        for part in chunks(qs, 12):
            h = [begin("C08m", len(hs)), g.line("A"), "alloc A"]
            for q in part:
                if q["what"] == "mono":
                    value = lambda nd, d: mono(place(g, nd), q["e"], d)
                else:
                    value = lambda nd, d: float(list(nd) == q["e"] and list(d) == q["d"])
                h += hermite_fields(rng, "A", g, value)
                pts = [[rng.choice([-1, 0]) + rng.choice([0, 1, 2, 4, 6, 7]) / 8 if a < dim else 0.0 for a in range(3)] for _ in range({1: 6, 2: 4, 3: 2}[dim])]
                h += ["point A 0 " + hv([g.at(a, p[a]) for a in range(3)]) for p in pts]
            hs.append(h)
    return hs


def replay_limiter(rng, tier, stats):
    """a line of cells along which every pair of nodal data follows each other (an Eulerian tour)"""
    quads = replays(stats, "MC_Limiter")
    after = {}
    for f0, g0, f1, g1 in quads:
        after.setdefault((f0, g0), []).append((f1, g1))
    for k in sorted(after):
        rng.shuffle(after[k])
    start = min(after)
    stack, tour = [start], []
    while stack:
        if after[stack[-1]]:
            stack.append(after[stack[-1]].pop())
        else:
            tour.append(stack.pop())
    tour.reverse()
    assert len(tour) == len(quads) + 1
    hs = []
    for k, i in enumerate(range(0, len(tour) - 1, 39)):
        part = tour[i:i + 40]
        n = len(part) - 2
        if n < 1:
            part, n = tour[-3:], 1
        h = 2.0 ** rng.randint(-3, 2)
        g = Grid(1, [n, 1, 1], 1, [-2 * h, 0.0, 0.0], [(n - 2) * h, 1.0, 1.0], True)
        l = [begin("C09m", k), g.line("A"), "alloc A", load(rng, "A", g, "phiP", vals=[float(f) for f, _ in part]),
             load(rng, "A", g, "psiP", vals=[x for _, s in part for x in (3.0 * s / h, 0.0, 0.0)])]
        for c in range(-1, n):
            l.append("point A 1 " + hv([g.at(0, c + rng.choice([0.25, 0.5, 0.625, 0.125])), 0.0, 0.0]))
        hs.append(l)
    return hs


def replay_linear(rng, tier, stats):
    hs, cases = [], replays(stats, "MC_Linear")
    pad = -min(q["e"] for q in cases)
    N = max(q["e"] for q in cases) - pad + 1
    for q in cases:
        g = Grid(1, [N, 1, 1], pad, [-3.0, 0.0, 0.0], [N - 3.0, 1.0, 1.0], True)
        src = [float(nd[0] == q["e"]) if q["what"] == "spike" else 2.0 + q["e"] * g.at(0, nd[0]) for nd in g.nodes()]
        pts = [g.at(0, -pad + p / 8) for p in range(8 * (len(g.nodes()) - 1))]
        h = [begin("C10m", len(hs)), g.line("A")]
        for part in chunks(pts, N):
            h.append("lin A %s %s %s %d %s" % (rng.choice(["static", "obj", "one"]), hv(src), hv(values(rng, g.size(), "int")), len(part),
                                               " ".join(hv([x, 0.0, 0.0]) for x in part)))
        hs.append(h)
    return bundled(hs, 4)


def replay_step(kind, pid):
    def make(rng, tier, stats):
        hs, cases = [], {}
        for q in replays(stats, "MC_Step"):
            cases.setdefault(q["dim"], []).append(q)
        dt = 0.5
        for dim, qs in sorted(cases.items()):
            g = Grid(dim, [2 if a < dim else 1 for a in range(3)], 2, [-1.0, 0.5, 2.0], [1.0, 1.5, 2.5], True)
            cap = scale3(tier, dim, 400, 1200)
            if len(qs) > cap:
                qs = rng.sample(qs, cap)
            for part in chunks(qs, 12):
                h = [begin(pid + "m", len(hs)), g.line("A"), "alloc A"]
                for q in part:
                    h += hermite_fields(rng, "A", g, lambda nd, d: mono(place(g, nd), q["e"], d))
                    u = [q["u"][a] / 4 * g.dx[a] / dt if a < dim else 0.0 for a in range(3)]
                    m = [0.0 if r > dim or c > dim else {"none": 0.0, "swell": float(r == c), "mix": 3.0 * r - 5.0 * c}[q["m"]]
                         for r in (1, 2, 3) for c in (1, 2, 3)]
                    h += [load(rng, "A", g, "vel", vals=u * g.size())]
                    if kind == "sl":
                        h.append(load(rng, "A", g, "vgr", vals=m * g.size()))
                    h.append("%s A %s %s" % (kind, rng.choice(["static", "obj", "kept"]), hx(dt)))
                hs.append(h)
        return hs
    return make


def scale3(tier, dim, quick, thorough):
    return {1: 1000, 2: quick // 4, 3: 0}[dim] if tier == "quick" else {1: 1000, 2: thorough, 3: thorough // 3}[dim]


def replay_sim(pid, most):
    """every sequence of calls on one or two simulations"""
    def make(rng, tier, stats):
        hs = []
        cases = replays(stats, "MC_Sim_" + pid)
        if tier == "quick" and len(cases) > most:
            cases = rng.sample(cases, most)
        for calls in cases:
            h = [begin(pid + "m", len(hs))]
            dt = 0.5
            for s in sorted({c["s"] for c in calls}):
                lo, hi = (0.0, 3.0) if s == "A" else (-1.0, 5.0)
                g = Grid(1, [3, 1, 1], 2, [lo, 0.0, 0.0], [hi, 1.0, 1.0], True)
                h += [g.line(s), "alloc " + s]
                val = lambda o, i: float(((3 * o + 5 * i + (1 if s == "A" else 2)) * (o + 2)) % 7)
                for f in ("phi", "phiP"):
                    h.append(load(rng, s, g, f, vals=[val(o, 1) for o in range(1, 8)]))
                for f in ("psi", "psiP"):
                    h.append(load(rng, s, g, f, vals=[x for o in range(1, 8) for x in (val(o, 1), 0.0, 0.0)]))
                h.append(load(rng, s, g, "vel", vals=[x for o in range(1, 8) for x in (g.dx[0] * (1 if o % 2 == 0 else -1), 0.0, 0.0)]))
                h.append(load(rng, s, g, "vgr", vals=[x for o in range(1, 8) for x in [float(o % 3)] + [0.0] * 8]))
            for c in calls:
                s, how = c["s"], rng.choice(["static", "kept", "obj"])
                h += {"grad": ["grad %s third phi psi %s" % (s, how)], "vgrad": ["grad %s central vel vgr %s" % (s, how)],
                      "snap": ["copy %s phiP phi" % s, "copy %s psiP psi" % s],
                      "sl": ["sl %s %s %s" % (s, how, hx(dt))], "euler": ["euler %s %s %s" % (s, how, hx(dt))]}[c["op"]]
            hs.append(h)
        return bundled(hs, 10)
    return make


# --------------------------------------------------------------------------------------------------------- analytical fields
def replay_fields(what):
    def make(rng, tier, stats):
        groups = {}
        for q in replays(stats, "MC_Fields"):
            groups.setdefault((q["dim"], q["r"]), []).append(q["e"])
        hs = []
        for (dim, r), es in sorted(groups.items()):
            if what == "avel" and dim == 1:
                continue
            es = sorted(map(tuple, es))
            rng.shuffle(es)
            n = {1: [32, 1, 1], 2: [8, 8, 1], 3: [5, 5, 5]}[dim]
            g = Grid(dim, n, 1, [0.0] * 3, [float(x) for x in n], True)
            inside = set(g.interior())
            h = [begin("C1%dm" % (4 if what == "alev" else 5), len(hs)), g.line("A"), "alloc A",
                 load(rng, "A", g, "vgr", "unit"), load(rng, "A", g, "phi", "unit")]
            if tier == "quick" and len(es) > 160:
                es = es[:160]
            for part in chunks(es, len(inside)):
                c = [float(rng.randint(-9, 9)), rng.randint(-9, 9) / 4.0, float(rng.randint(-9, 9))]
                k, pos = 0, []
                for nd in g.nodes():
                    e = part[k % len(part)] if nd in inside else (rng.randint(-9, 9),) * 3
                    k += nd in inside
                    pos += [c[a] + e[a] for a in range(3)]
                if what == "alev":
                    h.append("alev A CIRCLE %s %s list %s" % (hv(c), hx(r), hv(pos)))
                else:
                    h.append("avel A CIRCULAR %s %s %s list %s" % (hv(c), "ANALYTICAL", hx(r), hv(pos)))
            hs.append(h)
        return hs
    return make


# ---------------------------------------------------------------------------------------------------------------------- inputs
def num_text(rng):
    """a number as one may write it in an input file, and the double it denotes"""
    c = rng.random()
    if c < 0.25:
        t = str(rng.randint(-20, 20))
    elif c < 0.6:
        t = repr(round(rng.uniform(-10, 10), rng.randint(1, 12)))
    elif c < 0.8:
        t = "%.*e" % (rng.randint(0, 6), rng.uniform(-1, 1) * 10 ** rng.randint(-8, 8))
    else:
        t = rng.choice(["1.", "-0.5", ".25", "1e-4", "0", "1e3", "3.14159265358979", "1e300", "-2.5E-300", "123456789.123456789", "-7e+09",
                        "16777217", "4294967297", "0.1", "1e-17"])
    return t, float(t).hex()


def input_section(rng, sec):
    """(yaml lines, values)"""
    def num():
        return num_text(rng)
    def vec(sizes=(3,)):
        v = [num() for _ in range(rng.choice(sizes))]
        if v and rng.random() < 0.15:
            return "\n" + "\n".join("      - " + t for t, _ in v), [x for _, x in v]
        return "[" + ", ".join(t for t, _ in v) + "]", [x for _, x in v]
    w = lambda: rng.choice(["CIRCULAR", "CIRCLE", "name_1", "X", "Central", "a-b", "two words", "NO", "a" * 40, "12"])
    q = lambda t: rng.choice([t, '"%s"' % t, "'%s'" % t])
    if sec == "general":
        t = rng.choice(["out", "project-1/case-1", "/tmp/x/y", "a_b", "../up", "out/", "/", "my case", "d" * 70, "./x.y/z"])
        return ["   output_directory: %s" % q(t)], {"output_directory": t}
    if sec == "grid":
        v = {k: num() for k in ("x_min", "x_max", "y_min", "y_max", "z_min", "z_max")}
        keys = list(v)
        rng.shuffle(keys)
        n = [rng.choice([rng.randint(1, 999), rng.randint(1, 999), rng.randint(1, 2 ** 31 - 1)]) for _ in range(3)]
        box = ["   box:"] + ["      %s: %s" % (k, v[k][0]) for k in keys]
        cells = ["   cells: [%d, %d, %d]   # n" % tuple(n)]
        d = {k: v[k][1] for k in v}
        d.update(nx=n[0], ny=n[1], nz=n[2])
        return (box + cells if rng.random() < 0.7 else cells + box), d
    if sec == "time":
        a, b, c = num(), num(), num()
        k = rng.choice(["NO", "YES", "MAYBE"])
        l = ["   start: " + a[0], "   end: " + b[0], "   dt: " + c[0], "   constant_dt: " + q(k)]
        rng.shuffle(l)
        return l, {"start": a[1], "end": b[1], "dt": c[1], "constant_dt": k}
    nm, gr = w(), w()
    c = vec()
    if sec == "velocity":
        v, c = vec((3, 3, 3, 2, 1, 0, 4, 7)), vec((3, 3, 3, 2, 1, 0, 4, 7))
        l = ["   name: " + q(nm), "   vector: " + v[0], "   center: " + c[0], "   gradient:\n      scheme: " + gr]
        rng.shuffle(l)
        return l, {"name": nm, "vector": v[1], "center": c[1], "gradient_scheme": gr}
    r = num()
    l = ["   name: " + q(nm), "   center: " + c[0], "   radius: " + r[0], "   gradient:\n      scheme: " + gr]
    rng.shuffle(l)
    return l, {"name": nm, "center": c[1], "radius": r[1], "gradient_scheme": gr}


SECTIONS = ["general", "grid", "time", "velocity", "levelset"]


def inp0_line(rng, s):
    nums = lambda n: hv([rng.uniform(-9, 9) for _ in range(n)])
    ints = " ".join(str(rng.randint(1, 99)) for _ in range(3))
    return "inp0 %s before_dir %s %s %s KEEP oldv %s %s olds oldl %s %s oldg" % (s, nums(6), ints, nums(3), nums(3), nums(3), nums(3), nums(1))


def input_file(rng, secs):
    """a file with these sections, in any order: its text, and what it gives"""
    secs = list(secs)
    rng.shuffle(secs)
    text, given = [], {}
    for s in secs:
        l, d = input_section(rng, s)
        text += [s + ":"] + l + rng.choice([[], [""], ["# comment"]])
        given[s] = d
    return text, given


def replay_inputs(rng, tier, stats):
    hs = []
    cases = replays(stats, "MC_Inputs")
    most = 400 if tier == "quick" else 4000
    if len(cases) > most:
        cases = rng.sample(cases, most)
    for k, files in enumerate(cases):
        h = [begin("C16m", k)] + [inp0_line(rng, s) for s in ("I", "J")]
        for i, f in enumerate(files):
            text, given = input_file(rng, sorted(f["secs"]))
            if not text:
                text = ["other:", "   thing: 1"]
            name = "@S/m%d_%d" % (k, i)
            h += [("file", name, "\n".join(text) + "\n"), "inputs %s %s %s" % (f["s"], name, json.dumps(given))]
        hs.append(h)
    return bundled(hs, 10)


# --------------------------------------------------------------------------------------------------------------------- algebra
def alg(op, ty, kind, n, i, j, a, b):
    return "alg %s %s %s %d %d %d %d %s %d %s" % (op, ty, kind, n, i, j, len(a), hv(a), len(b), hv(b))


def replay_algebra(rng, tier, stats):
    hs = []
    cases = replays(stats, "MC_Algebra")
    most = 4000 if tier == "quick" else 50000
    if len(cases) > most:
        cases = rng.sample(cases, most)
    for k, part in enumerate(chunks(cases, 200)):
        h = [begin("C17m", k)]
        for q in part:
            for ty in "di":
                op = "divi" if q["op"] == "divv" and ty == "i" else q["op"]
                f = 1.0 if ty == "i" or op in ("set", "setrc", "at", "make", "assign") else rng.choice([1.0, 0.5, 3.0])
                h.append(alg(op, ty, q["kind"], len(q["x"]), q["i"], q["j"], [f * x for x in q["x"]], [f * y for y in q["y"]]))
        hs.append(h)
    return hs


# ----------------------------------------------------------------------------------------------------------------- application
def app_history(name, n, lo, hi, start, end, dt, constant, vc, grad, lc, radius, o, steps, shown, vector, vname="CIRCULAR", lname="CIRCLE",
                lgrad="CENTRAL"):
    q = lambda x: repr(float(x))
    text = "\n".join([
        "general:", '   output_directory: "@OUT"',
        "grid:", "   box:"] + ["      %s_%s: %s" % ("xyz"[a], m, q(v[a])) for a in range(3) for m, v in (("min", lo), ("max", hi))] +
        ["   cells: [%d, %d, %d]" % tuple(n),
         "time:", "   start: " + q(start), "   end: " + q(end), "   dt: " + q(shown),
         "   constant_dt: " + constant,
         "velocity:", "   name: " + vname, "   vector: [%s, 0, 0]" % q(vector), "   center: [%s]" % ", ".join(map(q, vc)),
         "   gradient:", "      scheme: " + grad,
         "levelset:", "   name: " + lname, "   center: [%s]" % ", ".join(map(q, lc)), "   radius: " + q(radius),
         "   gradient:", "      scheme: " + lgrad]) + "\n"
    asked = {"n": n, "lo": [hx(x) for x in lo], "hi": [hx(x) for x in hi], "start": hx(start), "end": hx(end), "dt": hx(shown),
             "constant": constant, "vname": vname, "vcenter": [hx(x) for x in vc], "vgradient": grad, "lname": lname,
             "lcenter": [hx(x) for x in lc], "radius": hx(radius)}
    return {"id": name, "text": text, "asked": asked, "out": o, "most": 40, "build": "app", "weight": 500 + 100 * steps * n[0] * n[1]}


def replay_time(rng, tier, stats):
    """every start, end and step of the model, as runs on a small grid (its automatic step is two eighths)"""
    hs = []
    for k, c in enumerate(replays(stats, "MC_Time")):
        lo, hi = rng.choice([([0.0, 0.0, 0.0], [1.0, 2.0, 1.0]), ([-1.0, 3.0, -1.0], [1.0, 4.0, 1.0])])
        hs.append(app_history("C19m-%d" % k, [2, 2, 1], lo, hi, c["start"] / 8, c["end"] / 8, c["dt"] / 8, c["constant"],
                              [(lo[a] + hi[a]) / 2 for a in range(3)], rng.choice(["ANALYTICAL", "CENTRAL"]), [0.5, 0.25, 0.0],
                              0.5, "out", 8, shown=c["dt"] / 8, vector=1.0))
    return hs


# -------------------------------------------------------------------------------------------------------------------- requests
NUMBER_KEYS = {"grid": ["x_min", "x_max", "y_min", "y_max", "z_min", "z_max"], "time": ["start", "end", "dt"], "levelset": ["radius"]}


def good_values(rng, runnable):
    """section -> key -> (text, value): a complete file (runnable: one the application can be run on, in a few steps)"""
    num = lambda x: (repr(float(x)), float(x).hex())
    some = (lambda x: num(x)) if runnable else (lambda x: num_text(rng))
    vec = lambda v: (lambda l: ("[" + ", ".join(t for t, _ in l) + "]", [x for _, x in l]))([some(x) for x in v])
    n = [rng.randint(2, 5), rng.randint(2, 5), 1]
    word = lambda *w: (lambda t: (rng.choice([t, '"%s"' % t]), t))(rng.choice(w))
    return {
        "general": {"output_directory": word("out", "deep/er/out", "a_b")},
        "grid": dict([(k, some(x)) for k, x in zip(NUMBER_KEYS["grid"], [-1, 1, -1, 1, -1, 1])], cells=("[%d, %d, %d]" % tuple(n), n)),
        "time": {"start": some(0), "end": some(0.1), "dt": some(0.05), "constant_dt": word("YES") if runnable else word("YES", "NO", "MAYBE")},
        "velocity": {"name": word("CIRCULAR"), "vector": vec([1, 0, 0]), "center": vec([0.25, 0.5, 0]), "gradient_scheme": word("ANALYTICAL", "CENTRAL")},
        "levelset": {"name": word("CIRCLE"), "center": vec([0.25, 0.5, 0]), "radius": some(0.5), "gradient_scheme": word("CENTRAL", "THIRD")}}


def of_form(rng, form, good):
    """a value of this form: its text (None: the key is not there), and what it denotes"""
    ints = lambda n: (lambda v: ("[" + ", ".join(map(str, v)) + "]", v))([rng.randint(1, 4) for _ in range(n)])
    if form.startswith("list"):
        t, v = ints(int(form[4:]))
        return t, v
    if form == "reals3":
        v = [rng.randint(0, 3) + rng.choice([0.5, 0.25, 0.75]) for _ in range(3)]
        return "[%s]" % ", ".join(map(repr, v)), v
    if form == "words3":
        v = ["1", "2", "3"]
        v[rng.randrange(3)] = rng.choice(["x", "one", "1O", "true"])
        return "[%s]" % ", ".join(v), None
    if form == "number":
        if isinstance(good[1], str) and good[0] == repr(float.fromhex(good[1])) if good[0][:1] in "-0123456789" else False:
            return good                                # (a number in order stays)
        t = str(rng.randint(1, 9))
        return t, t
    t = {"absent": None, "map": "{a: 1, b: 2}", "word": rng.choice(["some", "wide", "x1"]), "untidy": rng.choice(["1.5abc", "1,5", "0.1.2", "2 3", "--1", "1e", "1_0"])}[form]
    return t, t


def flawed_file(rng, flaws, runnable):
    """(text of the file, what it gives for sure, text of the same file in order)"""
    V = good_values(rng, runnable)
    def render(V, flaws):
        out = []
        order = list(SECTIONS)
        rng.shuffle(order)
        for sec in order:
            whole = next((f["form"] for f in flaws if f["sec"] == sec and f["form"] in ("empty section", "scalar section")), None)
            if whole:
                out.append(sec + ":" + ("" if whole == "empty section" else " 5"))
                continue
            out.append(sec + ":")
            keys = [k for k in V[sec] if V[sec][k][0] is not None]
            box = [k for k in keys if k in NUMBER_KEYS["grid"]]
            rng.shuffle(keys)
            if box:
                out += ["   box:"] + ["      %s: %s" % (k, V[sec][k][0]) for k in keys if k in box]
            for k in keys:
                if k == "gradient_scheme":
                    out += ["   gradient:", "      scheme: " + V[sec][k][0]]
                elif k not in box:
                    out.append("   %s: %s" % (k, V[sec][k][0]))
            if "gradient_scheme" in V[sec] and "gradient_scheme" not in keys:
                out += rng.choice([[], ["   gradient:", "      other: 1"], ["   gradient: CENTRAL"]])
        if any(f["form"] == "no yaml" for f in flaws):
            out.insert(rng.randint(0, len(out)), rng.choice(["]] {", "a: [1, 2", "\t- x: : y", "{ ? : ]"]))
            if rng.random() < 0.5:
                out.append("b: }")
            else:
                out.append("c: [")
        return "\n".join(out) + "\n"
    good = render(V, [])
    for f in flaws:
        if f["key"]:
            V[f["sec"]][f["key"]] = of_form(rng, f["form"], V[f["sec"]][f["key"]])
    given = {}
    for sec in V:
        given[sec] = {}
        for k, (t, v) in V[sec].items():
            if k == "cells":
                if isinstance(v, list):
                    given[sec].update({n: v[i] for i, n in enumerate(("nx", "ny", "nz")) if i < len(v) and isinstance(v[i], int)})
            elif isinstance(v, list):
                given[sec][k] = [x if isinstance(x, str) else float(x).hex() for x in v]
            elif k in NUMBER_KEYS.get(sec, []):
                try:
                    given[sec][k] = v if v.startswith(("0x", "-0x")) else float(v).hex()
                except (ValueError, AttributeError):
                    pass
            elif v is not None:
                given[sec][k] = v
    return render(V, flaws), given, good


def request_history(rng, k, reqs):
    """one process makes these requests, each by a copy of itself"""
    import json as js
    show = lambda r: js.dumps(r, separators=(",", ":")).replace(" ", "\\u0020")
    h = [begin("C28", k), inp0_line(rng, "I"), inp0_line(rng, "J")]
    for i, r in enumerate(reqs):
        if r["kind"] == "vec3":
            ty = rng.choice("di")
            h.append("try %s %s" % (show(r), alg("makev", ty, "v", 3, 0, 0, [float(rng.randint(-5, 5)) for _ in range(r["n"])], [])))
        elif r["kind"] == "file":
            text, given, _ = flawed_file(rng, r["flaws"], False)
            name = "@S/f%d_%d" % (k, i)
            s = rng.choice("IJ")
            h += [("file", name, text), "try %s inputs %s %s %s" % (show(dict(r, s=s, given=given)), s, name, js.dumps(given))]
        elif r["kind"] in ("turn", "hole"):
            g = Grid(r["dim"], [3] * r["dim"] + [1] * (3 - r["dim"]), 2, [0.0] * 3, [1.0] * 3, False)
            h += [g.line("A"), "alloc A"]
            if r["kind"] == "turn":
                h.append("try %s turn A %s %d %s" % (show(r), r["name"], r["n"], hv([rng.uniform(-1, 1) for _ in range(r["n"])])))
            else:
                h.append("try %s hole A %s" % (show(r), r["what"]))
    return h


def run_history(rng, k, r):
    text, _, good = flawed_file(rng, r["flaws"], True)
    return {"id": "C28-run-%d" % k, "req": r, "argument": r["argument"], "text": text, "good": good, "weight": 3000}


def replay_requests(rng, tier, stats):
    cases = replays(stats, "MC_Requests")
    most = 600 if tier == "quick" else 6000
    one = [c for c in cases if len(c.get("flaws", [])) < 2]
    two = [c for c in cases if len(c.get("flaws", [])) >= 2]
    if len(one) + len(two) > most:
        two = rng.sample(two, max(0, most - len(one)))
    hs = [run_history(rng, k, c) for k, c in enumerate(one + two) if c["kind"] == "run"]
    calls = [c for c in one + two if c["kind"] != "run"]
    rng.shuffle(calls)
    return hs + [request_history(rng, k, part) for k, part in enumerate(chunks(calls, 12))]
