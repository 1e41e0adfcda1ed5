"""Histories for the reference solvers of src/reference: settings, programs, schedules and directories (see refs.record)."""
import math

from replays import replays

CPU = ["serial", "omp", "mpi", "mpiomp"]
ALL = CPU + ["cuda"]
SCHEMES, BACKS = ["SuperConsistent", "Heuns"], ["RK3", "Euler"]


def divisor(rng, *ns):
    g = math.gcd(*ns)
    ds = [d for d in range(1, min(g, 32) + 1) if g % d == 0]        # a block has at most 1024 threads
    return rng.choice(ds + ds[-1:] * (len(ds) // 2))


def domain(rng):
    c = rng.random()
    if c < 0.2:
        return 0.0, 1.0
    if c < 0.6:           # somewhere inside the vortex: it flows across the edges
        a = rng.uniform(0, 0.8)
        return a, a + rng.uniform(0.15, 1.0 - a)
    a = rng.choice([rng.uniform(-1.5, 1.5), rng.randint(-4, 4) / 4.0])
    return a, a + rng.choice([rng.uniform(0.2, 2.2), rng.randint(1, 8) / 4.0])


def setting(rng, lo=2, hi=7, n=None, even=False, unit=0.0, scheme=None, back=None, every=1, option=1, cell=(0.08, 1.4), size=None, span=None):
    """numbers a user may put into the settings; returns (S, number of steps)"""
    if size:
        nx, ny = size
    else:
        nx, ny = [2 * rng.randint((lo + 1) // 2, hi // 2) if even else rng.randint(lo, hi) for _ in range(2)]
    (x1, x2), (y1, y2) = domain(rng), domain(rng)
    if span:
        x1, y1 = rng.uniform(-1, 1), rng.uniform(-1, 1)
        x2, y2 = x1 + rng.uniform(*span), y1 + rng.uniform(*span)
    if rng.random() < unit:
        x1, x2, y1, y2 = 0.0, 1.0, 0.0, 1.0
    h = min((x2 - x1) / (nx - 1), (y2 - y1) / (ny - 1))
    if n is None:
        n = rng.choice([1, 2, 2, 3, 3, 4])
    for _ in range(100):
        dt = min(0.28, h * rng.uniform(*cell))
        T = rng.choice([1.0, 8.0, rng.uniform(0.3, 5.0), rng.uniform(0.3, 5.0), max(1, n) * dt * rng.uniform(0.2, 1.2)])   # the last: the vortex turns back within the run
        if rng.random() < 0.5:
            dt = 2.0 ** math.floor(math.log2(dt))
            # a whole number of steps, or one that ends just short of the next step or just beyond this one
            tf = (n + rng.choice([0, 0, 0, 0.5, 1 - 2.0 ** -rng.randint(5, 40), 2.0 ** -rng.randint(5, 40)])) * dt
        else:
            tf = (n + rng.uniform(0.1, 0.9)) * dt
        # away from the instants at which the vortex stands still (there its sign is a matter of rounding)
        ts = [k * dt / 2 for k in range(2 * n + 3)]
        if all(abs((t / T - 0.5) % 1.0 - round((t / T - 0.5) % 1.0)) > 1e-5 for t in ts):
            break
    S = dict(xlim1=x1, xlim2=x2, nx=nx, ylim1=y1, ylim2=y2, ny=ny, dt=dt, Tfinal=tf, option=option, printstep=every, T_period=T,
             TileSize=divisor(rng, nx, ny), psischeme=scheme or rng.choice(SCHEMES), backtrace_scheme=back or rng.choice(BACKS),
             xo=rng.choice([0.5, rng.uniform(-1, 2)]), yo=rng.choice([0.75, rng.uniform(-1, 2)]), rcircle=rng.choice([0.15, rng.uniform(0.01, 1.5)]))
    return S, n


def long(rng, **kw):
    """many steps on few nodes"""
    return setting(rng, hi=3, n=rng.choice([65, 70, 129, 150]), unit=0.5, cell=(0.05, 0.3), **kw)


def wide(rng, small=2, **kw):
    """many nodes in one or both directions, as many as the programs come with"""
    if small > 2:
        a, b = rng.choice([(64, 32), (32, 64), (66, 34), (34, 66), (64, 64)])
    else:
        a, b = rng.choice([33, 48, 65, 70, 128, 130]), rng.randint(2, 4)
        if rng.random() < 0.5:
            a, b = b, a
    return setting(rng, n=rng.choice([1, 2]), size=(a, b), cell=(0.2, 2.5), **kw)


def far(rng, edge, **kw):
    """steps over several cells: a root leaves the domain over the given edge, and over no other, from a node well inside it"""
    for _ in range(400):
        S, n = setting(rng, lo=5, hi=8, n=rng.choice([1, 2]), cell=(2.0, 4.0), span=(0.2, 0.7), **kw)
        hx, hy = (S["xlim2"] - S["xlim1"]) / (S["nx"] - 1), (S["ylim2"] - S["ylim1"]) / (S["ny"] - 1)
        d = S["dt"] * math.cos(math.pi * S["dt"] / S["T_period"])
        for i in range(S["ny"]):
            for j in range(S["nx"]):
                x, y = math.pi * (S["xlim1"] + j * hx), math.pi * (S["ylim1"] + i * hy)
                # in cells, how far the root lies beyond the first and the last node
                a, b = j - d / hx * math.sin(x) ** 2 * math.sin(2 * y), i + d / hy * math.sin(y) ** 2 * math.sin(2 * x)
                xin, yin = 0 < a < S["nx"] - 1, 0 < b < S["ny"] - 1
                if [yin and a < -0.2 and j > 1, yin and a > S["nx"] - 0.8 and j < S["nx"] - 2,
                        xin and b < -0.2 and i > 1, xin and b > S["ny"] - 0.8 and i < S["ny"] - 2][edge]:
                    return S, n
    return S, n


def schedule(rng, program):
    """threads, and how the run is disturbed"""
    r = {"threads": rng.choice([1, 2, 2, 3, 4, 5, 8]), "env": {"GALS_PERTURB": str(rng.randint(1, 10 ** 6)), "GALS_PERTURB_RATE": str(rng.choice([3, 6, 12, 40]))}}
    if program.startswith("mpi"):
        if rng.random() < 0.3:
            r["env"]["GALS_SLOW_RANK"] = rng.choice(["0", "1"])
        if rng.random() < 0.5:
            r["room"] = rng.choice([0, 64, 100000])
    return r


def run(rng, name, program, S, n, judge, **kw):
    r = dict(name=name, program=program, S=S, n=n, judge=judge)
    r.update(schedule(rng, program))
    r.update(kw)
    return r


def weigh(runs):
    w = 0
    for r in runs:
        nodes = r["S"]["nx"] * r["S"]["ny"] * max(1, r["n"])
        j = set(r["judge"])
        w += 400 + nodes * (1 + 20 * len(j & {"phi", "psi"}) + 4 * len(j & {"init", "vel"}) + 2 * len(j & {"mix", "same"}))
    return w


def history(pid, k, runs):
    return dict(id="%s-%d" % (pid, k), runs=runs, weight=weigh(runs))


MIX = ["serial", "omp", "cuda", "serial", "omp", "cuda", "mpi", "mpiomp"]


def one_program(pid, judge, count, hi, steps=None):
    """single runs of every program over random settings"""
    def gen(rng, tier):
        hs, far_edge = [], -1
        for k in range(count[0] if tier == "quick" else count[1]):
            p = MIX[k % len(MIX)]
            kw = dict(scheme="SuperConsistent", back="RK3") if p == "cuda" else {}
            n = rng.choice(steps) if steps else None
            if k % 16 == 11:
                p = ALL[k // 16 % 5]
                S, n = long(rng, scheme="SuperConsistent", back="RK3") if p == "cuda" else long(rng)
            elif k % 16 == 3:
                p = ALL[k // 16 % 5]
                S, n = wide(rng, scheme="SuperConsistent", back="RK3") if p == "cuda" else wide(rng)
            elif k % 16 in (7, 14):
                far_edge += 1
                p = ALL[far_edge // 4 % 5]
                S, n = far(rng, far_edge % 4, **(dict(scheme="SuperConsistent", back="RK3") if p == "cuda" else {}))
            else:
                S, n = setting(rng, hi=hi if not n or n < 8 else 3, n=n, even=p == "cuda" and rng.random() < 0.7, unit=0.15, **kw)
            hs.append(history(pid, k, [run(rng, "a", p, S, n, judge)]))
        return hs
    return gen


gen_C21 = one_program("C21", ["phi", "psi"], (176, 1200), 6, [1, 1, 2, 2, 3, 3, 4, 4, 20])
gen_C22 = one_program("C22", ["mix"], (200, 1600), 12, [1, 1, 2, 3, 10])


def gen_C23(rng, tier):
    hs = []
    for k in range(160 if tier == "quick" else 800):
        p = MIX[k % len(MIX)]
        if k % 16 == 11:
            p = ALL[k // 16 % 5]
            S, n = long(rng, every=rng.choice([1, 5, 16]))
        elif k % 16 == 3:
            p = ALL[k // 16 % 5]
            S, n = wide(rng)
        else:
            S, n = setting(rng, hi=9, n=rng.choice([0, 1, 2, 3, 6, 12]), unit=0.15, every=rng.choice([1, 1, 2, 3]))
        hs.append(history("C23", k, [run(rng, "a", p, S, n, ["init", "vel"])]))
    return hs


# ------------------------------------------------------------------------------------------------------------- the files
NAMES = ["phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt", "details.txt"]


def leftovers(rng):
    out = {}
    for f in NAMES:
        if rng.random() < 0.7:
            out[f] = rng.choice(["", "1.0000000000,2.0000000000\n\n", "old\n", "3,3,0.5,0.5,0,1,0,1,4,0.1,1", "nan," * 50 + "\n"])
    if rng.random() < 0.3:
        out["notes.txt"] = "mine\n"
    return out


def gen_C24(rng, tier):
    hs = []
    for k in range(96 if tier == "quick" else 400):
        p = MIX[k % len(MIX)]
        n = rng.choice([0, 1, 2, 3, 4, 5, 7])
        if k % 8 == 3:
            p = ALL[k // 8 % 5]
            S, n = long(rng)
        elif k % 8 == 5:
            p = ALL[k // 8 % 5]
            S, n = wide(rng)
        else:
            S, n = setting(rng, hi=8, n=n, even=rng.random() < 0.5, option=1, every=1)
        kw = {"before": leftovers(rng)} if rng.random() < 0.6 else {}
        R = [run(rng, "all", p, S, n, ["files"], keep=True, **kw)]
        for q in range(rng.choice([1, 1, 2])):        # the same simulation, printed less often: the frames it prints are those of the full run
            o = rng.choice([1, 1, 1, 2, 0])
            S2 = dict(S, option=o, printstep=rng.choice([1, 2, 3, max(1, n), n + 1, 16]))
            kw = {"before": leftovers(rng)} if rng.random() < 0.3 else {}
            R.append(run(rng, "some%d" % q, p, S2, n, ["files", "same"], like="all", dir=rng.choice(["", "other"]), cut=rng.random() < 0.3, **kw))
        hs.append(history("C24", k, R))
    return hs


def replay_run(rng, tier, stats):
    """sequences of runs in one directory, some of them stopped before their end"""
    seen, hs = set(), []
    for h in replays(stats, "MC_RefRun"):
        key = tuple((r["n"], r["option"], r["every"], r["ranks"], r["cut"]) for r in h)
        if key not in seen:
            seen.add(key)
            hs.append(h)
    want = 90 if tier == "quick" else 1200
    hs = rng.sample(hs, min(want, len(hs)))
    out = []
    for k, h in enumerate(hs):
        R = []
        for q, r in enumerate(h):
            p = rng.choice(["mpi", "mpiomp"]) if r["ranks"] == 2 else rng.choice(["serial", "omp", "cuda"])
            S, n = setting(rng, hi=4, n=r["n"], even=rng.random() < 0.5, option=r["option"], every=r["every"])
            R.append(run(rng, "r%d" % q, p, S, n, ["files"], cut=q > 0 and h[q - 1]["cut"]))
        out.append(history("C24m", k, R))
    return out


# ----------------------------------------------------------------------------------------------------- parallel programs
def gen_C25(rng, tier):
    hs = []
    for k in range(64 if tier == "quick" else 300):
        n = rng.choice([1, 2, 3, 4])
        big = k % 4 == 0
        if k % 8 == 3:
            S, n = long(rng, every=rng.choice([1, 7, 16]))
        elif k % 8 == 5:
            S, n = wide(rng)
        else:
            S, n = setting(rng, lo=8 if big else 2, hi=16 if big else 8, n=n, even=rng.random() < 0.5, unit=0.2)
        R = [run(rng, "s", "serial", S, n, ["files"], keep=True)]
        ps = ["ompx", "ompx", "mpiompx", rng.choice(["omp", "mpiomp"]), "mpi"]
        for q, p in enumerate(ps):
            R.append(run(rng, "p%d" % q, p, S, n, ["same", "files"] + (["race"] if p.endswith("x") else []), like="s"))
        hs.append(history("C25", k, R))
    return hs


def replay_par(rng, tier, stats):
    hs = []
    for k, c in enumerate(replays(stats, "MC_RefPar")):
        for slow in (None, "0", "1") if c["ranks"] == 2 else (None,):
            for p in (["mpiompx", "mpi"] if c["ranks"] == 2 else ["ompx"]):
                if p == "mpi" and c["team"] > 1:
                    continue
                S, n = setting(rng, lo=2, hi=6, n=2, even=rng.random() < 0.5)
                r = run(rng, "p", p, S, n, ["same", "files"] + (["race"] if p.endswith("x") else []), like="s", threads=c["team"],
                        room={0: 0, 1: 64}.get(c["cap"], 1000000))
                r["env"].pop("GALS_SLOW_RANK", None)
                if slow:
                    r["env"]["GALS_SLOW_RANK"] = slow
                hs.append(history("C25m%s" % (slow or ""), k, [run(rng, "s", "serial", S, n, ["files"], keep=True), r]))
    return hs


def gen_C26(rng, tier):
    hs = []
    for k in range(96 if tier == "quick" else 500):
        n = rng.choice([1, 2, 3, 4, 6])
        kw = dict(scheme="SuperConsistent", back="RK3")
        if k % 8 == 3:
            S, n = long(rng, every=rng.choice([1, 7, 16]), **kw)
        elif k % 8 == 5:
            S, n = wide(rng, **kw)
        elif k % 12 == 1:
            S, n = wide(rng, small=32, **kw)
        else:
            S, n = setting(rng, lo=2, hi=12 if k % 4 == 0 else 6, n=n, even=rng.random() < 0.7, unit=0.2, every=rng.choice([1, 1, 2]), **kw)
        R = [run(rng, "s", "serial", S, n, ["files"], keep=True)]
        for q, p in enumerate(["cuda", "cuda", "cudax"]):
            R.append(run(rng, "c%d" % q, p, dict(S, TileSize=divisor(rng, S["nx"], S["ny"])), n, ["same", "files"] + (["race"] if p.endswith("x") else []), like="s"))
        hs.append(history("C26", k, R))
    return hs


# ---------------------------------------------------------------------------------------------------- settings of MC_RefStep
DOMS = {"unit": (0.0, 1.0, 0.0, 1.0), "left": (0.0, 0.6, 0.0, 1.0), "inner": (0.1, 0.9, 0.2, 0.7), "shift": (-0.25, 0.5, 1 / 3, 4 / 3),
        "wide": (-1.0, 2.0, -0.5, 1.5)}


def replay_refstep(pid, judge, quick, programs):
    def gen(rng, tier, stats):
        cs = replays(stats, "MC_RefStep")
        cs = rng.sample(cs, min(len(cs), quick if tier == "quick" else 10 * quick))
        hs = []
        for k, c in enumerate(cs):
            x1, x2, y1, y2 = DOMS[c["dom"]]
            dt = c["dt"] / 8 * min(0.25, (x2 - x1) / (c["nx"] - 1), (y2 - y1) / (c["ny"] - 1))
            S = dict(xlim1=x1, xlim2=x2, nx=c["nx"], ylim1=y1, ylim2=y2, ny=c["ny"], dt=dt, Tfinal=2.5 * dt, option=1, printstep=1,
                     T_period=c["period"] / 4, TileSize=divisor(rng, c["nx"], c["ny"]), psischeme=c["scheme"], backtrace_scheme=c["back"],
                     xo=0.5, yo=0.75, rcircle=0.15)
            fit = [p for p in programs if (p != "cuda" or (c["scheme"], c["back"]) == ("SuperConsistent", "RK3"))]
            hs.append(history(pid + "m", k, [run(rng, "a", rng.choice(fit), S, 2, judge)]))
        return hs
    return gen
