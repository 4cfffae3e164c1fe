"""C11, C12: whole runs of the driver against TimeTrace.tla."""
import random
from concurrent.futures import ThreadPoolExecutor
import core, drv, dyn, seqtrace

TICK = drv.TICK
CH = ("screen", "scalar", "h5data")


def lattice(dim, n, eps=1e-4):
    ps = []
    for i in range(n):
        x = [float(i), 0.5 * (i % 2), 0.25 * (i % 3)][:dim]
        ps.append(dict(id=i + 1, x=x, v=[0.0] * dim, h=1.6, m=1.0, rho=1.0, P=eps, u=eps))
    return ps


def scenario(rng, i, driver):
    dim = rng.choice([1, 1, 2, 3]) if driver == "hydro" else 3
    s = drv.Scen("%s%d" % (driver[0], i), dim, rng.choice([1, 2, 2, 3, 4]), rng.randrange(1 << 30), rng.randrange(5), rng.randrange(2))
    dec = rng.random() < 0.25                       # intervals that are not representable
    unit = 100000000 if dec else TICK               # ticks per unit of time
    s.ps = lattice(dim, rng.randint(max(4, s.ranks), 9))
    adaptive = rng.random() < 0.75
    q = (lambda a, b: rng.randrange(a, b) * 1000 / 1e6) if dec else (lambda a, b: rng.randrange(a, b) * 64 / 15625.0)
    def val(lo, hi):                                # a time between lo and hi 1/1000
        if dec:
            return rng.choice([rng.randrange(lo, hi) / 1000.0, round(rng.randrange(lo, hi) / 10.0) / 100.0 or 0.01])
        return max(1, int(rng.randrange(lo, hi) * 16.384)) * 64 / float(TICK)
    dt0 = val(3, 120)
    t0 = rng.choice([0.0, 0.0, val(1, 500)])
    it0 = 0
    base = t0
    every = [rng.choice([0, 0, 1, 2, 3, 5]) for _ in CH]
    dts = [rng.choice([0.0, val(5, 250)]) for _ in CH]
    k = rng.random()
    if k < 0.25:
        dts[1] = dts[0]
    elif k < 0.5:
        dts[2] = dts[0] * rng.choice([2, 3])
    elif k < 0.6:
        dts[rng.randrange(3)] = dt0
    if rng.random() < 0.15:
        dts = [0.0] * 3
    if rng.random() < 0.3:                          # a restart
        it0 = rng.randrange(1, 30)
        def near(x):                                # rounding decides whether an output time is before or after the restart
            return dec and any(d and abs(x / d - round(x / d)) * d < 1e-5 for d in dts)
        add = val(1, 700)
        while near(add):
            add += 0.00137
        s.restart = (dt0, t0 + add)
    fi = it0 + rng.randrange(0, 14)
    ft = 0.0
    if rng.random() < 0.5:
        ft = (s.restart[1] if s.restart else t0) + val(1, 900)
        if rng.random() < 0.4:
            fi = 0
            if dt0 < 0.02:
                ft = (s.restart[1] if s.restart else t0) + 20 * dt0
        elif rng.random() < 0.3 and dts[1] > 0:
            ft = base + 3 * dts[1]
    if fi == 0 and ft == 0:
        fi = 6
    if adaptive:
        s.lim = [max(64 * 64, int(rng.choice([1, 1, 1, 2, 0.3, 8, 0.6]) * rng.randrange(4096, 100000)) // 64 * 64)
                 for _ in range(rng.randint(2, 14))]
        s.lim = [min(131072, x) for x in s.lim]
    s.par = dict(initial_dt=repr(dt0 if not s.restart else val(3, 120)), initial_time=repr(t0), initial_iteration=it0, final_iteration=fi, final_time=repr(ft),
                 adaptive_timestep="yes" if adaptive else "no", sph_kernel="'wendland c4'", sph_eta="1.2",
                 timestep_cfl_factor="0.25", evolve_internal_energy=rng.choice(["yes", "no"]), out_diagnostic_every="0")
    for c in range(3):
        s.par["out_%s_every" % CH[c]] = every[c]
        s.par["out_%s_dt" % CH[c]] = repr(dts[c])
    if driver == "newtonian":
        s.par["enable_fmm"] = "yes"
        s.par["gravitational_constant"] = "1e-9"
    tk = lambda x: int(round(x * unit))
    s.meta = dict(dim=dim, unit=unit, tol=20 if dec else 0, adaptive=adaptive, t0=tk(s.restart[1] if s.restart else t0), base=tk(base),
                  dt0=tk(dt0), it0=it0, fi=fi, ft=tk(ft), n=len(s.ps),
                  ch=[dict(every=every[c], dt=tk(dts[c])) for c in range(3)])
    return s


def small(i):
    """one of all short runs: limits, intervals and first step of a few ticks"""
    r = random.Random("small-%d" % i)
    U = 1024                                        # one tick of the model
    def pick(xs):
        nonlocal i
        i, k = divmod(i, len(xs))
        return xs[k]
    s = drv.Scen("e%d" % i, 1, r.choice([1, 2]), r.randrange(1 << 30), r.randrange(5), r.randrange(2))
    lims = [pick((1, 2, 3, 5)) for _ in range(4)]
    d = [pick((0, 2, 3)), pick((0, 2, 3, 4))]
    dt0, t0, ends = pick((1, 2, 3)), pick((0, 1)), pick((0, 1))
    s.ps = lattice(1, 4)
    s.lim = [x * U * 64 for x in lims]
    u = U * 64 / float(TICK)
    fi, ft = (5, 0.) if ends == 0 else (0, (t0 + 7) * u)
    s.par = dict(initial_dt=repr(dt0 * u), initial_time=repr(t0 * u), initial_iteration=0, final_iteration=fi, final_time=repr(ft), adaptive_timestep="yes", sph_kernel="'wendland c4'",
                 sph_eta="1.2", timestep_cfl_factor="0.25", evolve_internal_energy="no", out_diagnostic_every="0", out_screen_every=0, out_screen_dt="0.0", out_h5data_every=2, out_h5data_dt=repr(d[1] * u),
                 out_scalar_every=1, out_scalar_dt=repr(d[0] * u))
    k = lambda x: int(round(x * TICK))
    s.meta = dict(dim=1, unit=TICK, tol=0, adaptive=True, t0=k(t0 * u), base=k(t0 * u), dt0=k(dt0 * u), it0=0, fi=fi, ft=k(ft), n=4,
                  ch=[dict(every=0, dt=0), dict(every=1, dt=k(d[0] * u)), dict(every=2, dt=k(d[1] * u))])
    return s


SMALL = 4 ** 4 * 12 * 12


def merge(s, ev):
    """one line per iteration"""
    unit = s.meta["unit"]
    def tk(t):
        return max(-2000000000, min(2000000000, int(round(float(t) * unit)))) if isinstance(t, (int, float)) else -1999999999
    out = [dict(s.meta, e="scenario", name=s.name, ranks=s.ranks)]
    its, order, stray = {}, [], 0
    def at(it):
        if it not in its:
            its[it] = dict(t={}, lim={r: [] for r in range(s.ranks)}, f=[[], [], []])
            order.append(it)
        return its[it]
    ext, outcome = {}, "no end"
    for e in ev[1:]:
        if e["e"] == "at":
            at(e["it"])
    for e in ev[1:]:
        k = e["e"]
        if k == "at":
            at(e["it"])["t"][e["r"]] = e["t"]
        elif k == "lim":
            at(e["it"])["lim"][e["r"]].append((e["min"], e["n"]))
        elif k == "screen":
            if e["it"] in its:
                its[e["it"]]["f"][0].append(dict(r=e["r"], it=e["it"], t=tk(e["t"])))
            else:
                stray += 1
        elif k == "scalar":
            w = e["row"].split()
            it = int(w[0])
            if it in its:
                its[it]["f"][1].append(dict(r=0, it=it, t=tk(float(w[1]))))
            else:
                stray += 1
        elif k == "h5":
            if e["it"] in its:
                its[e["it"]]["f"][2].append(dict(r=e["r"], it=e["it"], t=tk(e["t"])))
            else:
                stray += 1
        elif k == "exit":
            ext[e["r"]] = (e["it"], e["t"])
        elif k == "end":
            outcome = e["outcome"]
    last = None
    for it in order:
        d = its[it]
        if ext and it == ext.get(0, (None,))[0] and not any(d["f"]) and it == order[-1]:
            break
        ts = [d["t"].get(r) for r in range(s.ranks) if r in d["t"]]
        nc = max(len(x) for x in d["lim"].values())
        lim = [[tk(d["lim"][r][c][0]) for r in range(s.ranks) if c < len(d["lim"][r])] for c in range(nc)]
        cnt = [sum(d["lim"][r][c][1] for r in range(s.ranks) if c < len(d["lim"][r])) for c in range(nc)]
        pos = last is None or (bool(ts) and ts[0] > last)
        last = ts[0] if ts else last
        out.append(dict(e="it", it=it, t=[tk(t) for t in ts] or [-1], pos=pos, lim=lim, cnt=cnt, f=d["f"]))
    its_, ts = [ext.get(r, (-1, -1))[0] for r in range(s.ranks)], [ext.get(r, (-1, -1))[1] for r in range(s.ranks)]
    same = len(set(its_)) == 1
    out.append(dict(e="exit", it=its_[0] if same else -1, t=[tk(t) for t in ts], pos=last is None or ts[0] > last, stray=stray, outcome=outcome))
    return out


def check(ctx):
    rng = random.Random("time-%d" % ctx.seed)
    q = ctx.tier == "quick"
    plan = [("hydro", 260 if q else 2600), ("newtonian", 40 if q else 400)]
    groups = []
    for driver, n in plan:
        bins = drv.build(ctx, driver, (1, 2, 3) if driver == "hydro" else (3,))
        scens = [scenario(rng, i, driver) for i in range(n)]
        if driver == "hydro":
            every = 256 if q else 8
            for i in range(ctx.seed % every, SMALL, every):
                scens.append(small(i))
                scens[-1].name = "e%d" % i
        jobs = [[s for s in scens if s.dim == d][k::8] for d in (1, 2, 3) for k in range(8)]
        with ThreadPoolExecutor(core.JOBS) as ex:
            for js, res in zip(jobs, ex.map(lambda js: drv.run(ctx, bins[js[0].dim], js) if js else {}, jobs)):
                groups += [merge(s, res[s.name]) for s in js if s.name in res]
    ctx.model("TimeModel", "SPECIFICATION Spec\nINVARIANTS Inv Alive\nPROPERTY Grow\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxL = 4\nMaxT = %d\nMaxD = %d\n" % ((7, 2) if q else (10, 3)), "time")
    seqtrace.judge(ctx, "TimeTrace", groups)
    if ctx.prop == "C11":
        dyn.check(ctx)
    ctx.rule = ("whole runs of the hydro and newtonian drivers on 1-4 simulated ranks: scripted stability limits, fixed and adaptive steps, "
                "starts and restarts, channels by time (equal, multiple and incommensurable, also not representable in binary), by iteration, and off, "
                "ends by iteration and by time; of the 36864 short runs of a few ticks (limits, intervals, first step, end) one in 256 (thorough 8); TimeModel explores every run the rules allow")
    ctx.assumptions = ["particle input and output are replaced by memory and a log", "the limit of each particle is scripted; the rest of the driver is the real one"]
