"""C10, C11, C13, C18, C19: particle dynamics of whole runs of the drivers against DynTrace.tla."""
import copy, math, random
from concurrent.futures import ThreadPoolExecutor
import core, drv, seqtrace, sph
from sph import dot, sub, mag

KERNELS = ["cubic_spline", "quintic_spline", "wendland_c2", "wendland_c4", "wendland_c6"]
ONE = 1 << 24


def jitter(rng, dim, n, bulk=0):
    """n particles around a lattice of unit spacing"""
    side = max(2, int(math.ceil(n ** (1. / dim))))
    cells = rng.sample(range(side ** dim), n) if side ** dim >= n else []
    ps, u0 = [], rng.choice([1., 1., 4.])
    ids = list(range(1, n + 1))
    if rng.random() < .5: rng.shuffle(ids)
    sp = rng.choice([.1, 1., 7.])
    hs = rng.choice([0, 0, .15])
    h = rng.uniform(2.2, 4.5) * sp
    off = [rng.uniform(-side / 2., 1.) * sp * rng.choice([0, 1]) for _ in range(dim)]
    for i, c in enumerate(cells):
        x = []
        for d in range(dim):
            x.append((c % side - (side - 1) / 2. + rng.uniform(-.3, .3)) * sp + off[d])
            c //= side
        ps.append(dict(id=ids[i], type=0, x=x, v=[rng.uniform(-1, 1) + bulk for _ in range(dim)], h=h * (1 + rng.uniform(-hs, hs)),
                       m=rng.choice([1., rng.uniform(.3, 2.)]) * sp ** dim, rho=rng.uniform(.5, 2), P=rng.uniform(.5, 2), u=u0 * rng.uniform(.6, 1.6)))
    return ps, sp


def cluster(rng, s):
    """a few clumps far from each other and a small opening parameter: clumps see each other through their multipoles"""
    k, ps, h = rng.randint(2, 4), [], 2.3
    gap = rng.choice([15., 40., 100.])
    at = rng.sample([[a, b, c] for a in (-1, 0, 1) for b in (-1, 0, 1) for c in (-1, 0, 1)], k)
    for c in range(k):
        n, heavy = rng.randint(3, 7), rng.choice([1., 1., 10., 100.])
        for q in rng.sample([[a, b, c] for a in (0, 1) for b in (0, 1) for c in (0, 1)], n):
            x = [gap * (o + rng.uniform(-.1, .1) * 0) + y + rng.uniform(-.2, .2) for o, y in zip(at[c], q)]
            ps.append(dict(id=len(ps) + 1, type=0, x=x, v=[rng.uniform(-.2, .2) for _ in x], h=h, m=heavy * rng.uniform(.5, 1.5), rho=1., P=1., u=2.))
    rng.shuffle(ps)
    s.ps = ps
    s.par.update(fmm_macangle=repr(rng.choice([.05, .1, .2, .3])), gravitational_constant="0.01", initial_dt="0.001", adaptive_timestep="no", external_force_type='"none"',
                 final_iteration=s.par["initial_iteration"] + 2)
    s.par.pop("relaxation_steps", None)


def scenario(rng, i, driver, clusters=False):
    dim = rng.choice([1, 2, 2, 3, 3]) if driver == "hydro" else 3
    s = drv.Scen("%s%d" % (driver[0], i), dim, rng.choice([1, 2, 2, 3, 4]), rng.randrange(1 << 30), rng.randrange(5), rng.randrange(2))
    n = rng.randint(max(4, 2 * s.ranks), 14)
    s.ps, sp = jitter(rng, dim, n, bulk=rng.choice([0, 0, 3]))
    p = s.par
    yes = lambda q: "yes" if rng.random() < q else "no"
    it0 = rng.choice([0, 0, 7])
    p.update(sph_kernel='"%s"' % rng.choice(KERNELS), eos_type='"%s"' % rng.choice(["ideal_fluid", "ideal_fluid", "polytropic"]), evolve_internal_energy=yes(.8),
             thermokinetic_formulation=yes(.45), pressure_updates_number=rng.choice([1, 1, 2]), sph_eta=repr(rng.choice([1.2, 1.5, 1.6])),
             poly_gamma=repr(rng.choice([1.4, 5 / 3., 2.])), sph_viscosity_alpha=repr(rng.choice([1., .5, 1.5])), sph_viscosity_beta=repr(rng.choice([2., 1.])),
             sph_viscosity_epsilon=repr(rng.choice([.01, .1])), adaptive_timestep=yes(.6), timestep_cfl_factor="0.1", initial_dt=repr(.002 * sp),
             initial_iteration=it0, final_iteration=it0 + rng.randint(2, 5), final_time="0.0", initial_time="0.0",
             out_h5data_every=1, out_scalar_every=1, out_screen_every=0, out_diagnostic_every=1, box_length=repr(3. * sp), box_width=repr(2. * sp), box_height=repr(2. * sp),
             sphere_radius=repr(1.2 * sp), 
             gravity_acceleration_constant=repr(rng.choice([9.81, 1.]) / sp))
    w = rng.choice([2., 3., 5.])
    p.update(extforce_wall_powerindex=repr(w), extforce_wall_steepness=repr(rng.choice([.5, 3.]) / sp ** w))
    ext = rng.choice(["none"] * 4 + ["gravity", "walls:xyz"[: 6 + dim], "walls:x", "spherical wall", "spherical wall,gravity", "gravity,walls:x"])
    p["external_force_type"] = '"%s"' % ext
    if rng.random() < .35: p.update(sph_viscosity="cullen", sph_viscosity_alpha_max=repr(rng.choice([1., 2.])), sph_viscosity_l=repr(rng.choice([.05, .2])), sph_viscosity_delta=repr(rng.choice([1., .1])))
    k = rng.random()
    if k < .25: p["sph_variable_h"] = "yes"
    elif k < .5: p["sph_update_uniform_h"] = "yes"
    if p["eos_type"] == '"polytropic"':
        for b in s.ps: b["rho"] = 1. * rng.uniform(.8, 1.2)
        if p["evolve_internal_energy"] == "yes": p["thermokinetic_formulation"] = "no"
    if rng.random() < .25:
        p["relaxation_steps"] = it0 + rng.randint(0, 3)
        p["relaxation_beta"], p["relaxation_gamma"] = repr(rng.choice([.1, .3]) / sp), repr(rng.choice([0., .05]) / sp)
        p["relaxation_repulsion_radius"], p["relaxation_repulsion_gamma"] = repr(rng.choice([.5, .3])), repr(rng.choice([0., .01]))
    if rng.random() < .3:
        for b in s.ps: b["type"] = rng.choice([0, 0, 1])
    if driver == "newtonian":
        p.update(enable_fmm="yes", fmm_macangle="0.0", gravitational_constant=repr(rng.choice([1., .3, 2.5]) / sp))
        if clusters: cluster(rng, s)
    return s


def par(s):
    return {k: str(v).strip('"') for k, v in s.par.items()}


def grid(*lists):
    """the same numbers as integers of one unit, the largest about 2^24"""
    top = max([abs(v) for l in lists for v in l if math.isfinite(v)] + [1e-290])
    u = top / ONE
    return [[int(round(v / u)) if math.isfinite(v) else ONE << 2 for v in l] for l in lists]


def summed(terms, val, floor=0., err=0.):
    t, v, f, e = grid(terms, [val], [floor], [err])
    return dict(terms=t, val=v[0] if abs(v[0]) < 1 << 30 else 1 << 30, tol=8 + len(t) + e[0])


def close(got, want):
    """componentwise, each in units of 1e-7 of itself"""
    a, b = [], []
    for g, w in zip(got, want):
        x = grid([g], [w])
        a += x[0]
        b += x[1]
    return a, b


def cross(a, b):
    if len(a) == 1: return []
    if len(a) == 2: return [a[0] * b[1] - a[1] * b[0]]
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def header(rows):
    out = []
    for r in rows:
        for w in r.replace(": ", ":").split():
            if ":" in w and w.split(":")[0].isdigit():
                out.append(w.split(":", 1)[1])
    return out


def columns(dim, m):
    e4 = "gravitational_energy" if dim == 3 and m.fmm and not m.evolve else "internal_energy"
    c = ["iteration", "time", "timestep", "total_mass", "total_energy", "kinetic_energy", e4]
    return c + {1: ["mom_x"], 2: ["mom_x", "mom_y", "and_mom_z"],
                3: ["mom_x", "mom_y", "mom_z", "ang_mom_x", "ang_mom_y", "ang_mom_z", "com_x", "com_y", "com_z"]}[dim]


def records(ev):
    """[(iteration, dt, [body per rank])] in order; scalar rows; diagnostics; smallest limits per rank after the record"""
    rec, order, lim = {}, [], {}
    for e in ev:
        if e["e"] == "h5":
            if e["it"] not in rec:
                rec[e["it"]] = dict(it=e["it"], dt=e["dt"], t=e["tt"], b={}, rank={})
                order.append(e["it"])
            r = rec[e["it"]]
            for b in e["b"]:
                for k, v in b.items():
                    b[k] = [float(y) for y in v] if isinstance(v, list) else v if isinstance(v, int) else float(v)
            r["rank"].setdefault(e["r"], []).extend(e["b"])
            for b in e["b"]: r["b"][b["id"]] = b
        elif e["e"] == "lim":
            lim.setdefault(e["it"], {})[e["r"]] = e["min"]
    return [rec[i] for i in order], lim


def merge(s, ev, m, twin=None):
    p = par(s)
    n, it0 = len(s.ps), int(p["initial_iteration"])
    recs, lim = records(ev)
    D = range(s.dim)
    heads = header([e["row"] for e in ev if e["e"] == "head" and "Diag" not in e["row"]])
    dcols = ["iteration", "time", "h_min", "h_max", "h_avg", "N_min", "N_max", "N_avg", "min_dist", "avg_dist_h", "V_min", "V_max", "V_avg", "N_ghosts"]
    cols = columns(s.dim, m)
    out = [dict(e="scenario", name=s.name, n=n, it0=it0, cols=cols + dcols, par=p, ranks=s.ranks)]
    rows, diag = {}, {}
    for e in ev:
        if e["e"] in ("scalar", "diag"):
            w = e["row"].split()
            (rows if e["e"] == "scalar" else diag).setdefault(int(w[0]), []).append(w)
    init = {b["id"]: b for b in s.ps}
    K = {i: b["P"] / b["rho"] ** m.gamma for i, b in init.items()}
    prev = None
    tw = {r["it"]: r for r in records(twin)[0]} if twin else {}
    divv = {}
    for r in recs:
        B, dt = r["b"], r["dt"]
        out.append(dict(e="rec", it=r["it"], p=[dict(id=b["id"], type=b["type"], m=grid([b["m"], init[b["id"]]["m"]])[0][0] if b["id"] in init else -1)
                                               for l in r["rank"].values() for b in l]))
        if set(B) != set(init): break
        P = {}
        for i, b in B.items():
            q = prev["b"][i] if prev else None
            P[i] = dict(x=b["x"], vh=b["vh"], v=b["v"], m=b["m"], a=b["a"], ga=b["g"], h=q["h"] if q else init[i]["h"],
                        al=q["al"] if q else 0., divv=divv.get(i, 0.), dt0=dt if q else float(p["initial_dt"]))
            if q:
                P[i]["ub"], P[i]["eb"] = q["u"] + .5 * dt * q["du"] * m.evolve, q["E"] + .5 * dt * q["dE"]
            else:
                P[i]["ub"] = init[i]["u"]
                P[i]["eb"] = init[i]["u"] + .5 * dot(b["v"], b["v"]) + m.phi(b["x"])
        R = m.rhs(r["it"], P, dt, K)
        given = [y for q in P.values() for k in ("x", "vh", "h", "ub", "eb", "m") for y in (q[k] if isinstance(q[k], list) else [q[k]])]
        if all(map(math.isfinite, given)) and any(not math.isfinite(w) or w <= 0 for t in R.values() for w in (t["P"], t["c"], t["u"])):
            out.append(dict(e="void"))           # the step was too long for this flow
            return out
        for i, b in B.items():
            q = prev["b"][i] if prev else None
            if q:
                k0 = [.5 * dt * (x + y) for x, y in zip(q["a"], q["g"])]
                k1 = [.5 * dt * (x + y) for x, y in zip(b["a"], b["g"])]
                dr = [dt * x for x in b["vh"]]
                fv, fx = 1e-7 * max(mag(b["v"]), 1e-30), 1e-7 * max(mag(b["x"]), mag(dr))
                v = grid(sub(b["vh"], q["v"]), k0, [fv])
                x = grid(sub(b["x"], q["x"]), dr, [fx])
                w = grid(sub(b["v"], b["vh"]), k1, [fv])
                key, rate = ("E", "dE") if m.thermo else ("u", "du")
                en = [b[key] - q[key], .5 * dt * q[rate], .5 * dt * b[rate]]
                en = grid(en, [1e-7 * abs(b[key])])[0] if m.evolve else [0, 0, 0]
                if not m.evolve: en[0] = 0 if b["u"] == q["u"] else 1 << 30
                out.append(dict(e="move", id=i, it=r["it"], dvh=v[0], k0=v[1], dr=x[0], drift=x[1], dv=w[0], k1=w[1], de=en[0], j0=en[1], j1=en[2], tol=16))
        divv = {i: R[i].get("divv", 0.) for i in R}
        sig = {}
        for i, b in B.items():
            t = R[i]
            o = dict(e="rhs", id=i, it=r["it"], tol=24, rho=summed(t["rho_t"], b["rho"]), acc=[summed(t["acc"][d], b["a"][d]) for d in D])
            eos = [("P", t["P"]), ("cs", t["c"])]
            if m.evolve and not m.thermo: pass
            o["eos"], o["eosx"] = close([b[k] for k, _ in eos], [w for _, w in eos])
            rate = t.get("rate", []) if m.evolve else []
            o["rate"] = summed(rate, b["dE" if m.thermo else "du"] if m.evolve else 0., 1e-9)
            o["h"], o["hx"] = close([b["h"]], [t["hn"]])
            sig[i] = b["vs"] if len(t["rho_t"]) == 1 and b["vs"] in (0., t["c"]) else t["vs"]
            o["vs"], o["vsx"] = close([b["vs"]], [sig[i]])
            o["al"] = summed([t["al"]], b["al"], 1.)
            o["ie"], o["iex"] = [], []
            if m.evolve and m.thermo:      # internal energy is what is left of the total energy
                parts = [b["E"], -.5 * dot(b["v"], b["v"]), -m.phi(b["x"])]
                o["ie"], o["iex"] = [[x] for x in grid([b["u"]], [sum(parts)], [1e-6 * max(map(abs, parts))])[:2] for x in x]
            o["nb"], o["nbx"] = b["nb"], len(t["rho_t"])
            out.append(o)
        if m.fmm:
            smin = min(mag(sub(b["x"], c["x"])) for b in B.values() for c in B.values() if b is not c)
            for i, b in B.items():
                g, pot, ge, pe = [[] for _ in D], [], 0., 0.
                for j, c in B.items():
                    if j == i: continue
                    d = sub(c["x"], b["x"])
                    q = m.G * c["m"] / mag(d) ** 3
                    for k in D: g[k].append(q * d[k])
                    pot.append(-m.G * c["m"] / mag(d))
                    # accepted cells hold at least two particles, so their sizes and then their distance are at least:
                    if mag(d) * (1 + m.mac) * 2 * m.mac > smin:
                        ge += m.G * c["m"] / mag(d) ** 2 * (1 + m.mac) ** 2 * (2 * m.mac / (1 - m.mac) ** 3 + 3 * m.mac ** 2 / (1 - m.mac) ** 4)
                        pe += m.G * c["m"] / mag(d) * m.mac ** 2 * (1 + m.mac) / (1 - m.mac) ** 3
                out.append(dict(e="grav", id=i, it=r["it"], g=[summed(g[k], b["g"][k], err=ge) for k in D], pot=summed(pot, b["gp"], err=pe)))
        if r["it"] in tw:
            T, diff = tw[r["it"]]["b"], []
            for k in ("x", "v", "a", "g"):
                top = max(max(mag(b[k]) for b in B.values()), 1e-30)
                diff += [max([abs(y) for i in B for y in sub(B[i][k], T[i][k])]) / top if set(T) == set(B) else 1.]
            for k in ("h", "rho", "P", "cs", "u", "vs", "al"):
                top = max(max(abs(b[k]) for b in B.values()), 1e-30)
                diff += [max(abs(B[i][k] - T[i][k]) for i in B) / top if set(T) == set(B) else 1.]
            diff.append(abs(dt - tw[r["it"]]["dt"]) / dt)
            out.append(dict(e="twin", it=r["it"], diff=[min(1 << 30, int(round(z * 1e12))) for z in diff], tol=100000))
        if m.ext == "none" and not r["it"] < m.relax:
            mom = [grid([b["m"] * b["a"][d] for b in B.values()] + [1e-6 * b["m"] * mag(b["a"]) for b in B.values()])[0][:n] for d in D]
            x0 = [sum(b["x"][d] for b in B.values()) / n for d in D]
            tq = {i: cross(sub(b["x"], x0), b["a"]) for i, b in B.items()}
            ang = [grid([B[i]["m"] * tq[i][d] for i in B] + [1e-6 * b["m"] * mag(sub(b["x"], x0)) * mag(b["a"]) for b in B.values()])[0][:n] for d in range(len(cross([0.] * s.dim, [0.] * s.dim)))]
            en = [0]
            if m.evolve and m.thermo: en = [b["m"] * (b["dE"] - dot(b["g"], b["v"])) for b in B.values()] + [1e-6 * b["m"] * mag(b["a"]) * mag(b["v"]) for b in B.values()]
            elif m.evolve and m.passes == 1: en = [b["m"] * (dot(b["v"], b["a"]) + b["du"]) for b in B.values()] + [1e-6 * b["m"] * mag(b["a"]) * mag(b["v"]) for b in B.values()]
            out.append(dict(e="cons", it=r["it"], mom=mom, ang=ang, en=grid(en)[0][:n], tol=16 + n))
        for w in rows.get(r["it"], []):
            N = [b for b in B.values() if b["type"] == 0]
            ke = [b["m"] * .5 * dot(b["v"], b["v"]) for b in N]
            ie = [b["m"] * b["u"] for b in N]
            ge = [.5 * b["m"] * b["gp"] for b in N]
            te = [b["m"] * b["E"] for b in N] if m.thermo else ke + ie + [b["m"] * m.phi(b["x"]) for b in N]
            val = dict(time=[r["t"]], timestep=[dt], total_mass=[b["m"] for b in N], total_energy=te + (ge if m.fmm else []),
                       kinetic_energy=ke, internal_energy=ie, gravitational_energy=ge)
            for d in D: val["mom_" + "xyz"[d]] = [b["m"] * b["v"][d] for b in N]
            L = [cross(b["x"], b["v"]) for b in N]
            if s.dim == 2: val["and_mom_z"] = [b["m"] * l[0] for b, l in zip(N, L)]
            if s.dim == 3:
                M = sum(b["m"] for b in B.values())
                for d in D:
                    val["ang_mom_" + "xyz"[d]] = [b["m"] * l[d] for b, l in zip(N, L)]
                    val["com_" + "xyz"[d]] = [b["m"] * b["x"][d] / M for b in B.values()]
            q = [dict(summed(val[c], float(v)), name=c) for c, v in zip(cols[1:], w[1:]) if c in val]
            if len(w) != len(cols): q.append(dict(name="number of columns", terms=[len(cols)], val=len(w), tol=0))
            out.append(dict(e="tot", it=int(w[0]), cols=heads, q=q))
        if len(rows.get(r["it"], [])) != 1:
            out.append(dict(e="tot", it=-1, cols=[], q=[]))
        for w in diag.get(r["it"], []):
            bs = list(B.values())
            hs, ns, vs = [b["h"] for b in bs], [b["nb"] for b in bs], [mag(b["v"]) for b in bs]
            val = dict(time=[r["t"]], h_min=[min(hs)], h_max=[max(hs)], h_avg=[h / n for h in hs], N_min=[min(ns)], N_max=[max(ns)], N_avg=[sum(ns) // n],
                       V_min=[min(vs)], V_max=[max(vs)], V_avg=[v / n for v in vs])
            q = [dict(summed(val[c], float(v)), name=c) for c, v in zip(dcols[1:], w[1:]) if c in val]
            out.append(dict(e="tot", it=int(w[0]), cols=heads, q=q))
        if m.par.get("adaptive_timestep") == "yes" and not s.lim:
            got, want = [], []
            for k in sorted(r["rank"]):
                if r["rank"][k]:
                    got.append(lim.get(r["it"], {}).get(k, -1.))
                    want.append(min(m.limit(b, sig[b["id"]]) for b in r["rank"][k]))
            g, w = close(got, want)
            out.append(dict(e="limit", it=r["it"], lim=g, limx=w, tol=24))
        if any(t["u"] + .5 * dt * sum(t.get("rate", [0.])) <= 0 for t in R.values()) and not m.thermo:
            out.append(dict(e="void"))           # negative energy: the driver stops here
            return out
        prev = r
    outcome = next((e["outcome"] for e in ev if e["e"] == "end"), "no end")
    out.append(dict(e="end", outcome=outcome, last=int(p["final_iteration"])))
    return out


RULE = {
    "C10": ("whole runs of the newtonian driver with an opening parameter that rejects every cell: accelerations and potentials against the direct sum over all pairs", None),
    "C11": ("runs with the real per-particle limit: the limit each rank reduces is the smallest of its particles in their recorded state", None),
    "C13": ("whole runs of the hydro and newtonian drivers on 1-4 simulated ranks: every kernel, ideal gas and polytropic, internal or total energy or none, one or two "
            "pressure passes, constant or switched viscosity, variable or uniform smoothing lengths, relaxation, external forces; every record is rebuilt from the one before; "
            "a quarter of the runs is repeated on another number of ranks", None),
    "C18": ("the hydrodynamic accelerations and energy rates of every record of runs without external force", None),
    "C19": ("every scalar and diagnostic record of runs with real and wall particles on 1-4 ranks", None)}


def twin_of(rng, s):
    t = copy.deepcopy(s)
    t.name, t.ranks, t.seed, t.policy = s.name + "t", rng.choice([r for r in (1, 2, 3, 4) if r != s.ranks and 2 * r <= len(s.ps)]), rng.randrange(1 << 30), rng.randrange(5)
    return t


def check(ctx):
    rng = random.Random("dyn-%s-%d" % (ctx.prop, ctx.seed))
    q = ctx.tier == "quick"
    plan = {"C10": [("newtonian", 120)], "C11": [("hydro", 60), ("newtonian", 20)]}.get(ctx.prop, [("hydro", 200), ("newtonian", 50)])
    groups, void = [], 0
    for driver, n in plan:
        scens = [scenario(rng, i, driver, clusters=ctx.prop == "C10" and i % 2) for i in range(n if q else n * 12)]
        twins = {s.name: twin_of(rng, s) for s in scens[::4]} if ctx.prop == "C13" else {}
        bins = drv.build(ctx, driver, sorted({s.dim for s in scens}))
        groups += go(ctx, bins, scens, twins)
    void = sum(any(e["e"] == "void" for e in g) for g in groups)
    if void * 5 > len(groups):
        raise core.CheckError("%d of %d runs left the range of the equation of state" % (void, len(groups)))
    seqtrace.judge(ctx, "DynTrace", groups)
    if ctx.prop != "C11":
        ctx.rule = RULE[ctx.prop][0]
        ctx.assumptions = ["particle input and output are replaced by memory and a log; the rest of the driver is the real one",
                           "sums are compared to about 1e-6 of their largest term, as integers",
                           "%d runs whose step is too long for the flow are judged up to that point" % void]


def go(ctx, bins, scens, twins={}):
    jobs = [[s for s in scens if s.dim == d][k::8] for d in sorted(bins) for k in range(8)]
    jobs = [j for j in jobs if j]
    out = []
    def one(js):
        ts = [twins[s.name] for s in js if s.name in twins]
        res = drv.run(ctx, bins[js[0].dim], js + ts)
        r = []
        for s in js:
            if s.name not in res or (s.name in twins and s.name + "t" not in res):
                continue
            m = sph.Model(s.dim, par(s))
            m.par = par(s)
            try:
                r.append(merge(s, res[s.name], m, res[s.name + "t"] if s.name in twins else None))
            except (ArithmeticError, ValueError, KeyError) as x:
                r.append([dict(e="scenario", name=s.name, n=len(s.ps), it0=int(s.par["initial_iteration"]), cols=[], par=par(s), ranks=s.ranks),
                          dict(e="end", outcome="records cannot be evaluated: %r" % x, last=-1)])
        return r
    with ThreadPoolExecutor(core.JOBS) as ex:
        for r in ex.map(one, jobs):
            out += r
    return out
