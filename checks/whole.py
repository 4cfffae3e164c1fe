"""C31: chains of runs of the real programs (generator, driver, restarts; real MPI and HDF5) against WholeTrace.tla."""
import json, math, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import core, drv, initdata, seqtrace


GENS = [("sodtube", 1), ("sodtube", 2), ("sodtube", 3), ("sedov", 1), ("sedov", 2), ("sedov", 3), ("noh", 1), ("noh", 2), ("noh", 3), ("collapse", 3)]
TOP = 1 << 20


def dbl(s):
    v = initdata.dbl(s)
    return 0. if v is None else v


def launch(ctx, binary, cwd, par, np, name):
    with open(os.path.join(cwd, "d.par"), "w") as f:
        txt = initdata.partext(par)
        f.write(txt if "initial_data_prefix" not in par else txt[:txt.rindex("initial_data_prefix")])
    tmp = os.path.join("/tmp", "fw-%s-%d" % (name, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        q = ctx.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(np), binary, "d.par"], cwd=cwd, timeout=150,
                    env=dict(TMPDIR=tmp, OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1"))
        return q.returncode, (q.stdout + q.stderr)[-300:]
    except subprocess.TimeoutExpired:
        return None, "no end"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def plan(r, i):
    g, d = GENS[i % len(GENS)]
    s = initdata.scenario(g, d, r.randrange(12), r, False)
    s.update(lattice_nx={1: r.randint(20, 40), 2: r.randint(9, 13), 3: r.randint(6, 7)}[d])
    if g == "sodtube":
        s.update(equal_mass="no", box_length=1., lattice_nx={1: r.randint(20, 40), 2: 20, 3: 13}[d])
        s.pop("periodic_boundary_y", None), s.pop("periodic_boundary_z", None), s.pop("periodic_boundary_x", None)
        if d > 1: s.update(box_width=.25, box_height=.3)
    s.pop("initial_dt", None)
    if g == "sedov":
        s.update(density_profile="constant")
        s.pop("lattice_perturbation_amplitude", None)
    s.update(sph_kernel=r.choice(["cubic spline", "quintic spline", "Wendland C2", "Wendland C4", "Wendland C6"]), sph_eta=round(r.uniform(1.2, 1.5), 2))
    s.update(evolve_internal_energy=r.choice(["yes", "yes", "no"]), pressure_updates_number=r.choice([1, 2]),
             out_screen_every=0, out_scalar_every=1, out_diagnostic_every=0, adaptive_timestep="no", sph_variable_h="no", sph_update_uniform_h="no",
             out_h5data_separate_iterations=r.choice(["yes", "no"]), eos_type=r.choice(["ideal fluid", "ideal fluid", "polytropic"]))
    if s["eos_type"] == "polytropic":
        s.update(evolve_internal_energy="no")
    s["thermokinetic_formulation"] = r.choice(["yes", "no"]) if s["evolve_internal_energy"] == "yes" else "no"
    if s["evolve_internal_energy"] == "yes":       # cold gas: the scheme itself may leave the range of the equation of state
        s["pressure_initial"] = max(s.get("pressure_initial", 1.), .05)
    prog = "hydro"
    if d == 3 and (g == "collapse" or r.random() < .3):
        prog = "newtonian"
        s.update(enable_fmm="yes", fmm_macangle=0., gravitational_constant=r.choice([.5, 1.]))
    elif r.random() < .4:
        s.update(external_force_type="gravity", gravity_acceleration_constant=2.)
    n = r.randint(4, 8)
    cuts = sorted(r.sample(range(1, n), r.choice([1, 1, 2])))
    every = r.choice([1, 1, 1, 2])
    cuts = sorted({max(every, c - c % every) for c in cuts if c - c % every < n} - {n})
    return g, d, prog, s, n, cuts or [every], every


def files(h5d, d):
    fs = sorted(f for f in os.listdir(d) if f.startswith("run") and f.endswith(".h5part"))
    J = [json.loads(x) for x in subprocess.run([h5d, "dump"] + fs, cwd=d, stdout=subprocess.PIPE, text=True).stdout.splitlines()] if fs else []
    st = [s for j in J if j["h5"] for s in j["steps"]]
    st.sort(key=lambda s: s["s"])
    return st


def snap(s, d):
    """{id: field values}"""
    out = {}
    for p in s["p"]:
        v = [dbl(q) for q in p[3].split(",")[:d]] + [dbl(q) for q in p[4].split(",")[:d]] + [dbl(q) for q in (p[5], p[6], p[7], p[8], p[9])]
        out.setdefault(p[0], []).append(v)
    return out


def scalars(d):
    rows = {}
    try:
        with open(os.path.join(d, "scalar_reductions.dat")) as f:
            for l in f:
                w = l.split()
                if w and not l.startswith("#"):
                    rows[int(float(w[0]))] = [float(x) for x in w[1:]]
    except (OSError, ValueError):
        pass
    return rows


def compare(A, B, base):
    """changes since base of two snapshots, per field, in a unit of which 2^20 are the largest change"""
    ids = sorted(A)
    sa, sb = [], []
    nf = len(A[ids[0]][0])
    for f in range(nf):
        da = [A[i][0][f] - base[i][0][f] for i in ids]
        db = [(B[i][0][f] if i in B else math.inf) - base[i][0][f] for i in ids]
        top = max(max(map(abs, da)), 1e-9 * max(abs(A[i][0][f]) for i in ids), 1e-300)
        q = lambda v: int(round(max(-1e3, min(1e3, v / top)) * TOP)) if v == v else 1 << 30
        sa.append([q(v) for v in da])
        sb.append([q(v) for v in db])
    return sa, sb


def scales(rows, ref, d):
    """what the columns of the totals are compared to, and how finely"""
    W = len(next(iter(rows.values())))
    X = [(max([abs(v[c]) for v in rows.values()] + [1e-300]), 1e6) for c in range(W)]
    en = max(x for x, _ in X[3:6])
    P = [p[0] for s in ref.values() for p in s.values()]
    far = max(abs(c) for p in P for c in p[:d])
    mv = max(sum(p[0][2 * d] * max(map(abs, p[0][d:2 * d])) for p in s.values()) for s in ref.values()) + 1e-300
    na = {1: 0, 2: 1, 3: 3}[d]
    for c in range(3, W):
        if c < 6: X[c] = (en, 1e6)
        elif c < 6 + d: X[c] = (mv, 1e3)
        elif c < 6 + d + na: X[c] = (mv * far, 1e3)
        else: X[c] = (far, 1e6)
    return X


def one(ctx, bins, gens, h5d, i):
    r = random.Random("%d whole %d" % (ctx.seed, i))
    g, d, prog, s, n, cuts, every = plan(r, i)
    name = "%s%dd.%d" % (g, d, i)
    top = os.path.join(ctx.work, "whole", name)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    ev = [dict(e="scenario", name=name, n=n, every=every, tol=TOP // 40, ttol=16)]
    try:
        rc, out = launch(ctx, gens[g, d], top, s, 1, name)
        gf = [f for f in os.listdir(top) if f.endswith(".h5part")]
        if rc or len(gf) != 1:
            raise core.CheckError("generator %s stopped: %s" % (name, out))
        J = json.loads(subprocess.run([h5d, "dump"] + gf, cwd=top, stdout=subprocess.PIPE, text=True).stdout)
        P = J["steps"][0]["p"]
        gam = s["poly_gamma"]
        cs = max(math.sqrt(gam * max(abs(dbl(p[8])) / dbl(p[6]), abs(dbl(p[9])))) + max(abs(dbl(v)) for v in p[4].split(",")[:d]) for p in P)
        hm = min(dbl(p[7]) for p in P)
        dt = 1e-4 * hm / max(cs, 1.)
        s.update(initial_dt=float("%.6e" % dt), out_h5data_every=every)
        dt = s["initial_dt"]
        one_run = dict(s, initial_data_prefix=gf[0][:-7], output_h5data_prefix="run", final_iteration=n, initial_iteration=0)
        segs = [("ref", 0, n, one_run, r.randint(1, 4))]
        k, ends = 0, cuts + [n]
        for e in ends:
            q = dict(one_run, final_iteration=e, initial_iteration=k)
            if k:
                q["initial_data_prefix"] = "run"
            segs.append(("chain", k, e, q, r.randint(1, 4)))
            k = e
            if r.random() < .25 and e != n and s["out_h5data_separate_iterations"] == "yes":          # an earlier step than the last, again
                c = [x for x in range(every, e, every)]
                if c: k = r.choice(c)
        if k != n:
            segs.append(("chain", k, n, dict(segs[-1][3], initial_iteration=k, final_iteration=n, initial_data_prefix="run"), 2))
        dirs = {}
        for who in ("ref", "chain"):
            dirs[who] = os.path.join(top, who)
            os.makedirs(dirs[who])
            shutil.copy(os.path.join(top, gf[0]), dirs[who])
        ref = {}
        unit = dt / 4096
        for who, a, b, q, np in segs:
            rc, out = launch(ctx, bins[prog, d], dirs[who], q, np, name)
            st = files(h5d, dirs[who])
            ev.append(dict(e="run", who=who, start=a, stop=b, np=np, ok=rc == 0, slow=rc is None, its=[x["it"] for x in st], t=[int(round(min(1e9, dbl(x["t"]) / unit))) for x in st],
                           dt=[int(round(min(1e9, dbl(x["dt"]) / unit))) for x in st]))
            if rc != 0:
                ev[-1]["out"] = out
                break
            if who == "ref":
                ref = {x["it"]: snap(x, d) for x in st}
                rsc = scalars(dirs[who])
                continue
            base = ref.get(a, {})
            for x in st:
                if x["it"] >= a and x["it"] in ref and base:
                    A, B = ref[x["it"]], snap(x, d)
                    sa, sb = compare(A, B, base if x["it"] > a else ref.get(a - every, ref.get(a + every, base)))
                    ev.append(dict(e="snap", it=x["it"], n=len(x["p"]), same=sorted(A) == sorted(B) and all(len(v) == 1 for v in B.values()), a=sa, b=sb))
            csc = scalars(dirs[who])
            for it in sorted(csc):
                if it >= a and it in rsc and len(rsc[it]) == len(csc[it]):
                    X = scales(rsc, ref, d)
                    q = lambda row: [int(round(max(-1e3, min(1e3, v / x)) * u)) for v, (x, u) in zip(row, X)]
                    ev.append(dict(e="tot", it=it, a=q(rsc[it]), b=q(csc[it])))
        ev.append(dict(e="end"))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return ev


def check(ctx):
    jobs = [(os.path.join(core.REPO, "app", "id_generators", g, "main.cc"), "g_%s_%d" % (g, d), d,
             dict(sim=False, flags=["-I%s/app/id_generators/include" % core.REPO])) for g, d in GENS]
    drivers = [("hydro", 1), ("hydro", 2), ("hydro", 3), ("newtonian", 3)]
    jobs += [("whole.cc", "w_%s_%d" % k, k[1], dict(sim=False, flags=['-DDRIVER="%s/%s/main_driver.cc"' % (drv.APP, k[0])])) for k in drivers]
    outs = ctx.build(jobs + [("h5d.cc", "h5d", None, dict(sim=False))])
    gens, bins = dict(zip(GENS, outs)), dict(zip(drivers, outs[len(GENS):]))
    count = 40 if ctx.quick else 400
    with ThreadPoolExecutor(max(2, core.JOBS // 2)) as ex:
        groups = list(ex.map(lambda i: one(ctx, bins, gens, outs[-1], i), range(count)))
    seqtrace.judge(ctx, "WholeTrace", groups)
    ctx.rule = ("random set-ups of the Sod, Sedov, Noh and collapse generators run by the real hydro and newtonian programs, at once and in 2-4 pieces with other numbers of processes "
                "(1-4); all kernels, ideal gas and polytropic, internal or total energy or none, uniform gravity, self-gravity; one file or a file per snapshot; resumed at the last or an earlier snapshot; "
                "particles and totals of every snapshot after a restart compared")
    ctx.assumptions = ["fixed step of 1e-4 of the sound crossing of a smoothing length, fixed smoothing lengths, constant viscosity; states compared to 2.5% of the change since the restart; "
                       "warm gas when energy is evolved; a file of all snapshots is resumed at its last snapshot only (the program refuses others)"]
