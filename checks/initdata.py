"""C28: the initial-data generators against InitTrace.tla."""
import re, json, math, os, random, shutil, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
import core, seqtrace

GENS = dict(sodtube=(1, 2, 3), sedov=(1, 2, 3), noh=(1, 2, 3), KH=(2, 3), RT=(2, 3), implosion=(2, 3), collapse=(3,), fluid=(2, 3), wtunnel=(2, 3))
KERNELS = {"cubic spline": 2, "quintic spline": 3, "Wendland C2": 2, "Wendland C4": 2, "Wendland C6": 2, "gaussian": 3, "super gaussian": 3, "sinc ker": 2}
FAST = (1, 2)


def dbl(s):
    return None if s == "none" else struct.unpack("<d", struct.pack("<Q", int(s, 16)))[0]


def num(v):
    if v is None or v == 0:
        return [0, 0]
    if not math.isfinite(v):
        return [9, 99]
    m, e = ("%.6e" % v).split("e")
    return [int(round(float(m) * 1e6)), int(e) - 6]


def fix(v, s=1.):
    w = v * s
    if w != w:
        return -1000000001
    return int(max(-1e9, min(1e9, round(w))))


def cell(lt, d, s):
    return s ** d * (1. if lt == 0 or d == 1 else math.sqrt(3) / 2 if d == 2 else math.sqrt(.5))


def rows(lt, d, s):
    return [s, s * (1 if lt == 0 else math.sqrt(3) / 2), s * (1 if lt == 0 else math.sqrt(2. / 3))][:d]


def volume(p, d):
    if p["domain_type"] == 1 and d > 1:
        return math.pi * p["sphere_radius"] ** 2 if d == 2 else 4. / 3 * math.pi * p["sphere_radius"] ** 3
    return math.prod([p["box_length"], p["box_width"], p["box_height"]][:d])


def scenario(g, d, k, r, big):
    """parameters of one run"""
    p = dict(lattice_type=r.randrange(3), sph_kernel=r.choice(list(KERNELS)), sph_eta=round(r.uniform(1.1, 1.9), 3), poly_gamma=r.choice([1.4, 5. / 3, 2., 1.1]),
             domain_type=0, box_length=1., box_width=1., box_height=1., sphere_radius=1., equal_mass="yes")
    p["lattice_type"] = (k // 2 + d if g == "sodtube" else k + d) % 3
    rnd = lambda a, b: round(r.uniform(a, b), 3)
    small = {1: (20, 90), 2: (10, 24), 3: (6, 10)}[d]
    p["lattice_nx"] = r.randint(*small)
    if g == "sodtube":
        p.update(sodtest_num=1 + k % 6 if k < 6 else r.randint(1, 6), equal_mass="yes" if k % 2 == 0 else "no", box_length=r.choice([3., 1., rnd(.5, 5)]))
        L = p["box_length"]
        if p["equal_mass"] == "yes":
            p["lattice_nx"] = {1: r.randint(40, 120), 2: r.randint(36, 48), 3: r.randint(28, 32)}[d]
            p.update(box_width=rnd(.26, .4) * L, box_height=.34 * L)
        else:
            p.update(box_width=rnd(.2, .6) * L, box_height=rnd(.3, .5) * L)
            p["lattice_nx"] = {1: r.randint(20, 120), 2: r.randint(20, 40), 3: r.randint(13, 19)}[d]
        if r.random() < .4:
            p["periodic_boundary_x"] = "yes"
        for c, q in (("y", 2), ("z", 3)):
            if d >= q and p["equal_mass"] == "yes" and r.random() < .5:
                p["periodic_boundary_" + c] = "yes"
    elif g in ("sedov", "noh", "implosion", "collapse"):
        p.update(domain_type=r.randrange(2) if d > 1 else 0, rho_initial=rnd(.3, 4), pressure_initial=r.choice([1e-6, rnd(.1, 3)]), sphere_radius=1. if k % 4 == 3 else rnd(.3, 3))
        if p["domain_type"] == 0:
            R = p["sphere_radius"]
            p.update(box_length=2 * R, box_width=R * rnd(1, 2), box_height=R * rnd(1, 2))
            if g != "implosion" and r.random() < .5:
                p["box_length"] *= rnd(.5, 1.5)
        sep = (p["box_length"] if p["domain_type"] == 0 else 2 * p["sphere_radius"]) / (p["lattice_nx"] - 1)
        if g == "sedov":
            p.update(sedov_blast_energy=rnd(.1, 20), sedov_blast_radius=round(sep * r.uniform(2, 3.5), 4))
            if k % 3 == 2 and d == 3:
                p.update(domain_type=1, density_profile="parabolic")
                p["sedov_blast_radius"] = .6 * p["sphere_radius"]
            if k % 3 == 0:
                p["lattice_perturbation_amplitude"] = .02
        if g == "noh":
            p["noh_infall_velocity"] = rnd(.05, 2)
        if r.random() < .5:
            p["initial_dt"] = rnd(.001, 1)
    elif g == "KH":
        p.update(lattice_nx=r.randint(36, 44) if d == 2 else 26, rho_initial=rnd(.5, 2), density_ratio=r.choice([2., rnd(1.2, 2.4)]), pressure_initial=rnd(.5, 4), flow_velocity=rnd(.2, 2),
                 box_length=1. if d == 2 else .5, KH_A=rnd(.01, .1), KH_lambda=r.choice([.1666, .25, .5]))
        p.update(box_width=rnd(1.1, 1.4) * p["box_length"], box_height=.4 * p["box_length"])
        if d == 3:
            p.update(box_width=1.7 * p["box_length"], density_ratio=rnd(1.3, 1.8))
    elif g == "RT":
        p.update(lattice_nx=r.randint(16, 24) if d == 2 else 12, rho_initial=rnd(.5, 2), density_ratio=r.choice([2., rnd(1.2, 3)]), gravity_acceleration_constant=rnd(.05, 1.5), flow_velocity=1.,
                 box_length=.5, rt_perturbation_amplitude=rnd(.01, .4), rt_perturbation_stripe_width=rnd(.1, .4), rt_perturbation_mode=r.choice([1, 2, 3]))
        p.update(box_width=rnd(.8, 1.2), box_height=rnd(.25, .5))
        if k % 2:
            p["periodic_boundary_x"] = "yes"
        if d == 3 and k != 1:
            p["periodic_boundary_z"] = "yes"
        if d == 3:                  # rows that meet soon
            p["density_ratio"] = r.choice([2.371, 3.375, 3.4])
    elif g == "fluid":
        p.update(lattice_nx=r.randint(20, 36) if d == 2 else r.randint(12, 18), rho_initial=rnd(.5, 2), gravity_acceleration_constant=rnd(.05, 1.5), box_length=rnd(1, 3))
        p.update(box_width=rnd(.4, 1.2) * p["box_length"], box_height=rnd(.3, .6) * p["box_length"], flow_velocity=1.)
    elif g == "wtunnel":
        p.update(rho_initial=rnd(.5, 2), pressure_initial=rnd(.05, 3), flow_velocity=rnd(.1, 2), box_length=rnd(1, 3))
        p.update(box_width=rnd(.2, 1.4) * p["box_length"], box_height=rnd(.2, 1) * p["box_length"])
    return p


def partext(p):
    q = lambda v: '"%s"' % v if isinstance(v, str) and v not in ("yes", "no") else repr(v) if isinstance(v, float) else str(v)
    return "".join("%s = %s\n" % (a, q(v)) for a, v in p.items()) + 'initial_data_prefix = "gen"\n'


def launch(ctx, binary, d, p, name):
    with open(os.path.join(d, "g.par"), "w") as f:
        f.write(partext(p))
    tmp = os.path.join("/tmp", "fi-%s-%d" % (name, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        q = ctx.run(["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", "1", binary, "g.par"], cwd=d, timeout=120,
                    env=dict(TMPDIR=tmp, OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1"))
        return q.returncode, q.stdout + q.stderr
    except subprocess.TimeoutExpired:
        return -1, "no end"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def kern(d, q, H):
    if q >= 1:
        return 0.
    if d == 1:
        return 1.5 / H * (1 - q) ** 5 * (1 + 5 * q + 8 * q * q)
    return (9 / math.pi / H ** 2 if d == 2 else 495 / 32 / math.pi / H ** 3) * (1 - q) ** 6 * (1 + 6 * q + 35. / 3 * q * q)


def grid(X, s):
    G = {}
    for i, x in enumerate(X):
        G.setdefault(tuple(int(math.floor(c / s)) for c in x), []).append(i)
    return G


def around(G, x, s, d):
    c = [int(math.floor(v / s)) for v in x]
    for a in (-1, 0, 1):
        for b in (-1, 0, 1) if d > 1 else (0,):
            for e in (-1, 0, 1) if d > 2 else (0,):
                yield from G.get((c[0] + a, c[1] + b, c[2] + e), ())


def fit(size, a, b, above):
    """the first multiple of a from below the size on that is close to a multiple of b (from above or below)"""
    n0 = int(size / a) - 1
    for n in range(max(n0, 0), 100 * n0):
        f = n * a / b - math.floor(n * a / b)
        f = 0. if min(f, 1 - f) < 1e-9 else 1 - f if above else f
        if f < .045:
            return n * a


def one(ctx, bins, h5d, name, g, d, p, r, mod):
    top = os.path.join(ctx.work, "init", name)
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        if r.random() < .4 and not mod:       # a file of an earlier run is there
            q = dict(p)
            q["lattice_nx"] = max(6, p["lattice_nx"] - 3)
            launch(ctx, bins[g, d], top, q, name)
        rc, out = launch(ctx, bins[g, d], top, p, name)
        ps = dict(p)
        if mod and rc == 0:                   # the blast is put into existing data
            ps.update(mod, modify_initial_data="yes")
            rc, out = launch(ctx, bins[g, d], top, ps, name)
        fs = sorted(f for f in os.listdir(top) if f.endswith(".h5part"))
        J = [json.loads(x) for x in subprocess.run([h5d, "dump"] + fs, cwd=top, stdout=subprocess.PIPE, text=True).stdout.splitlines()] if fs else []
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return trace(name, g, d, p, ps, rc == 0 and len(J) == 1 and bool(J[0].get("steps")), out, J)


def trace(name, g, d, p, ps, ok, out, J):
    asked = p
    if g in ("sodtube", "RT"):        # the generator says how it adjusted a periodic domain
        p = dict(p)
        for c, k in (("x", "box_length"), ("y", "box_width"), ("z", "box_height")):
            w = re.findall(r"\b%s = ([-+.\deE]+)" % k, out)
            if p.get("periodic_boundary_" + c) and w and (g, c) not in (("sodtube", "x"), ("RT", "y")):
                p[k] = float(w[-1])
    lt, L, R = p["lattice_type"], p["box_length"], p["sphere_radius"]
    rho = p.get("rho_initial", 1.)
    gam, P0 = p["poly_gamma"], p.get("pressure_initial", 1.)
    ball = p["domain_type"] == 1
    pert = bool(p.get("lattice_perturbation_amplitude"))
    V = volume(p, d)
    nx = p["lattice_nx"]
    if g == "sodtube":
        nx = (nx - 1) // 3 * 3 + 1
    sep = 2 * R / (nx - 1) if ball else L / nx if g == "KH" else L / (nx - 1)
    sep0 = asked["box_length"] / (nx - 1)
    if g == "RT": sep = sep0
    half = [L / 2, p["box_width"] / 2, p["box_height"] / 2]
    mid = [0., 0., 0.]
    rhos, share, regv = [rho, rho], [-1, -1], [V]
    unit = 0.
    ext = [2 * h for h in half[:d]]
    if g == "sodtube":
        S = {1: (1., .125), 5: (5.99924, 5.99242)}.get(p["sodtest_num"], (1., 1.))
        unit = (S[0] + 2 * S[1]) * V / 3
        rhos = list(S)
        if p["equal_mass"] == "no":
            share = [fix(S[0] * V / 3 / unit, 1e9), fix(2 * S[1] * V / 3 / unit, 1e9)]
    elif g == "KH":
        rhos = [rho * p["density_ratio"], rho]
        unit = V * (rhos[0] + 2 * rhos[1]) / 3
    elif g == "RT":
        rhos = [rho, rho * p["density_ratio"]]
        unit = V * sum(rhos) / 2
    elif g == "fluid":
        ext = [L / 4, p["box_width"] / 2, p["box_height"]][:d]
        mid = [-3 * L / 8, -p["box_width"] / 4, 0.]
        half = [L / 8, p["box_width"] / 4, p["box_height"] / 2]
        V = math.prod(ext)
        unit = V * rho
        share[0] = 1000000000
    else:
        unit = rho * V
        if p.get("density_profile") == "parabolic":
            unit = rho * R ** 3 * 8 * math.pi / 15
        share[0] = 1000000000
        if ball:
            half = [R, R, R]
        if g == "wtunnel":
            mid[0] = p["box_width"] / 2 + L / 2
    if pert:
        half = [0, 0, 0]
    cell_ = cell(lt, d, sep)
    if share[0] == 1000000000:
        if ball:
            lo, hi = .6 * V / cell_ - 3, 1.6 * V / cell_ + 3
        else:
            rw = rows(lt, d, sep)
            lo = math.prod(max(0., e / s - 2) for e, s in zip(ext, rw))
            hi = math.prod(e / s + 2 for e, s in zip(ext, rw))
    else:
        lo, hi = .3 * unit / max(rhos) / cell_, 2 * unit / min(rhos) / cell_
    if p["equal_mass"] == "no":
        lo, hi = .5 * V / cell_, 1.7 * V / cell_
    K0 = ps.get("pressure_initial", 1.) / ps.get("rho_initial", 1.) ** gam
    Pref = K0 * rho ** gam if g in ("sedov", "noh") else P0
    sc = dict(e="scenario", name=name, gen=g, dim=d, test=p.get("sodtest_num", 0), ok=ok, steps=len(J[0]["steps"]) if ok else 0,
              step=J[0]["steps"][0]["s"] if ok else -1, filedim=J[0]["dim"] if ok else -1, rho=[num(x) for x in rhos], P=num(Pref),
              flow=num(p.get("flow_velocity", 0.) / (2 if g == "KH" else 1)), uniform="density_profile" not in p, pert=pert, ball=ball and not pert,
              half=[fix(h / L, 1e6) for h in half], mid=[fix(m / L, 1e6) for m in mid], share=share, tol=200, blast=fix(ps.get("sedov_blast_radius", 0.) / R, 1e6),
              least=int(lo), most=int(hi) + 1, equal=p["equal_mass"] == "yes", m1=0, n=0, par=json.dumps(ps), log=out[-300:] if not ok else "")
    if g == "sodtube" and p.get("periodic_boundary_x"):
        sc["least"] = int(lo * .5)
    ev = [sc]
    if not ok:
        return ev
    rowsP = J[0]["steps"][0]["p"]
    T = []
    for q in rowsP:
        x = [dbl(c) or 0. for c in q[3].split(",")]
        v = [dbl(c) or 0. for c in q[4].split(",")]
        T.append((int(q[0]) if q[0] != "none" else -1, x, v) + tuple(dbl(c) for c in q[5:10]))
    sc["n"] = len(T)
    if g in ("RT", "fluid"):
        T.sort(key=lambda t: -t[1][1])
    X = [t[1] for t in T]
    F = [all(isinstance(c, float) and math.isfinite(c) for c in t[1] + t[2]) and all(c is not None and 1e-150 < c < 1e150 for c in t[3:]) for t in T]
    near, G = 10., {}
    if all(F):
        G = grid(X, sep)
        for i, x in enumerate(X):
            for j in around(G, x, sep, d):
                if j < i:
                    near = min(near, math.dist(x, X[j]) / sep)
    # the rows of a periodic domain go on across its boundary
    gaps = []
    fits = []
    if g in ("sodtube", "RT") and all(F):
        for a, (c, k) in enumerate((("x", "box_length"), ("y", "box_width"), ("z", "box_height"))):
            if not p.get("periodic_boundary_" + c) or (g, c) in (("sodtube", "x"), ("RT", "y")) or a >= d:
                continue
            if g == "sodtube":
                where, spc = lambda x: 1 if -L / 6 - 1e-9 <= x[0] < L / 6 - 1e-9 else 2 if x[0] > 0 else 0, [sep * (rhos[0] / rhos[1]) ** (1. / d), sep, sep * (rhos[0] / rhos[1]) ** (1. / d)]
            else:
                where, spc = lambda x: int(x[1] >= 0), [sep0, sep0 * (rhos[0] / rhos[1]) ** (1. / d)]
            rws = [rows(lt, d, q)[a] for q in spc]
            before = len(gaps)
            for reg, row in enumerate(rws):
                I = [t for t in T if where(t[1]) == reg]
                if not I:
                    continue
                if a == 1 and d == 3:     # within one layer
                    I = [t for t in I if t[1][2] < min(q[1][2] for q in I) + .1 * sep]
                if a == 0:                # within one row
                    I = [t for t in I if math.dist(t[1][1:], I[0][1][1:]) < .1 * sep]
                xs = [t[1][a] for t in I]
                gaps.append(fix((p[k] - max(xs) + min(xs)) / row, 1000))
            if lt == 0 or a == 0: per = 1
            else: per = 2 if a == 1 else lt + 1
            big = [q * per for q in rws]
            best = fit(asked[k], big[1] if g == "sodtube" else big[0], big[0] if g == "sodtube" else big[1], g == "sodtube")
            if best is None: gaps = gaps[:before]
            else: fits.append([fix(q / max(big), 1000) for q in (asked[k], p[k], best)])
    # deep inside a region the mass of the particles around makes the density
    deep = {}
    if all(F) and g in ("sodtube", "KH", "RT") and p["equal_mass"] == "yes":
        reg = [0 if abs(t[4] / rhos[0] - 1) < 1e-6 else 1 for t in T]
        if g == "sodtube":
            reg = [1 if -L / 6 - 1e-9 <= x[0] < L / 6 - 1e-9 else 2 if x[0] > 0 else 0 for x in X]
        if g == "KH":
            reg = [0 if k == 0 else 1 if x[1] > 0 else 2 for k, x in zip(reg, X)]
        if g == "RT":
            reg = [0 if x[1] < 0 else 1 for x in X]
        for k in set(reg):
            I = [i for i in range(len(T)) if reg[i] == k]
            H = {1: 4.5, 2: 4., 3: 3.3}[d] * (T[I[0]][3] / T[I[0]][4]) ** (1. / d)
            lo_, hi_ = [min(X[i][c] for i in I) for c in range(d)], [max(X[i][c] for i in I) for c in range(d)]
            C = [i for i in I if all(lo_[c] + H <= X[i][c] <= hi_[c] - H for c in range(d))]
            C = C[:: max(1, len(C) // 40)]
            if C:
                GH = grid([X[i] for i in I], H)
                for i in C:
                    deep[i] = sum(T[I[j]][3] * kern(d, math.dist(X[i], X[I[j]]) / H, H) for j in around(GH, X[i], H, d)) / T[i][4]
    width = KERNELS[p["sph_kernel"]]
    prev = None
    gr = p.get("gravity_acceleration_constant", 0.)
    for i, (id_, x, v, m, ro, h, P, u) in enumerate(T):
        e = dict(e="part", id=id_, fin=F[i], x=[fix(c / L, 1e6) for c in x], v=[num(c) for c in v], rho=num(ro), P=num(P), eos=0, h=0, dens=-1, r=0, vr=0, vt=0, vy=0, b=0, u=0, p=0, col=0, surf=0, m=0, rr=0)
        ev.append(e)
        if not F[i]:
            continue
        e["eos"] = fix(P / ((gam - 1) * ro * u), 1e7)
        hx = sep * (4 if d == 2 else 3) if g == "wtunnel" else ps["sph_eta"] * width * (m / ro) ** (1. / d)
        e["h"] = fix(h / hx, 1e7)
        e["m"] = fix(m / unit, 1e9)
        if i in deep:
            e["dens"] = fix(deep[i], 1e4)
        rad = math.sqrt(sum(c * c for c in x))
        e["r"] = fix(rad / R, 1e6)
        e["rr"] = fix(ro / rho, 1e6)
        e["u"] = fix(u, 100)
        if g == "noh":
            V0 = ps["noh_infall_velocity"]
            vr = sum(a * b for a, b in zip(x, v)) / rad if rad > 0 else 0.
            e["vr"] = fix(vr / V0, 1e7) if rad > 0 else 0
            e["vt"] = fix(math.sqrt(sum((b - vr * a / rad) ** 2 for a, b in zip(x, v))) / V0, 1e7) if rad > 0 else fix(max(map(abs, v)) / V0, 1e7)
        if g == "sedov":
            e["b"] = fix(m * (u - K0 * ro ** (gam - 1) / (gam - 1)) / ps["sedov_blast_energy"], 1e8)
        if g == "KH":
            A, s = p["KH_A"], math.sin(2 * math.pi * (x[0] + .5) / p["KH_lambda"])
            w = -A * s if .225 < x[1] < .25 else A * s if -.25 < x[1] < -.225 else 0.
            e["vy"] = 0 if min(abs(abs(x[1]) - .225), abs(abs(x[1]) - .25)) < 1e-9 else fix((v[1] - w) / A, 1e7)
        if g == "RT":
            A, sw, k = p["rt_perturbation_amplitude"], p["rt_perturbation_stripe_width"], 2 * math.pi / L * p["rt_perturbation_mode"]
            w = -A * (1 + math.cos(k * x[0])) * (1 + math.cos(k * x[2]) if d == 3 else 1.) * math.cos(math.pi * x[1] / sw) if abs(x[1]) < .5 * sw else 0.
            e["vy"] = 0 if abs(abs(x[1]) - .5 * sw) < 1e-9 or p.get("periodic_boundary_x") else fix((v[1] - w) / A, 1e7)
        if g in ("RT", "fluid"):
            W = lambda a, b: gr * ((max(a, 0.) - max(b, 0.)) * rhos[1] + (min(a, 0.) - min(b, 0.)) * rhos[0])
            e["p"] = fix(P / 2.5, 1e7)
            e["surf"] = fix(1 + W(p["box_width"] / 2 if g == "RT" else 0., x[1]) / 2.5, 1e7)
            e["col"] = fix(W(prev, x[1]) / 2.5, 1e7) if prev is not None else 0
            prev = x[1]
        if i == 0:
            sc["m1"] = e["m"]
    ev.append(dict(e="end", gaps=gaps, fits=fits, near=fix(near, 1e6), ids=len({t[0] for t in T})))
    return ev


def check(ctx):
    jobs = [(os.path.join(core.REPO, "app", "id_generators", g, "main.cc"), "g_%s_%d" % (g, d), d,
             dict(sim=False, flags=["-I%s/app/id_generators/include" % core.REPO])) for g in GENS for d in GENS[g]]
    outs = ctx.build(jobs + [("h5d.cc", "h5d", None, dict(sim=False))])
    bins = {(g, d): o for (g, d), o in zip([(g, d) for g in GENS for d in GENS[g]], outs)}
    h5d = outs[-1]
    todo = []
    for g in GENS:
        for d in GENS[g]:
            n = 6 if g in ("sodtube", "sedov") else 4
            if d == 3 and g == "RT":
                n = 3
            n = max(2, n - 1) if ctx.quick else 6 * n
            for k in range(n):
                r = random.Random("%d %s %d %d" % (ctx.seed, g, d, k))
                p = scenario(g, d, k, r, not ctx.quick)
                mod = None
                if g == "sedov" and k % 3 == 1:
                    mod = dict(rho_initial=round(p["rho_initial"] * r.uniform(.4, 3), 3), lattice_nx=p["lattice_nx"] + r.randint(0, 3), sedov_blast_energy=round(r.uniform(.1, 5), 3))
                if g == "noh" and k % 3 == 1:
                    mod = dict(rho_initial=round(p["rho_initial"] * r.uniform(.4, 3), 3), noh_infall_velocity=round(r.uniform(.1, 3), 3), pressure_initial=round(r.uniform(.1, 3), 3), lattice_nx=p["lattice_nx"] + r.randint(0, 3))
                todo.append(("%s%dd.%d" % (g, d, k), g, d, p, r, mod))
    with ThreadPoolExecutor(core.JOBS) as ex:
        groups = list(ex.map(lambda t: one(ctx, bins, h5d, *t), todo))
    seqtrace.judge(ctx, "InitTrace", groups)
    ctx.rule = ("every generator (Sod tubes, Sedov, Noh, Kelvin-Helmholtz, Rayleigh-Taylor, implosion, collapse, fluid, wind tunnel; 1-3 dimensions as available) run as a "
                "process on random parameter files (lattices, kernels, domains, resolutions, states), with and without files of earlier runs, blasts put into existing data; the files read back")
    ctx.assumptions = ["one process; lattices 0-2; constant or parabolic density profile; no equilibrium is implied for profiles on uniform lattices; vertical velocities across as documented in the code"]
