"""C29: whole runs of the relaxation driver against WvtTrace.tla."""
import copy, math, random
from concurrent.futures import ThreadPoolExecutor
import core, drv, dyn, seqtrace, sph
from dyn import grid, summed, close, KERNELS
from sph import dot, sub, mag

PI = math.pi
TOP = 1 << 20


def scenario(rng, i):
    dim = rng.choice([2, 2, 3])
    s = drv.Scen("w%d" % i, dim, rng.choice([1, 2, 2, 3, 4]), rng.randrange(1 << 30), rng.randrange(5), rng.randrange(2))
    n = rng.randint(max(5, 2 * s.ranks), 16)
    R = rng.choice([1., 1., 2.5, .3])
    wr = R * rng.choice([1., 1., 1., .9, 1.1])
    ps = []
    while len(ps) < n:
        x = [rng.uniform(-wr, wr) for _ in range(dim)]
        far = mag(x) / wr
        if far > 1. and not (far < 1.3 and rng.random() < .05): continue
        if any(mag(sub(x, q["x"])) < .1 * wr for q in ps): continue
        ps.append(dict(x=x))
    edge = rng.choice(["reflective", "reflective", "frozen"])
    if rng.random() < .25 and (dim == 3 or edge == "frozen"): ps[0]["x"] = [0.] * dim      # its image in the plane is arbitrary
    rng.shuffle(ps)
    rho0, V = rng.choice([1., 3.]), (PI * R * R if dim == 2 else 4 * PI * R ** 3 / 3)
    ids = list(range(1, n + 1))
    if rng.random() < .5: rng.shuffle(ids)
    h, types = rng.uniform(.35, .9) * R, rng.random() < .3
    for k, p in enumerate(ps):
        p.update(id=ids[k], type=rng.choice([0, 0, 1]) if types else 0, v=[rng.uniform(-1, 1) for _ in range(dim)], h=h * rng.uniform(.9, 1.1),
                 m=rho0 * V / n * rng.uniform(.8, 1.2), rho=rng.uniform(.5, 2), P=1., u=rng.uniform(.5, 2))
    s.ps = ps
    yes = lambda q: "yes" if rng.random() < q else "no"
    it0 = rng.choice([0, 0, 3])
    cool = rng.choice([0, 0, 1, 2, 4])
    s.par.update(sph_kernel='"%s"' % rng.choice(KERNELS), eos_type='"no eos"', sph_eta=repr(rng.choice([1., 1.3, 1.6])), domain_type=1, sphere_radius=repr(R), wvt_radius=repr(wr),
                 wvt_method='"%s"' % rng.choice(["diehl", "arth"]), wvt_boundary='"%s"' % edge,
                 wvt_mu=repr(rng.choice([1e-5, 1e-3, .02, .1, .5, 3.]) if rng.random() < .6 else 10 ** rng.uniform(-5, -1.5)), wvt_ngb=repr(float(rng.choice([3, 5, n, 1.5, 40]))), wvt_convergence_check=yes(.6),
                 wvt_convergence_point=repr(rng.choice([1., 30., 60., 99., 101.])), wvt_h_ngb=yes(.4), wvt_cool_down=cool, sph_variable_h=yes(.6),
                 rho_initial=repr(rho0), density_profile='"%s"' % rng.choice(["constant", "constant", "parabolic", "mesa"]), mesa_rim_width=repr(rng.choice([.2, .4])),
                 initial_iteration=it0, final_iteration=it0 + rng.randint(1, 4), initial_dt="0.25", initial_time="0.0",
                 out_h5data_every=1, out_scalar_every=1, out_screen_every=0, out_diagnostic_every=1)
    if wr > R and s.par["density_profile"] == '"parabolic"': s.par["density_profile"] = '"mesa"'     # negative beyond the sphere
    return s


class Relax:
    def __init__(self, s):
        p = self.p = dyn.par(s)
        self.m, self.dim, self.D = sph.Model(s.dim, p), s.dim, range(s.dim)
        self.R, self.wr, self.mu, self.ngb = float(p["sphere_radius"]), float(p["wvt_radius"]), float(p["wvt_mu"]), float(p["wvt_ngb"])
        self.fin, self.cool = int(p["final_iteration"]), int(p["wvt_cool_down"])
        self.vol = lambda h: PI * h * h if s.dim == 2 else 4 * PI * h ** 3 / 3

    def rho(self, x):
        q, f = mag(x) / self.R, self.p["density_profile"]
        y = 1. if f == "constant" else max(1 - q * q, 0.)
        if f == "mesa":
            w = float(self.p["mesa_rim_width"])
            y = 1. if q < 1 - w else 1 - ((q - 1 + w) / w) ** 2 if q < .9999 else 0.
        return float(self.p["rho_initial"]) * y

    def h(self, m, x, ngb):
        rho = self.rho(x)
        if rho == 0: return self.R
        v = m / rho
        if ngb: v *= self.ngb / self.vol(1.)
        else: return self.m.eta * self.m.width * v ** (1. / self.dim)
        return v ** (1. / self.dim)

    def step(self, it):
        return self.mu if it <= self.fin else max(.1 * self.mu - .1 * self.mu * (it - self.fin) / self.cool, 0.)

    def mirror(self, x, r=None):
        r = mag(x)
        return [y * (2 * self.wr - r) / r for y in x] if r else None

    def push(self, B, H, a):
        """terms of the displacement of one particle, per direction"""
        x, h, T, d = B[a]["x"], H[a], [], self.dim
        r, edge = mag(x), mag(x) + h > self.wr
        if r > self.wr: return [[] for _ in self.D], 0, 0.
        def pair(y, hw, hp):
            s = sub(x, y)
            q = mag(s)
            if q == 0: return
            if self.p["wvt_method"] == "diehl":
                w = h * max((hp / (q + .3 * hp)) ** 2 - (1 / 1.3) ** 2, 0.)
            else:
                w = hp * hp ** d * self.m.W(q, hw)
            T.append([w * c / q for c in s])
        near = [b for b in B if mag(sub(x, B[b]["x"])) <= .5 * (h + H[b])]
        mir = self.p["wvt_boundary"] == "reflective" and edge
        for b in near:
            y, hab = B[b]["x"], .5 * (h + H[b])
            if b != a: pair(y, hab, hab)
            if mir and mag(y) < self.wr and mag(y) > 0: pair(self.mirror(y), hab, h)
        if mir and r > 0: pair(self.mirror(x), h, h)
        top = max([abs(y) for t in T for y in t] + [0.])
        if edge and self.p["wvt_boundary"] == "frozen":
            T = [[2 * (c - (dot(t, x) / r * y / r if r else 0.)) for c, y in zip(t, x)] for t in T]
        return [[t[k] for t in T] for k in self.D], len(near), top


def records(ev):
    rec, order, at, out = {}, [], {}, {}
    for e in ev:
        if e["e"] == "h5":
            if e["it"] not in rec:
                rec[e["it"]] = dict(it=e["it"], b={}, n=0, w=[])
                order.append(e["it"])
            r = rec[e["it"]]
            for b in e["b"]:
                for k, v in b.items():
                    b[k] = [float(y) for y in v] if isinstance(v, list) else v if isinstance(v, int) else float(v)
                r["b"][b["id"]] = b
                r["n"] += 1
            r["w"].append(e["r"])
        elif e["e"] == "at": at.setdefault(e["r"], []).append(e["it"])
        elif e["e"] == "exit": out[e["r"]] = e["it"]
    for r in at:
        if at[r] and at[r][-1] == out.get(r): at[r].pop()
    return rec, order, at, out


def merge(s, ev, twin=None, topt=None):
    w = Relax(s)
    D, init = w.D, {b["id"]: b for b in s.ps}
    rec, order, at, out = records(ev)
    it0, n, last = int(w.p["initial_iteration"]), len(s.ps), w.fin + w.cool
    res = [dict(e="scenario", name=s.name, n=n, it0=it0, fin=w.fin, cool=w.cool, ranks=s.ranks, every=1, conv=w.p["wvt_convergence_check"] == "yes",
                point=int(round(1000 * float(w.p["wvt_convergence_point"]))), par=w.p)]
    prev, prevH = None, None
    its = sorted({i for r in at for i in at[r]} | set(order))
    for it in its:
        res.append(dict(e="iter", it=it, ranks=sorted(r for r in at if it in at[r])))
        if it not in rec:
            res.append(dict(e="none", it=it))
            break
        B = rec[it]["b"]
        res.append(dict(e="rec", it=it, ids=sorted(B), n=rec[it]["n"], w=len(rec[it]["w"]), t=[B[i]["type"] for i in sorted(B)], t0=[init[i]["type"] if i in init else -1 for i in sorted(B)]))
        if set(B) != set(init): break
        keep, kept = [], []
        for i in sorted(B):
            o = prev[i] if prev else init[i]
            a, b = close([B[i]["m"], B[i]["u"]] + B[i]["v"], [o["m"], o["u"]] + o["v"])
            keep += a
            kept += b
        res.append(dict(e="keep", it=it, got=keep, want=kept))
        if prev:
            mu = w.step(it)
            res.append(dict(e="mu", it=it, mu=int(round(mu / w.mu * 1e6))))
            for i in sorted(B):
                x, a, c, k = prev[i]["x"], prev[i]["a"], [], mu
                while True:
                    y = [p + k * q for p, q in zip(x, a)]
                    rad = mag(y) / w.wr
                    z = w.mirror(y) if rad > 1e-9 else y
                    f = 1e-7 * max(mag(x), 1e-30)
                    g = grid(sub(B[i]["x"], x), sub(y, x), sub(z, x), [f])
                    c.append(dict(rad=int(round(min(rad, 15.) * TOP)), got=g[0], raw=g[1], mir=g[2]))
                    if rad < 1.005 or k <= 1e-10: break
                    k *= .5
                r1 = mag(B[i]["x"]) / w.wr
                res.append(dict(e="disp", it=it, id=i, c=c, r=int(round(min(r1, 15.) * TOP)) if r1 == r1 else -1, was=int(round(min(mag(x) / w.wr, 15.) * TOP)), tol=16))
        # smoothing lengths used in this iteration
        if prev is None:
            H = {i: init[i]["h"] for i in B}
        else:
            H = {i: w.h(B[i]["m"], B[i]["x"], w.p["wvt_h_ngb"] == "yes") for i in B}
            if w.p["sph_variable_h"] == "yes":
                f = (w.vol(w.wr) * w.ngb / sum(w.vol(H[i]) for i in H)) ** (1. / s.dim)
                H = {i: H[i] * f for i in H}
        cnv = [grid([mag([w.mu * y for y in B[i]["a"]])], [.001 * w.ngb ** (-1. / s.dim) * H[i]]) for i in sorted(B)]
        res.append(dict(e="conv", it=it, d=[c[0][0] for c in cnv], lim=[c[1][0] for c in cnv]))
        ids = sorted(B)
        fin = {i: w.h(B[i]["m"], B[i]["x"], False) for i in ids}
        hs = close([B[i]["h"] for i in ids], [H[i] for i in ids])
        hf = close([B[i]["h"] for i in ids], [fin[i] for i in ids])
        vs = summed([w.vol(B[i]["h"]) for i in ids], w.vol(w.wr) * w.ngb) if w.p["sph_variable_h"] == "yes" and prev else summed([], 0.)
        rf = close([B[i]["rho"] for i in ids], [w.rho(B[i]["x"]) for i in ids])
        rs = [summed([B[j]["m"] * w.m.W(mag(sub(B[i]["x"], B[j]["x"])), .5 * (H[i] + H[j])) for j in ids], B[i]["rho"]) for i in ids]
        res.append(dict(e="state", it=it, h=hs[0], hx=hs[1], hf=hf[0], hfx=hf[1], vol=vs, rf=rf[0], rfx=rf[1], rho=rs, tol=24))
        for i in ids:
            T, nb, top = w.push(B, H, i)
            res.append(dict(e="push", it=it, id=i, acc=[summed(T[k], B[i]["a"][k], 1e-2 * top) for k in D], nb=B[i]["nb"], nbx=nb, out=mag(B[i]["x"]) > w.wr))
        prev = B
    if twin is not None:
        tr, to, ta, tx = records(twin)
        diff = []
        for it in to:
            T, B = tr[it]["b"], rec.get(it, dict(b={}))["b"]
            if set(T) != set(B):
                diff.append(1 << 30)
                continue
            for k in ("x", "a", "h", "rho"):
                f = (lambda y: mag(y)) if k in "xa" else abs
                e = (lambda p, q: mag(sub(p, q))) if k in "xa" else lambda p, q: abs(p - q)
                top = max(max(f(b[k]) for b in B.values()), 1e-30)
                z = max(e(B[i][k], T[i][k]) for i in B) / top
                diff.append(min(1 << 30, int(round(z * 1e12))) if z == z else 1 << 30)
        res.append(dict(e="twin", every=topt, its=to, exits=sorted(set(tx.values())), nr=len(tx), diff=diff, tol=3000000))
    outcome = next((e["outcome"] for e in ev if e["e"] == "end"), "no end")
    res.append(dict(e="end", outcome=outcome, exits=sorted(set(out.values())), nr=len(out)))
    return res


def check(ctx):
    rng = random.Random("wvt-%d" % ctx.seed)
    n = 300 if ctx.quick else 4000
    scens = [scenario(rng, i) for i in range(n)]
    twins = {}
    for s in scens[::3]:
        t = dyn.twin_of(rng, s)
        t.par["out_h5data_every"] = rng.choice([0, 2, 3])
        twins[s.name] = t
    bins = drv.build(ctx, "wvt", [2, 3])
    jobs = [j for d in (2, 3) for j in [[s for s in scens if s.dim == d][k::8] for k in range(8)] if j]

    def one(js):
        ts = [twins[s.name] for s in js if s.name in twins]
        res = drv.run(ctx, bins[js[0].dim], js + ts)
        r = []
        for s in js:
            if s.name not in res or (s.name in twins and s.name + "t" not in res): continue
            t = twins.get(s.name)
            try:
                r.append(merge(s, res[s.name], res[t.name] if t else None, t and t.par["out_h5data_every"]))
            except (ArithmeticError, ValueError, KeyError) as x:
                r.append([dict(e="scenario", name=s.name, n=len(s.ps), it0=0, fin=0, cool=0, ranks=s.ranks, every=1, conv=False, point=0, par=dyn.par(s)),
                          dict(e="end", outcome="records cannot be evaluated: %r" % x, exits=[], nr=0)])
        return r
    groups = []
    with ThreadPoolExecutor(core.JOBS) as ex:
        for r in ex.map(one, jobs): groups += r
    seqtrace.judge(ctx, "WvtTrace", groups)
    ctx.rule = ("whole runs of the relaxation driver in 2 and 3 dimensions on 1-4 simulated ranks: both methods, both boundaries, three profiles, particles at the centre, at the edge "
                "and outside, step sizes from tiny to far too long, cool-down, convergence; every iteration is rebuilt from the one before; a third of the runs is repeated on another number of ranks "
                "and with another output interval")
    ctx.assumptions = ["particle input and output are replaced by memory and a log; the rest of the driver is the real one",
                       "2 and 3 dimensions (the driver is not built for one)", "particles start within 1.3 radii and not on top of each other",
                       "sums are compared to about 1e-6 of their largest term, as integers"]
