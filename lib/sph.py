"""Pair terms of the documented SPH equations, over all pairs, from the states the driver recorded."""
import math

PI = math.pi


def kern(name, dim, q):
    """(shape, d shape/dq, normalization) of a kernel of support 1"""
    i = dim - 1
    if name == "cubic_spline":
        s = (4 / 3., 40 / (7 * PI), 8 / PI)[i]
        if q >= 1: return 0., 0., s
        x = 2 * q
        if x < 1: return 1 - 1.5 * x * x + .75 * x ** 3, 2 * (-3 * x + 2.25 * x * x), s
        return .25 * (2 - x) ** 3, 2 * (-.75 * (2 - x) ** 2), s
    if name == "quintic_spline":
        s = (1 / 40., 63 / (478 * PI), 9 / (40 * PI))[i]
        x, w, d = 3 * q, 0., 0.
        for k, c in ((3, 1), (2, -6), (1, 15)):
            if x < k:
                w += c * (k - x) ** 5
                d += -15 * c * (k - x) ** 4
        return w, d, s
    n, pol, s = {
        ("wendland_c2", 1): (3, (1, 3), 1.25), ("wendland_c2", 2): (4, (1, 4), 7 / PI), ("wendland_c2", 3): (4, (1, 4), 21 / (2 * PI)),
        ("wendland_c4", 1): (5, (1, 5, 8), 1.5), ("wendland_c4", 2): (6, (1, 6, 35 / 3.), 9 / PI), ("wendland_c4", 3): (6, (1, 6, 35 / 3.), 495 / (32 * PI)),
        ("wendland_c6", 1): (7, (1, 7, 19, 21), 55 / 32.), ("wendland_c6", 2): (8, (1, 8, 25, 32), 78 / (7 * PI)), ("wendland_c6", 3): (8, (1, 8, 25, 32), 1365 / (64 * PI)),
    }[(name, dim)]
    if q >= 1: return 0., 0., s
    p = sum(c * q ** k for k, c in enumerate(pol))
    dp = sum(k * c * q ** (k - 1) for k, c in enumerate(pol) if k)
    return (1 - q) ** n * p, -n * (1 - q) ** (n - 1) * p + (1 - q) ** n * dp, s


def dot(a, b): return sum(x * y for x, y in zip(a, b))
def sub(a, b): return [x - y for x, y in zip(a, b)]
def mag(a): return math.sqrt(dot(a, a))


class Model:
    def __init__(self, dim, par):
        g = lambda k, d: float(par.get(k, d))
        self.dim, self.kernel = dim, par.get("sph_kernel", "wendland_c4")
        self.width = 3. if self.kernel == "quintic_spline" else 2.
        self.eta, self.gamma = g("sph_eta", 1.5), g("poly_gamma", 1.4)
        self.va, self.vb, self.ve = g("sph_viscosity_alpha", 1), g("sph_viscosity_beta", 2), g("sph_viscosity_epsilon", .01)
        self.cullen = par.get("sph_viscosity", "constant") == "cullen"
        self.vmax, self.vl, self.vd = g("sph_viscosity_alpha_max", 1), g("sph_viscosity_l", .05), g("sph_viscosity_delta", 1)
        self.eos = par.get("eos_type", "ideal_fluid")
        yes = lambda k: par.get(k, "no") == "yes"
        self.evolve, self.thermo = par.get("evolve_internal_energy", "no") == "yes", yes("thermokinetic_formulation")
        self.passes = int(par.get("pressure_updates_number", 1))
        self.relax = int(par.get("relaxation_steps", 0))
        self.rb, self.rg = g("relaxation_beta", 1e-6), g("relaxation_gamma", 0)
        self.rr, self.rrg = g("relaxation_repulsion_radius", .25), g("relaxation_repulsion_gamma", 0)
        self.ext = par.get("external_force_type", "none")
        self.grav = g("gravity_acceleration_constant", 9.81)
        self.box = [.5 * g("box_length", 3), .5 * g("box_width", 1), .5 * g("box_height", 1)]
        self.wn, self.wa = g("extforce_wall_powerindex", 5), g("extforce_wall_steepness", 1e12)
        self.rad = g("sphere_radius", 1)
        self.varh, self.unih = yes("sph_variable_h"), yes("sph_update_uniform_h")
        self.cfl = g("timestep_cfl_factor", .25)
        self.G, self.fmm, self.mac = g("gravitational_constant", 1), yes("enable_fmm"), g("fmm_macangle", 0)

    def W(self, r, h):
        w, _, s = kern(self.kernel, self.dim, r / h)
        return s * w / h ** self.dim

    def dW(self, d, h):
        r = mag(d)
        if r == 0: return [0.] * self.dim
        _, k, s = kern(self.kernel, self.dim, r / h)
        return [s * k / h ** (self.dim + 1) * x / r for x in d]

    def phi(self, x):
        p = 0.
        for f in self.ext.split(","):
            if f == "gravity": p += self.grav * x[1 if self.dim > 1 else 0]
            elif f.startswith("walls:"):
                for c in f[6:]:
                    i = "xyz".index(c)
                    p += self.wa * max(0., abs(x[i]) - self.box[i]) ** self.wn if abs(x[i]) > self.box[i] else 0.
            elif f == "spherical wall":
                r = mag(x)
                if r > self.rad: p += self.wa * (r - self.rad) ** self.wn
        return p

    def fext(self, x):
        a = [0.] * self.dim
        for f in self.ext.split(","):
            if f == "gravity": a[1 if self.dim > 1 else 0] -= self.grav
            elif f.startswith("walls:"):
                for c in f[6:]:
                    i = "xyz".index(c)
                    if abs(x[i]) > self.box[i]:
                        a[i] -= math.copysign(self.wn * self.wa * (abs(x[i]) - self.box[i]) ** (self.wn - 1), x[i])
            elif f == "spherical wall":
                r = mag(x)
                if r > self.rad:
                    for i in range(self.dim): a[i] -= x[i] / r * self.wn * self.wa * (r - self.rad) ** (self.wn - 1)
        return a

    def drag(self, v):
        k = self.rb + self.rg * dot(v, v)
        return [-k * c for c in v]

    def thermodynamics(self, rho, u, K):
        if self.eos == "polytropic":
            return K * rho ** self.gamma, math.sqrt(K * self.gamma * rho ** (self.gamma - 1)) if K == K and rho > 0 else math.nan
        return (self.gamma - 1) * rho * u, math.sqrt(self.gamma * (self.gamma - 1) * u) if u >= 0 else math.nan

    def switch(self, ids, P, R, near, W, gw, dist, xab, dt):
        """viscosity parameter of Cullen & Dehnen from velocity divergence and shear"""
        D, S = range(self.dim), {}
        for a in ids:
            G = [[sum(P[b]["m"] * (P[b]["vh"][i] - P[a]["vh"][i]) * gw[a, b][j] for b in near[a]) / R[a]["rho"] for j in D] for i in D]
            dv = sum(G[i][i] for i in D)
            R[a]["divv"] = dv
            S[a] = sum((.5 * (G[i][j] + G[j][i]) - (dv / self.dim if i == j else 0.)) ** 2 for i in D for j in D)
        sign = lambda x: (x > 0) - (x < 0)
        for a in ids:
            p, dv = P[a], R[a]["divv"]
            r = sum(sign(R[b]["divv"]) * P[b]["m"] * W[a, b] for b in near[a]) / R[a]["rho"]
            q = (2 * (1 - r) ** 4 * dv) ** 2
            xi = 0. if q < 1e-16 else q / (q + S[a])
            A = xi * max(-(dv - p["divv"]) / p["dt0"], 0.)
            loc = self.vmax * A / (self.vd * (R[a]["vs"] / p["h"]) ** 2 + A)
            R[a]["al"] = loc if p["al"] <= loc else p["al"] * math.exp(-(p["al"] - loc) * 2 * self.vl * R[a]["vs"] / p["h"] * p["dt0"])

    def visc(self, hab, rab, cab, vab, xab, alpha):
        d = dot(vab, xab)
        if d >= 0: return 0.
        mu = hab * d / (dot(xab, xab) + self.ve * hab * hab)
        if self.cullen: return -alpha * (cab - 2 * mu) * mu / rab
        return (-self.va * cab + self.vb * mu) * mu / rab

    def rhs(self, it, P, dt, K):
        """P: id -> dict(x, vh, v, vs (velocity at the first kick), h, m, ub (energy before the pass)); returns per particle
        the terms of every sum"""
        ids, D, R = sorted(P), range(self.dim), {}
        hab = {(a, b): .5 * (P[a]["h"] + P[b]["h"]) for a in ids for b in ids}
        xab = {(a, b): sub(P[a]["x"], P[b]["x"]) for a in ids for b in ids}
        dist = {k: mag(v) for k, v in xab.items()}
        near = {a: [b for b in ids if dist[a, b] <= hab[a, b]] for a in ids}
        gw = {(a, b): self.dW(xab[a, b], hab[a, b]) for a in ids for b in near[a]}
        pi = {}
        for a in ids:
            p = P[a]
            t = [P[b]["m"] * self.W(dist[a, b], hab[a, b]) for b in near[a]]
            R[a] = dict(rho_t=t, rho=sum(t))
            if self.evolve and self.thermo:
                u = p["eb"] - .5 * dot(p["vh"], p["vh"]) - self.phi(p["x"])
            else:
                u = p["ub"]
            R[a]["P"], R[a]["c"] = self.thermodynamics(R[a]["rho"], u, K[a])
            R[a]["u"] = u
        def pis():
            for a in ids:
                for b in near[a]:
                    if a != b:
                        pi[a, b] = self.visc(hab[a, b], .5 * (R[a]["rho"] + R[b]["rho"]), .5 * (R[a]["c"] + R[b]["c"]), sub(P[a]["vh"], P[b]["vh"]), xab[a, b], .5 * (R[a]["al"] + R[b]["al"]))
        for a in ids:
            r = R[a]
            r["vs"] = max([max(r["c"], R[b]["c"]) - min(0., dot(sub(P[a]["vh"], P[b]["vh"]), xab[a, b]) / dist[a, b]) for b in near[a] if a != b] + [0.])
            r["al"] = 0.
        if self.cullen:
            self.switch(ids, P, R, near, {k: self.W(dist[k], hab[k]) for k in gw}, gw, dist, xab, dt)
        pis()
        for a in ids:
            r = R[a]
            pr = r["P"] / r["rho"] ** 2
            r["hyd"] = [[-P[b]["m"] * (pr + R[b]["P"] / R[b]["rho"] ** 2 + pi[a, b]) * gw[a, b][d] for b in near[a] if b != a] for d in D]
            e = self.fext(P[a]["x"])
            r["acc"] = [r["hyd"][d] + [e[d]] for d in D]
            if it < self.relax:
                k = self.drag(P[a]["vh"])
                for d in D:
                    r["acc"][d].append(k[d])
                    r["acc"][d] += [self.rrg * P[b]["m"] * xab[a, b][d] / dist[a, b] ** 3 for b in near[a] if b != a and dist[a, b] <= hab[a, b] * self.rr]
        # rates of the energy
        for m in range(self.passes if self.evolve else 0):
            pis()
            for a in ids:
                r, t = R[a], []
                pr, va = r["P"] / r["rho"] ** 2, P[a]["v"]
                for b in near[a]:
                    if b == a: continue
                    vb, g = P[b]["v"], gw[a, b]
                    if self.thermo:
                        prb = R[b]["P"] / R[b]["rho"] ** 2
                        t.append(-P[b]["m"] * (pr * dot(vb, g) + prb * dot(va, g) + .5 * pi[a, b] * (dot(va, g) + dot(vb, g))))
                    elif it >= self.relax:
                        t.append(P[b]["m"] * (pr + .5 * pi[a, b]) * dot(sub(va, vb), g))
                if self.thermo: t.append(dot(P[a]["ga"], va))
                if it < self.relax: t.append(dot(va, self.drag(va)))
                r["rate"] = t
            for a in ids:
                r, p = R[a], P[a]
                if self.thermo:
                    u = p["eb"] - .5 * dot(p["v"], p["v"]) - self.phi(p["x"])
                    r["u"] = u
                    uh = u + .5 * dt * (sum(r["rate"]) - dot(p["v"], sub([y + z for y, z in zip(p["a"], p["ga"])], self.fext(p["x"]))))
                else:
                    uh = r["u"] + .5 * dt * sum(r["rate"])
                r["P"], r["c"] = self.thermodynamics(r["rho"], uh, K[a])
        for a in ids:
            R[a]["hn"] = P[a]["h"]
            if self.varh or self.unih:
                R[a]["hn"] = self.eta * self.width * (P[a]["m"] / R[a]["rho"]) ** (1. / self.dim)
        if self.unih and not self.varh:
            h = sum(R[a]["hn"] for a in ids) / len(ids)
            for a in ids: R[a]["hn"] = h
        return R

    def limit(self, b, vs):
        """largest step of a particle in its recorded state, given its signal speed"""
        dx = b["h"] / (self.eta * self.width)
        inf = 1e300
        v, a = mag(b["v"]), mag([x + y for x, y in zip(b["a"], b["g"])])
        t = self.cfl * min(dx / v if v else inf, math.sqrt(dx / a) if a else inf, dx / (vs * (1 + .6 * self.va) + 1e-24))
        if self.evolve and self.thermo:
            for _ in range(20):
                d = self.phi([x + t * y for x, y in zip(b["x"], b["v"])]) - self.phi(b["x"]) - t * dot(b["v"], b["g"])
                if d < .5 * b["u"]: break
                t *= .25
        return t
