"""Scenarios and traces of the driver harness (harness/driver.cc)."""
import json, os
import core, seqtrace

APP = os.path.join(core.REPO, "app", "drivers")
TICK = 1 << 20


def build(ctx, name, dims, extra=()):
    src = {"hydro": "hydro/main_driver.cc", "newtonian": "newtonian/main_driver.cc", "wvt": "wvt/main_driver.cc"}[name]
    return dict(zip(dims, ctx.build([("driver.cc", "%s%d" % (name, d), d,
        dict(flags=['-DDRIVER="%s"' % os.path.join(APP, src)] + list(extra))) for d in dims])))


class Scen:
    def __init__(self, name, dim, ranks, seed, policy=0, rdv=0):
        self.name, self.dim, self.ranks, self.seed, self.policy, self.rdv = name, dim, ranks, seed, policy, rdv
        self.par, self.lim, self.ps, self.restart, self.meta, self.opts = {}, [], [], None, {}, []

    def text(self):
        o = ["scenario %s %d %d %d %d" % (self.name, self.ranks, self.seed, self.policy, self.rdv)]
        o += ["par %s = %s" % kv for kv in self.par.items()]
        if self.lim:
            o.append("lim " + " ".join(map(str, self.lim)))
        if self.restart:
            o.append("dt %r %r" % self.restart)
        o += ["opt " + x for x in self.opts]
        for p in self.ps:
            v = [p.get("id"), p.get("type", 0)] + list(p["x"])[: self.dim] + list(p["v"])[: self.dim] + \
                [p["h"], p["m"], p.get("rho", 1.0), p.get("P", 1.0), p.get("u", 1.0)]
            o.append("p " + " ".join(map(repr, v)))
        return "\n".join(o + ["end", ""])


def run(ctx, binary, scens, timeout=None):
    """{scenario name: list of events}"""
    d = os.path.join(ctx.work, "scr-" + scens[0].name)
    os.makedirs(d, exist_ok=True)
    p = ctx.run([binary, d], stdin="".join(s.text() for s in scens), timeout=timeout or (450 if ctx.quick else 3600))
    if p.returncode:
        raise core.CheckError("driver harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]))
    res = {g[0]["name"]: g for g in seqtrace.split(p.stdout)}
    if len(res) < len(scens) and all(g[-1].get("outcome") == "ok" for g in res.values()):
        raise core.CheckError("driver harness stopped early: %s" % p.stderr[-500:])
    return res                   # after two runs without end the harness gives up
