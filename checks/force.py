"""C25: external potentials and accelerations against ForceTrace.tla."""
import core, seqtrace


def check(ctx):
    bins = ctx.build([("force.cc", "force%d" % d, d, dict(sim=False)) for d in (1, 2, 3)])
    groups = []
    for d, b in zip((1, 2, 3), bins):
        p = ctx.run([b, str(ctx.seed), ctx.tier])
        groups += seqtrace.split(p.stdout)
        if p.returncode:
            ctx.violation("harness stopped (%d), dim %d: %s" % (p.returncode, d, p.stderr[-500:]), {"cmd": "force %d %s" % (ctx.seed, ctx.tier), "dim": d})
    seqtrace.judge(ctx, "ForceTrace", groups)
    ctx.rule = ("closed random walks through every selectable external field and lists of them in 1-3 dimensions, with random box, radius, wall power "
                "and steepness, density profile, airfoil and orbit parameters; work by quadrature of the real acceleration; drag on random velocities")
    ctx.assumptions = ["energies compared to 1.5e-4 of the largest met on the walk", "segments that cross a documented discontinuity (edge of the airfoil box, rim of a mesa) restart the account",
                       "orbit only in 3 dimensions (it reads z)"]
