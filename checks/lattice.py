"""C21: particle lattices against LatticeTrace.tla."""
import core, seqtrace


def check(ctx):
    bins = ctx.build([("lattice.cc", "lattice%d" % d, d, dict(sim=False)) for d in (1, 2, 3)])
    groups = []
    for d, b in zip((1, 2, 3), bins):
        p = ctx.run([b, str(ctx.seed), ctx.tier])
        groups += seqtrace.split(p.stdout)
        if p.returncode:
            ctx.violation("harness stopped (%d), dim %d: %s" % (p.returncode, d, p.stderr[-500:]), {"cmd": "lattice %d %s" % (ctx.seed, ctx.tier), "dim": d})
    seqtrace.judge(ctx, "LatticeTrace", groups)
    ctx.rule = ("every lattice and domain type, dimension, random boxes anywhere with lengths in 1/1000 of the separation (whole multiples too), "
                "two blocks one after the other with guarded arrays; the sites of the domain are enumerated by the specification")
    ctx.assumptions = ["boxes and spheres with a site within 3/1000 of a separation of an upper edge are not drawn, except sites exactly on it"]
