"""C30: spatial predicates and search by radius against GeomTrace.tla and
GeomModel.tla."""
import core, seqtrace


def check(ctx):
    bins = ctx.build([("geom.cc", "geom%d" % d, d, {}) for d in (1, 2, 3)])
    groups = []
    for b in bins:
        p = ctx.run([b, str(ctx.seed), ctx.tier])
        if p.returncode:
            ctx.violation("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]), {"cmd": "geom %d %s" % (ctx.seed, ctx.tier)})
        groups += seqtrace.split(p.stdout)
    seqtrace.judge(ctx, "GeomTrace", groups)
    ctx.rule = ("predicates: all pairs of points of a small grid and random points, boxes and balls, many touching or nearly so, at scales "
                "2^-25 to 2^25; searches: random particle sets of 1-90 particles (200 thorough), spread, clustered, in line or in corners, centres inside "
                "and outside, trees built again after changes")
    ctx.assumptions = ["coordinates and radii are integers times a power of two, below 2^10; a particle exactly on the rim of a search may be found or not; "
                       "particles lie at distinct positions"]
