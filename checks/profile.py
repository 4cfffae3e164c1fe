"""C27: radial density profiles against ProfileTrace.tla."""
import os, shutil, tempfile
import core, seqtrace


def check(ctx):
    bins = ctx.build([("profile.cc", "profile%d" % d, d, dict(sim=False)) for d in (1, 2, 3)])
    groups = []
    tmp = tempfile.mkdtemp(prefix="verif_profile_")
    try:
        for d, b in zip((1, 2, 3), bins):
            p = ctx.run([b, str(ctx.seed), ctx.tier, tmp])
            groups += seqtrace.split(p.stdout)
            if p.returncode:
                ctx.violation("harness stopped (%d), dim %d: %s" % (p.returncode, d, p.stderr[-500:]), {"cmd": "profile %d %s DIR" % (ctx.seed, ctx.tier), "dim": d})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    seqtrace.judge(ctx, "ProfileTrace", groups)
    ctx.rule = ("random walks in radius through the constant, parabolic and flat-topped profile (random rim widths, stops at the rim and the edge) and "
                "profiles tabulated in files (random tables, comments, blank lines), looks into coarse random tables at, between and outside their rows, in 1-3 dimensions; mass and density by quadrature of the real density and slope")
    ctx.assumptions = ["values compared to 6e-6 of the largest; tables are fine (300 points or more) and smooth, as cubic interpolation needs; "
                       "radii up to the edge of the profile; the outermost ten-thousandth of the flat-topped profile, which the code cuts off, is not compared"]
