"""C26: equations of state against EosTrace.tla."""
import core, seqtrace


def check(ctx):
    b, = ctx.build([("eosh.cc", "eosh", 3, dict(sim=False))])
    p = ctx.run([b, str(ctx.seed), ctx.tier])
    groups = seqtrace.split(p.stdout)
    if p.returncode:
        ctx.violation("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]), {"cmd": "eosh %d %s" % (ctx.seed, ctx.tier)})
    seqtrace.judge(ctx, "EosTrace", groups)
    ctx.rule = ("closed walks in density of up to a factor 16 along random adiabats of the ideal, polytropic, piecewise polytropic (through its threshold) "
                "and white-dwarf equation of state; work and slope by quadrature of the real pressure and sound speed; the ideal law on integers")
    ctx.assumptions = ["values compared to 2e-5 of the largest on the walk"]
