"""C24: smoothing kernels against KernelTrace.tla."""
import core, seqtrace


def check(ctx):
    bins = ctx.build([("kernel.cc", "kernel%d" % d, d, dict(sim=False)) for d in (1, 2, 3)])
    groups = []
    for d, b in zip((1, 2, 3), bins):
        p = ctx.run([b, str(ctx.seed), ctx.tier])
        groups += seqtrace.split(p.stdout)
        if p.returncode:
            ctx.violation("harness stopped (%d), dim %d: %s" % (p.returncode, d, p.stderr[-500:]), {"cmd": "kernel %d %s" % (ctx.seed, ctx.tier), "dim": d})
    seqtrace.judge(ctx, "KernelTrace", groups)
    ctx.rule = ("every selectable kernel, in 1-3 dimensions, sinc of index 3-12 and random indices: 100 shells of the support, "
                "three smoothing lengths, the gradient in random directions; origin, edge and separations beyond the support")
    ctx.assumptions = ["values compared in units of 1e-5; the mass by the midpoint rule with 100 shells to 5e-4"]
