"""C20: collective helpers against CollTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
import core, seqtrace


def check(ctx):
    bs = ctx.build([("coll.cc", "coll%d" % d, d, {}) for d in (1, 2, 3)])
    jobs = [[b, str(ctx.seed), ctx.tier, str(i), "4"] for b in bs for i in range(4)]
    groups = []
    with ThreadPoolExecutor(core.JOBS) as ex:
        for p in ex.map(lambda c: ctx.run(c), jobs):
            if p.returncode:
                raise core.CheckError("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]))
            groups += seqtrace.split(p.stdout)
    seqtrace.judge(ctx, "CollTrace", groups)
    ctx.rule = ("histories of 2-8 gathers, exchanges and reductions by 1-8 simulated ranks: empty, one-sided, to itself and large "
                "contributions, six element types, all reducible types, five message schedules, buffered and rendezvous sends")
    ctx.assumptions = ["the bytes of one contribution fit a 32-bit count"]
