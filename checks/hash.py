"""C23: the cell table against HashTrace.tla."""
import core, seqtrace


def check(ctx):
    (b,) = ctx.build([("hash.cc", "hash", None, dict(sim=False, mpi=False, libs=False))])
    p = ctx.run([b, str(ctx.seed), ctx.tier])
    groups = seqtrace.split(p.stdout)
    if p.returncode:
        ctx.violation("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]), {"cmd": "hash %d %s" % (ctx.seed, ctx.tier)})
    seqtrace.judge(ctx, "HashTrace", groups)
    ctx.rule = ("random histories of insertion of new keys, update, look-up and clear over key sets that collide in the low bits, "
                "with 32, 64 and 128 bit keys, probed for every key; all short histories over three keys, two of which collide")
    ctx.assumptions = ["keys are inserted once between clears, as the interface requires"]
