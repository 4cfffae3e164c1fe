"""C01: space-filling curves against CurveTrace.tla."""
import core, seqtrace


def check(ctx):
    kw = dict(sim=False, mpi=False, libs=False)
    try:
        (b,) = ctx.build([("curve.cc", "curve", None, kw)])
    except core.CheckError as e:
        # the class is a template: a member that cannot be instantiated is found here
        (b,) = ctx.build([("curve.cc", "curve", None, dict(kw, flags=["-DNO_CONFLICT"]))])
        ctx.violation("conflict_depth cannot be instantiated: %s" % str(e)[-300:], {"build": "curve.cc"})
    p = ctx.run([b, str(ctx.seed), ctx.tier])
    groups = seqtrace.split(p.stdout)
    if p.returncode:
        # the code under test stopped the harness: that is an answer
        ctx.violation("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]), {"cmd": "curve %d %s" % (ctx.seed, ctx.tier)})
    seqtrace.judge(ctx, "CurveTrace", groups)
    ctx.model("KeyMachine", "SPECIFICATION Spec\nINVARIANT Inv\nCONSTANTS Dim = 2\nMaxDepth = 3\n", "keys-2d")
    ctx.rule = ("both curves, dimensions 1-3, 16/32/64 bit keys: all cells to a fixed depth over several ranges and offsets within the "
                "cell, random points at full depth with all ancestors, random histories of key operations; every scenario is non-trivial")
    ctx.assumptions = ["points lie in the range; full-depth keys for Hilbert decoding"]
