"""C22: tensors against TensorTrace.tla."""
import itertools, os
import core, seqtrace

AX = "xyzt"


def names():
    o = ["template<int R> struct Names;"]
    for r in (1, 2, 3, 4):
        o.append("template<> struct Names<%d> { template<class T> static double & get(T & t, const std::array<int,4> & i) {" % r)
        o.append("  int k = 0; for(int a = 0; a < %d; ++a) k = k * 4 + i[a];" % r)
        o.append("  switch(k) {")
        for k, ix in enumerate(itertools.product(range(4), repeat=r)):
            nm = "".join(AX[i] for i in ix)
            o.append("    case %d: return t[tensor_indices::%s];" % (k, "_" + nm if r == 1 else nm))
        o.append("  } abort(); } };")
    return "\n".join(o) + "\n"


def check(ctx):
    with open(os.path.join(ctx.work, "tensor_names.h"), "w") as f:
        f.write(names())
    (b,) = ctx.build([("tensor.cc", "tensor", None, dict(sim=False, mpi=False, libs=False, flags=["-I" + ctx.work]))])
    p = ctx.run([b, str(ctx.seed), ctx.tier])
    groups = seqtrace.split(p.stdout)
    if p.returncode:
        ctx.violation("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]), {"cmd": "tensor %d %s" % (ctx.seed, ctx.tier)})
    seqtrace.judge(ctx, "TensorTrace", groups)
    ctx.rule = ("generic and symmetric tensors of rank 1-4 and dimension 1-4, and generic tensors of unequal dimensions: random writes by "
                "index and by name, all components read back both ways after every step; vector operations on random integer vectors")
    ctx.assumptions = ["component values are small integers, exact in double"]
