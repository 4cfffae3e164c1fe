"""C17: periodic boundaries, on simulated ranks, against BoundTrace.tla."""
import random
from concurrent.futures import ThreadPoolExecutor
import core, seqtrace


def gen(seed, dim, count, big):
    r = random.Random(seed * 7919 + dim)
    out = []
    for s in range(count):
        nr = r.choice([1, 1, 2, 2, 3, 4, 5])
        per = r.choice([p for p in range(1, 1 << dim)] + [(1 << dim) - 1] * 2)
        narrow = r.random() < .35
        n = r.randint(3 * nr, r.choice([12 * nr, 24, 40 if big else 30]))
        hm = r.choice([2, 4, 6])
        hs = [r.choice([2, hm]) for _ in range(n)]
        hs[0] = hm
        L = []
        for d in range(dim):
            hi = {1: 60 * hm, 2: 16 * hm, 3: 9 * hm}[dim]
            v = r.randint(hm + 1, 4 * hm) if narrow and r.random() < .6 else r.randint(5 * hm, hi)
            L.append(v + v % 2)
        while True:                      # room for n distinct positions
            vol = 1
            for v in L:
                vol *= v
            if vol >= 4 * n:
                break
            k = r.randrange(dim)
            L[k] += 2 * hm

        def place(prev):
            used, res = set(), []
            for i in range(n):
                while True:
                    x = []
                    for d in range(dim):
                        h = L[d] // 2
                        q = r.random()
                        if prev is not None and q < .8:
                            v = prev[i][d] + r.randint(-L[d] // 3, L[d] // 3)
                        elif q < .35:
                            v = r.choice([-h, h, -h + 1, h - 1, 0, h + 1, -h - 1])
                        elif q < .45:
                            v = r.randint(-h - h + 1, h + h - 1)
                        else:
                            v = r.randint(-h, h)
                        if per >> d & 1 and prev is None and r.random() < .7:
                            v = max(-h + 1, min(h, v))
                        v = max(-3 * h + 1, min(3 * h, v))     # at most one box away
                        x.append(v)
                    w = tuple(wrap(x[d], L[d]) if per >> d & 1 else x[d] for d in range(dim))
                    if w in used:
                        continue
                    used.add(w)
                    res.append(tuple(x))
                    break
            return res

        def wrap(v, l):
            return v - l if v > l // 2 else v + l if v <= -(l // 2) else v

        pos = place(None)
        its = r.randint(1, 3)
        name = "b%d-%d-%d" % (dim, seed, s)
        ln = ["scenario %s %d %d %d %d %d %d %s" % (name, nr, r.randrange(1 << 30), r.randrange(5), r.randrange(2), its, per, " ".join(map(str, L)))]
        own = [i % nr for i in range(n)] if r.random() < .5 else [min(nr - 1, i * nr // n) for i in range(n)]
        for i in range(n):
            ln.append("p %d %d %s %d %d" % (i, own[i], " ".join(map(str, pos[i])), hs[i], r.randint(1, 9)))
        cur = [tuple(wrap(x[d], L[d]) if per >> d & 1 else x[d] for d in range(dim)) for x in pos]
        for it in range(2, its + 1):
            nxt = place(cur)
            for i in range(n):
                ln.append("q %d %d %s %d" % (it, i, " ".join(map(str, nxt[i])), hs[i]))
            cur = [tuple(wrap(x[d], L[d]) if per >> d & 1 else x[d] for d in range(dim)) for x in nxt]
        ln.append("end\n")
        out.append((name, "\n".join(ln)))
    return out


def check(ctx):
    dims = (1, 2, 3)
    bins = dict(zip(dims, ctx.build([("bound.cc", "bound%d" % d, d, {}) for d in dims])))
    scen = {}
    jobs = []
    for d in dims:
        g = gen(ctx.seed, d, (40 if ctx.quick else 400) if d < 3 else (30 if ctx.quick else 250), not ctx.quick)
        for n, t in g:
            scen[n] = (d, t)
        k = max(1, len(g) // 12)
        jobs += [(d, "".join(t for _, t in g[i::k])) for i in range(k)]

    def run(jobs):
        groups = []
        with ThreadPoolExecutor(core.JOBS) as ex:
            for p in ex.map(lambda j: ctx.run([bins[j[0]]], stdin=j[1], timeout=450 if ctx.quick else 3600), jobs):
                if p.returncode:
                    raise core.CheckError("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]))
                groups += seqtrace.split(p.stdout)
        return groups
    groups = run(jobs)
    seqtrace.judge(ctx, "BoundTrace", groups, rerun=lambda names: run([scen[n] for n in names]), nontrivial=lambda g: len(g) > 4)
    ctx.rule = ("random particles on both sides of the faces, every subset of periodic directions, dimensions 1-3, boxes from little more than a smoothing "
                "length to many, 1-5 ranks, 1-3 iterations with particles moving through the faces, five message schedules")
    ctx.assumptions = ["particles move by less than one box in an iteration", "ids are 0..N-1, as the generators number them"]
