"""C02-C08: the distributed tree, on simulated ranks, against TreeTrace.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
import core, treegen

# mode bits: 1 tree dump, 2 dump after traversal, 4 sph, 8 fmm, 32 net, 64 attributes
PROF = {
    "C02": dict(mode=0, attrs=True, iters=(1, 3), rounds=(1, 1), q=90, t=900),
    "C03": dict(mode=1 | 2 | 4, iters=(1, 2), rounds=(1, 2), q=60, t=600),
    "C04": dict(mode=1 | 2 | 4, iters=(1, 2), rounds=(1, 2), q=60, t=600),
    "C05": dict(mode=4, iters=(1, 2), rounds=(1, 2), q=70, t=700, big=3),
    "C06": dict(mode=4 | 8, iters=(1, 2), rounds=(1, 3), q=70, t=700, big=3),
    "C07": dict(mode=4 | 8 | 32, iters=(1, 2), rounds=(1, 3), q=150, t=3000, big=3, wide=3),
    "C08": dict(mode=1 | 2 | 4, iters=(1, 3), rounds=(2, 3), q=40, t=400),
    "C09": dict(mode=8, iters=(1, 2), rounds=(1, 2), q=70, t=700, big=2),
}


def cfg(prop):
    return "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANT Props = {\"%s\"}\n" % prop


def run_scenarios(ctx, bins, scen, par=core.JOBS):
    """scen: list of (dim, name, text); returns {name: events}"""
    jobs = []
    for dim in bins:
        mine = [(n, t) for d, n, t in scen if d == dim]
        k = max(1, len(mine) // 25 + 1)
        for i in range(k):
            part = mine[i::k]
            if part:
                jobs.append((dim, part))
    res = {}
    def one(j):
        dim, part = j
        p = ctx.run([bins[dim], "30"], stdin="".join(t for _, t in part), timeout=450 if ctx.quick else 3600)
        return treegen.annotate(p.stdout), part, p
    with ThreadPoolExecutor(par) as ex:
        for evs, part, p in ex.map(one, jobs):
            for ev in evs:
                res[ev[0]["name"]] = ev
            if len(evs) != len(part) and all(ev[-1]["ok"] for ev in evs):
                raise core.CheckError("harness stopped early: %s" % p.stderr[-2000:])
    return res


def proto(ev):
    """the message events of one scenario for ProtoTrace, None when there are none to follow"""
    net = [e for e in ev[0].pop("net") if e["e"] in ("enter", "leave") or e["e"] in ("send", "match")]
    if not ev[-1]["ok"] or ev[0]["nr"] == 1 or not any(e["e"] == "enter" for e in net):
        return None
    inside, out = set(), [dict(e="scenario", name=ev[0]["name"], nr=ev[0]["nr"])]
    for e in net:
        if e["e"] == "enter":
            inside.add(e["r"])
        if e["e"] in ("enter", "leave") or e["tag"] in TAGS:
            out.append(e)
        elif e["r"] in inside:
            return None          # another vocabulary of messages: nothing to compare with
        if e["e"] == "leave":
            inside.discard(e["r"])
    return out + [dict(e="finish")]


TAGS = (10, 11, 12, 13, 14)


def protocol(ctx, bins, net, text):
    """the exchange as a model (all interleavings), and the recorded messages against its rules"""
    inv = "INVARIANTS ToOwner Fresh Fits Clean Served Short"
    for shape in (1, 2, 3, 4):
        if shape == 2 and ctx.quick:
            continue
        c = "SPECIFICATION Spec\nCONSTANTS Shape = %d\nFetch = \"%%s\"\n%s %%s\n" % (shape, inv)
        ctx.model("GhostProtocol", c % ("wait", "Silent\nPROPERTY Ends"), "exchange-%d" % shape)
        # the model has teeth: fetching whole subtrees without waiting loses answers
        ctx.model("GhostProtocol", c % ("after", ""), "exchange-nowait-%d" % shape, expect=False)
    groups = [g for g in net.values() if g]
    ctx.extra["message traces"] = len(groups)
    ctx.extra["message events"] = sum(len(g) for g in groups)
    if not groups:
        return
    rej = ctx.validate("ProtoTrace", cfg(ctx.prop), core.chunked(groups, core.JOBS))
    if rej:
        names = list(dict.fromkeys(n for n, _, _ in rej))[:6]
        again = run_scenarios(ctx, bins, [(text[n][0], n, text[n][1]) for n in names])
        again = [g for g in map(proto, again.values()) if g]
        rej2 = ctx.validate("ProtoTrace", cfg(ctx.prop), core.chunked(again, 2)) if again else []
        for n, why, ev in rej2 or core.unrepeated(rej):
            ctx.violation("scenario %s: %s" % (n, why), {"dim": text[n][0], "scenario": text[n][1], "event": json.dumps(ev)[:4000]})


def check(ctx):
    pr = dict(PROF[ctx.prop])
    dims = [1, 2, 3]
    outs = ctx.build([("tree.cc", "tree%d" % d, d, {}) for d in dims])
    bins = dict(zip(dims, outs))
    scen = []
    per = (pr["q"] if ctx.quick else pr["t"])
    for d in dims:
        scen += [(d, n, t) for n, t in treegen.gen(
            ctx.seed, d, per, pr["mode"], attrs=pr.get("attrs", False), iters=pr["iters"], rounds=pr["rounds"],
            big=pr.get("big", 0), mac=[0, 30, 60, 100], nmax=48 if ctx.quick else 70)]
        scen += [(d, n, t) for n, t in treegen.small(ctx.seed, d, pr["mode"], 16 if ctx.quick else 1, mac=[0, 30, 60, 100], attrs=pr.get("attrs", False))]
    scen += [(1, n, t) for n, t in treegen.wide(ctx.seed, pr.get("wide", 0) * (1 if ctx.quick else 10), pr["mode"])]
    text = {n: (d, t) for d, n, t in scen}
    res = run_scenarios(ctx, bins, scen)
    net = {n: proto(ev) for n, ev in res.items()}
    rej = ctx.validate("TreeTrace", cfg(ctx.prop), core.chunked(list(res.values()), core.JOBS))
    # a rejection counts when a second run of the same scenario repeats it
    if rej:
        names = list(dict.fromkeys(n for n, _, _ in rej))[:6]
        again = run_scenarios(ctx, bins, [(text[n][0], n, text[n][1]) for n in names])
        for ev in again.values():
            proto(ev)
        rej2 = ctx.validate("TreeTrace", cfg(ctx.prop), core.chunked(list(again.values()), 2))
        for n, why, ev in rej2 or core.unrepeated(rej):
            e = json.dumps(ev)
            err = ev.get("err", "")
            ctx.violation("scenario %s: %s %s" % (n, why, err), {"dim": text[n][0], "scenario": text[n][1], "event": e[:4000]})
    if ctx.prop == "C07":
        protocol(ctx, bins, net, text)
    for n, ev in res.items():
        sc = ev[0]
        ctx.evaluations += 1
        ctx.traces += 1
        if sc["nr"] > 1 and sc["n"] > sc["nr"]:
            ctx.nontrivial.add(n)
        ctx.sample({"scenario": text[n][1].splitlines()[0], "particles": sc["n"], "ranks": sc["nr"], "events": len(ev),
                    "messages": ev[-1]["msgs"], "steps": ev[-1]["steps"]})
    ctx.rule = ("random particle sets (uniform, clusters, lines, corners, grids), dimensions 1-3, 1..8 ranks, random smoothing "
                "lengths, seeded message schedules (5 policies, buffered and rendezvous sends); of all particle sets on a "
                "line of 8, a square of 9 and a cube of 8 points on 1-4 ranks one in 16 (thorough: all); for C07 also 16-19 ranks that send more than a hundred messages each in a traversal; non-trivial: more than one rank")
    ctx.assumptions = ["MPI behaves as sim/simmpi.cc models it", "distinct positions, every rank holds at least one particle"]
