"""Checks that run one sequential harness and validate its trace.

CFG[prop] = dict(src, module, dims?, sim?, scen-split done on e='scenario')"""
import json, os
import core


def split(text, need=None):
    out, cur = [], None
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        e = json.loads(line)
        if e["e"] == "scenario":
            cur = []
            out.append(cur)
        if cur is None:
            raise core.CheckError("trace does not start with a scenario: " + line[:200])
        cur.append(e)
    return out


def cfg(prop, extra=""):
    return "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANT Props = {\"%s\"}\n%s" % (prop, extra)


def judge(ctx, module, groups, rerun=None, nontrivial=lambda g: len(g) > 1, describe=None, extra_cfg=""):
    """validates the groups; rejected scenarios become violations (after
    `rerun(names)` repeated them, when given)"""
    names = [g[0]["name"] for g in groups]
    if len(set(names)) != len(names):
        raise core.CheckError("scenario names are not distinct")
    rej = ctx.validate(module, cfg(ctx.prop, extra_cfg), core.chunked(groups, min(core.JOBS, max(1, len(groups)))))
    if rej and rerun:
        nm = list(dict.fromkeys(n for n, _, _ in rej))[:6]
        again = rerun(nm)
        rej2 = ctx.validate(module, cfg(ctx.prop, extra_cfg), core.chunked(again, 1))
        rej = rej2 or core.unrepeated(rej)
    by = {g[0]["name"]: g for g in groups}
    for n, why, ev in rej:
        if describe and (ctx.known_match(describe(n, why, ev, by.get(n)))):
            continue
        ctx.violation("scenario %s: %s" % (n, why), {"scenario": by[n][0] if n in by else n, "event": json.dumps(ev)[:4000]})
    for g in groups:
        ctx.traces += 1
        ctx.evaluations += len(g) - 1
        if nontrivial(g):
            ctx.nontrivial.add(g[0]["name"])
    for g in groups[:: max(1, len(groups) // 3)]:
        ctx.sample(json.loads(json.dumps({"scenario": g[0], "events": len(g), "last": str(g[-1])[:300]})))
    return rej
