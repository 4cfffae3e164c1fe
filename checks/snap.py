"""C14, C15: histories of runs of the real snapshot code (real MPI and HDF5,
in a scratch directory) against SnapTrace.tla."""
import json, os, random, shutil, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import core, seqtrace

WRAP = "-Wl,--wrap=access,--wrap=remove,--wrap=unlink,--wrap=rename"
PREFIXES = ["run", "in", "sub/run", "sub/in", "a_b", "out_00001", "run_a", "sub/deep/x", "./dot", "r"]
FOREIGN = ["run_00001.h5part.bak", "run_0001.h5part", "run_000001.h5part", "run_00001.txt", "prerun_00002.h5part",
           "run_x0001.h5part", "12.h5part.old", "sub/runx_00001.h5part", "sub/in_0.h5part", "run_00003_h5part", "xin_00000.h5part", "5.dat"]


def hexd(v):
    return "%x" % struct.unpack("<Q", struct.pack("<d", v + 0.0))


def gen(seed, dim, count):
    """a history: list of ('session', ranks, sep, [ops]) | ('strip', file, step) | ('foreign', name, text)"""
    r = random.Random(seed * 104729 + dim)
    out = []
    for s in range(count):
        sep0 = r.randrange(2) if s % 11 != 5 else 1
        layout = {}                       # prefix -> (sep, {step: iteration})
        ver = [r.randrange(100)]
        H = []
        names = r.sample(PREFIXES, 3)
        twin = [p for p in names if p.startswith("sub/")]
        for f in r.sample(FOREIGN, r.randint(0, 3)):
            H.append(("foreign", f, "x" * r.randint(1, 50)))
        if twin and r.random() < .7:      # same base name elsewhere
            b = os.path.basename(twin[0])
            if b not in names:
                H.append(("foreign", "%s_%05d.h5part" % (b, r.randint(0, 4)), "keep"))
                if r.random() < .5:
                    H.append(("foreign", b + ".h5part", "keep"))

        def fill(nr):
            ver[0] += 1
            n = r.choice([1, 2, nr, nr + 1, r.randint(1, 8), r.randint(5, 25)])
            n = max(n, 1)
            m = r.randrange(4)
            own = [r.randrange(nr) if m else i * nr // n for i in range(n)]
            if m == 3:
                own = [r.choice([0, nr - 1]) for _ in range(n)]
            return "fill %d %s" % (ver[0], " ".join(map(str, own)))

        def tdt():
            return "%r %r" % (round(r.random() * 10, r.randint(0, 6)), r.choice([0.1, 1e-7, 1. / 3]))
        # initial data
        a = names[0]
        nr = r.randint(1, 5)
        sep = sep0
        H.append(("session", nr, sep, 0, [fill(nr), "write %s 0 %s" % (a, tdt())]))
        layout[a] = [sep, {0: 0}]
        for _ in range(r.randint(1, 4) if s % 11 != 5 else 3):
            nr = r.randint(1, 5)
            src = r.choice(list(layout))
            if s % 11 == 5 and _:
                src = max(layout, key=lambda k: len(layout[k][1]))
            lsep, steps = layout[src]
            if r.random() < .35:
                f = ("%s_%05d.h5part" % (src, max(steps)), max(steps)) if lsep else (src + ".h5part", r.choice(list(steps)))
                if 0 in steps or r.random() < .5:
                    H.append(("strip", f[0], f[1]))
            x = r.random()
            if x < .12:                   # an iteration that is not there
                start = r.choice([i for i in range(1, 60) if i not in steps.values()])
            elif x < .4 and len(steps) > 1:
                start = r.choice(list(steps.values()))
            else:
                start = steps[max(steps)]
            if len(steps) > 1 and r.random() < .15:      # an iteration between those that are there
                lo, hi = min(steps.values()), max(steps.values())
                between = [i for i in range(lo + 1, hi) if i not in steps.values()]
                start = r.choice(between) if between else start
            if r.random() < .04:
                src, start = "nothere", r.choice([0, 5])
            out_ = src if r.random() < .5 and src in layout else r.choice(names)
            rew = lsep if src in layout and len(steps) > 1 and max(steps.values()) and (r.random() < .4 or s % 11 == 5) else 0
            if rew:                       # back to an earlier iteration of the same output, few or no new snapshots
                out_ = src
                start = r.choice([i for i in steps.values() if i])
            sep = layout[out_][0] if out_ in layout else (sep0 if r.random() < .8 else 1 - sep0)
            ops = ["read %s %s %d" % (src, out_, start)]
            it = start
            many = s % 11 == 5 and _ == 0      # two-digit numbers
            for k in range(r.choice([0, 0, 1]) if rew else r.randint(10, 22) if many else r.randint(0, 4)):
                if k or r.random() < .5:
                    it += r.randint(1, 9)
                if r.random() < (.2 if many else .8):
                    ops.append(fill(nr))
                ops.append("write %s %d %s" % (out_, it, tdt()))
            H.append(("session", nr, sep, start, ops))
            # what will be there (the judge is the specification, this only steers)
            if src not in layout:
                continue
            hit = [k for k in sorted(steps) if steps[k] == start] if start else [0] * (0 in steps)
            if not hit or (out_ == src and (start == 0 if sep else hit[0] != max(steps))):
                continue
            new = {} if out_ != src else {k: v for k, v in steps.items() if k <= hit[0]}
            nxt = 0 if out_ != src else hit[0] + 1
            for o in ops:
                w = o.split()
                if w[0] == "write" and not (out_ == src and int(w[2]) == start):
                    new[nxt] = int(w[2])
                    nxt += 1
            layout[out_] = [sep, new]
            if not new:
                del layout[out_]
                if not layout:
                    break
        out.append(("s%d-%d-%d" % (dim, seed, s), H))
    return out


def listing(root, h5d):
    names = []
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            names.append(p if os.path.islink(p) else os.path.relpath(p, root))
    names.sort()
    h5 = [n for n in names if n.endswith(".h5part")]
    res = {}
    if h5:
        p = subprocess.run([h5d, "dump"] + h5, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        for ln in p.stdout.splitlines():
            e = json.loads(ln)
            res[e["file"]] = e
    out = []
    for n in names:
        e = res.get(n)
        if e is None or not e["h5"]:
            e = dict(file=n, h5=False, size=os.path.getsize(os.path.join(root, n)))
        out.append(e)
    return out


def play(ctx, bins, h5d, dim, name, H):
    if ctx.hangs >= 6 or time.time() - ctx.begin > (420 if ctx.quick else 1e9):
        return []                # enough to report; the remaining histories would exhaust the time
    top = os.path.join(ctx.work, "hist", name)
    if os.path.exists(top):
        shutil.rmtree(top)
    root = os.path.join(top, "w")
    for d in ("sub/deep",):
        os.makedirs(os.path.join(root, d))
    tmp = os.path.join("/tmp", "fs-" + name + "-" + str(os.getpid()))     # short path for MPI's sockets
    os.makedirs(tmp, exist_ok=True)
    ev = [dict(e="scenario", name=name, dim=dim)]
    canon = lambda f: os.path.normpath(f)
    try:
        for i, h in enumerate(H):
            if h[0] == "foreign":
                p = os.path.join(root, h[1])
                if os.path.exists(p):
                    continue
                with open(p, "w") as f:
                    f.write(h[2])
                ev.append(dict(e="foreign", file=h[1], size=len(h[2])))
            elif h[0] == "strip":
                if not os.path.exists(os.path.join(root, h[1])):
                    continue
                p = subprocess.run([h5d, "strip", h[1], str(h[2]), "id"], cwd=root)
                if p.returncode == 0:
                    ev.append(dict(e="strip", file=canon(h[1]), s=h[2], name="id"))
            else:
                _, nr, sep, start, ops = h
                scr, log = os.path.join(top, "script"), os.path.join(top, "log")
                for k in range(nr):
                    if os.path.exists("%s.%d" % (log, k)):
                        os.remove("%s.%d" % (log, k))
                lines = ["sep %d" % sep, "init %d" % start] + ops
                with open(scr, "w") as f:
                    f.write("\n".join(lines) + "\n")
                ev.append(dict(e="session", np=nr, sep=sep))
                hang = False
                env = dict(os.environ, TMPDIR=tmp, OMP_NUM_THREADS="1", OMPI_MCA_btl="self,vader", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_mpi_yield_when_idle="1")
                pr = subprocess.Popen(["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(nr), bins[dim], scr, log, root, str(hash_(name, i))],
                                      cwd=root, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                try:
                    rc = pr.wait(timeout=60)
                except subprocess.TimeoutExpired:
                    os.killpg(pr.pid, 9)
                    pr.wait()
                    subprocess.run(["pkill", "-9", "-f", scr], stdout=subprocess.DEVNULL)
                    rc, hang = -1, True
                    ctx.hangs += 1
                got, ends = {}, 0
                for k in range(nr):
                    try:
                        with open("%s.%d" % (log, k)) as f:
                            for ln in f:
                                try:
                                    e = json.loads(ln)
                                except ValueError:
                                    continue
                                if e["e"] == "end":
                                    ends += 1
                                else:
                                    got[e["e"], e["k"], k] = e
                    except FileNotFoundError:
                        pass
                for j, o in enumerate(lines):
                    w = o.split()
                    if w[0] not in ("read", "write"):
                        continue
                    q = [got.get((w[0], j + 1, k)) for k in range(nr)]
                    if w[0] == "read":
                        ok = all(q)
                        e = dict(e="read", out=canon(w[2]), start=int(w[3]), ok=ok)
                        e["in"] = canon(w[1])
                        if ok:
                            e.update(p=[x["p"] for x in q], nloc=[x["nloc"] for x in q], ntot=[x["ntot"] for x in q], t=[x["t"] for x in q], dt=[x["dt"] for x in q])
                    else:
                        if not all(q):
                            break
                        ok = all(("wrote", j + 1, k) in got for k in range(nr))
                        e = dict(e="write", prefix=canon(w[1]), it=int(w[2]), t=hexd(float(w[3])), dt=hexd(float(w[4])), p=[x["p"] for x in q], ok=ok)
                    ev.append(e)
                    if not ok:
                        break
                ev.append(dict(e="end", ok=rc == 0 and ends == nr, hang=hang))
                ev.append(dict(e="files", files=listing(root, h5d)))
                if hang:
                    break
    finally:
        shutil.rmtree(top, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    return ev


def hash_(name, i):
    v = i + 1
    for c in name:
        v = (v * 131 + ord(c)) % 1000003
    return v


def check(ctx):
    dims = (1, 2, 3)
    b = ctx.build([("snap.cc", "snap%d" % d, d, dict(flags=[WRAP], sim=False)) for d in dims] + [("h5d.cc", "h5d", None, dict(sim=False))])
    bins, h5d = dict(zip(dims, b)), b[3]
    ctx.hangs, ctx.begin = 0, time.time()
    todo = {}
    for row in zip(*[[(d, n, H) for n, H in gen(ctx.seed, d, 22 if ctx.quick else 400)] for d in dims]):
        for d, n, H in row:
            todo[n] = (d, H)

    def run(names):
        if len(names) < len(todo):
            ctx.hangs, ctx.begin = 0, time.time()        # a repetition of single histories
        with ThreadPoolExecutor(core.JOBS) as ex:
            return [g for g in ex.map(lambda n: play(ctx, bins, h5d, todo[n][0], n, todo[n][1]), names) if g]
    groups = run(list(todo))
    if ctx.prop == "C15":
        for sep in ("TRUE", "FALSE"):
            runs, mi = (3, 3) if ctx.quick else (4, 4)
            ctx.model("SnapModel", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Sep = %s\nRuns = %d\nMaxIt = %d\nMaxStep = %d\n"
                      "INVARIANTS Numbered OneHistory Content OnlyLater Found\n" % (sep, runs, mi, mi + 1), "histories-" + sep, timeout=3000)
    seqtrace.judge(ctx, "SnapTrace", groups, extra_cfg="CONSTANT MaxStep = 40\n", rerun=run, nontrivial=lambda g: sum(e["e"] == "session" for e in g) > 1)
    ctx.rule = ("random histories: initial data, then up to four runs which resume from present, earlier or absent iterations into the same or another prefix, "
                "prefixes with and without directory, both layouts, foreign files with similar names, 1-5 ranks with uneven and empty shares, ranks that see the file system at different moments, removed id datasets, 1-25 particles, dimensions 1-3; "
                "after every run the directory is read back by a separate program")
    ctx.assumptions = ["one layout per prefix in a history", "a prefix is always spelled alike", "finite values (no NaN)"]
