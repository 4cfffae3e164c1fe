"""Scenarios for harness/tree.cc and the witnesses TreeTrace.tla verifies."""
import bisect, json, random


def positions(r, dim, n, L, style):
    """n distinct integer positions in [0,L)^dim"""
    used, out = set(), []
    centers = [tuple(r.randrange(L) for _ in range(dim)) for _ in range(r.randint(1, 4))]
    tries = 0
    while len(out) < n:
        tries += 1
        st = style if tries < 20 * n else "uniform"
        if st == "uniform":
            x = tuple(r.randrange(L) for _ in range(dim))
        elif st == "cluster":     # tight clusters far apart
            c = r.choice(centers)
            w = max(1, L // 8)
            x = tuple(min(L - 1, max(0, v + r.randint(-w, w))) for v in c)
        elif st == "line":        # on an axis-parallel line or plane
            c = centers[0]
            k = r.randrange(dim)
            x = tuple(r.randrange(L) if d == k or (dim == 3 and r.random() < .3) else c[d] for d in range(dim))
        elif st == "diag":
            t = r.randrange(L)
            x = tuple(min(L - 1, max(0, t + r.randint(-1, 1))) for _ in range(dim))
        elif st == "corner":      # most in one corner, a few far away
            w = max(2, int((n * 1.5) ** (1.0 / dim)) + 1)
            x = tuple(r.randrange(min(L, w)) if r.random() < .9 else r.randrange(L) for _ in range(dim))
        elif st == "grid":
            k = max(1, int(round(n ** (1.0 / dim))) + 1)
            s = max(1, L // k)
            x = tuple(min(L - 1, r.randrange(k) * s) for _ in range(dim))
        if x in used:
            continue
        used.add(x)
        out.append(x)
    return out


STYLES = ["uniform", "uniform", "cluster", "line", "diag", "corner", "grid"]


def hvals(r, n, L):
    """even smoothing lengths"""
    m = r.randrange(5)
    b = r.choice([2, 2, 4, 6])
    if m == 0:
        return [b] * n
    if m == 1:
        return [r.choice([2, 4, 6, 10]) for _ in range(n)]
    if m == 2:      # one large particle among small ones
        h = [2] * n
        h[r.randrange(n)] = r.choice([8, 16, max(2, L // 2 * 2 // 2 * 2)])
        return [v - v % 2 for v in h]
    if m == 3:      # everything interacts
        return [2 * L if r.random() < .2 else 2 * (L // 2) for _ in range(n)]
    return [r.choice([2, 12]) for _ in range(n)]


def gen(seed, dim, count, mode, nr_max=8, nmax=60, iters=(1, 2), rounds=(1, 2), mac=None, attrs=False, distinct_iters=True, big=0):
    """returns list of (name, text)"""
    r = random.Random(seed * 1000 + dim)
    out = []
    for s in range(count):
        isbig = s < big
        nr = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        nr = min(nr, nr_max)
        n = r.randint(max(2, nr), max(nr + 1, r.choice([nr * 2, nr * 4, nmax // 2, nmax])))
        if isbig:
            nr = r.choice([1, 2, 3])
            n = 150 * nr + r.randint(0, 30)
        L = {1: r.choice([256, 512, 1000]), 2: r.choice([8, 16, 48, 64]), 3: r.choice([4, 8, 16, 32])}[dim]
        if isbig:
            L = {1: 1000, 2: 64, 3: 32}[dim]
        n = max(nr, min(n, L ** dim // 2))
        n = max(n, 2)
        name = "d%d-%d-%d" % (dim, seed, s)
        it = r.randint(*iters) if not isbig else 1
        ro = r.randint(*rounds) if not isbig else 1
        lines = ["scenario %s %d %d %d %d %d %d %d %d" % (
            name, nr, r.randint(1, 10 ** 6), r.randint(0, 4), r.randint(0, 1), mode | (64 if attrs else 0),
            r.choice(mac) if mac else 60, ro, it)]
        xs = positions(r, dim, n, L, r.choice(STYLES))
        hs = hvals(r, n, L)
        base = [k % nr for k in range(n)]
        how = r.randrange(5)
        if how == 0:
            r.shuffle(base)
        elif how == 1:
            base.sort()
        elif how == 3:      # any split, some ranks may have nothing
            base = [r.randrange(nr) for _ in range(n)]
        elif how == 4:      # nearly everything on one rank
            k = r.randrange(nr)
            base = [k if r.random() < .9 else r.randrange(nr) for _ in range(n)]
        for i in range(n):
            lines.append("p %d %d %s %d %d" % (i + 1, base[i], " ".join(map(str, xs[i])), hs[i], r.randint(1, 3)))
        for k in range(2, it + 1):
            if r.random() < .5:
                xs = positions(r, dim, n, L, r.choice(STYLES))
            else:   # small moves
                used = set(xs)
                for i in range(n):
                    y = tuple(min(L - 1, max(0, v + r.randint(-1, 1))) for v in xs[i])
                    if y not in used:
                        used.discard(xs[i])
                        used.add(y)
                        xs[i] = y
            hs = hvals(r, n, L)
            for i in range(n):
                lines.append("q %d %d %s %d" % (k, i + 1, " ".join(map(str, xs[i])), hs[i]))
        lines.append("end")
        out.append((name, "\n".join(lines) + "\n"))
    return out


def wide(seed, count, mode, attrs=False):
    """many ranks on a line, everything opened: some rank sends more than a
    hundred messages in one traversal"""
    r = random.Random(seed * 1000 + 77)
    out = []
    for s in range(count):
        nr = r.choice([16, 17, 19])
        n = 12 * nr + r.randint(0, 16)
        name = "w-%d-%d" % (seed, s)
        xs = positions(r, 1, n, 1000, "uniform")
        lines = ["scenario %s %d %d %d %d %d %d 1 1" % (name, nr, r.randint(1, 10 ** 6), s % 5, s // 5 % 2, mode | (64 if attrs else 0), 0)]
        lines += ["p %d %d %d %d %d" % (i + 1, i % nr, xs[i][0], 2000 if mode & 4 and s % 2 else 4, 1 + i % 3) for i in range(n)]
        out.append((name, "\n".join(lines + ["end"]) + "\n"))
    return out


def small(seed, dim, mode, every, mac=None, attrs=False):
    """every particle set on a tiny grid, on 1-4 ranks, each with one of four
    patterns of smoothing lengths; of these one in `every`, which ones by the seed"""
    side = {1: (8,), 2: (3, 3), 3: (2, 2, 2)}[dim]
    pts = [()]
    for s in side:
        pts = [p + (k,) for p in pts for k in range(s)]
    out, i = [], 0
    for nr in (1, 2, 3, 4):
        for m in range(1 << len(pts)):
            S = [pts[b] for b in range(len(pts)) if m >> b & 1]
            if len(S) < max(2, nr):
                continue
            i += 1
            if (i * 2654435761 // 65536 + seed) % every:
                continue
            r = random.Random(i * 7919 + dim)
            pat = r.randrange(4)
            step = r.choice([1, 3, 16])
            lines = ["scenario e%d-%d-%d %d %d %d %d %d %d 1 1" % (dim, nr, m, nr, i, r.randrange(5), r.randrange(2), mode | (64 if attrs else 0), r.choice(mac) if mac else 60)]
            for k, x in enumerate(S):
                h = [2, 2 * step, 2 if k else 20 * step, 2 * (1 + k % 3)][pat]
                lines.append("p %d %d %s %d %d" % (k + 1, k % nr if i % 3 else k * nr // len(S), " ".join(str(v * step) for v in x), h, 1 + k % 3))
            out.append(("e%d-%d-%d" % (dim, nr, m), "\n".join(lines + ["end"]) + "\n"))
    return out


NET = ("send", "match", "coll", "exit", "enter", "leave")


def annotate(text):
    """parses harness output; returns list of scenarios (list of events) with
    the witnesses added: cells sorted by key, parent index pa, children kids,
    interval a..b of the global order, index sv in the owner's dump."""
    out, cur, net = [], [], []
    for line in text.splitlines():
        if not line.startswith("{"):
            continue
        e = json.loads(line)
        if e["e"] in NET:
            net.append(e)
            continue
        cur.append(e)
        if e["e"] == "finish":
            cur[0]["net"], net = net, []
            if not e["ok"]:
                cur = [cur[0], e]
            else:
                _witness(cur)
            out.append(cur)
            cur = []
    return out


def _witness(cur):
    nr = cur[0]["nr"]
    gk, n, i = [], len(cur), 0
    while i < n:
        e = cur[i]
        if e["e"] == "sorted":
            g = sorted(cur[i:i + nr], key=lambda e: e["r"])
            gk = [tuple(k) for x in g for k in x["keys"]]
            i += nr
        elif e["e"] in ("tree", "tree2"):
            g = cur[i:i + nr]
            idx = {}
            for t in g:
                t["cells"].sort(key=lambda c: c["k"])
                idx[t["r"]] = {tuple(c["k"]): j + 1 for j, c in enumerate(t["cells"])}
            for t in g:
                me = idx[t["r"]]
                for c in t["cells"]:
                    c["kids"] = []
                for j, c in enumerate(t["cells"]):
                    k = tuple(c["k"])
                    c["pa"] = me.get(k[:-1], 0) if k else 0
                    if c["pa"]:
                        t["cells"][c["pa"] - 1]["kids"].append(j + 1)
                    c["a"] = bisect.bisect_left(gk, k) + 1
                    c["b"] = bisect.bisect_left(gk, k + (99,))
                    c["sv"] = idx.get(c["own"], {}).get(k, 0)
            i += nr
        else:
            if e["e"] in ("c2c", "p2c", "c2p"):
                e["ka"], e["kb"] = _iv(gk, e["k"])
            if e["e"] == "c2c":
                e["qa"], e["qb"] = _iv(gk, e["q"])
            if e["e"] == "p2p":
                e["qa"], e["qb"] = _iv(gk, e["q"][0]) if e["q"] else (1, 0)
            i += 1


def _iv(gk, k):
    k = tuple(k)
    return bisect.bisect_left(gk, k) + 1, bisect.bisect_left(gk, k + (99,))
