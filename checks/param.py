"""C16: parameter files against ParamTrace.tla."""
import glob, os, random, re
import core, seqtrace

H = os.path.join(core.VERIF, "harness")
TYPES = dict(re.findall(r"P_(\w+)\((\w+)\)", open(os.path.join(H, "param_table.h")).read()) and
             [(n, t) for t, n in re.findall(r"P_(\w+)\((\w+)\)", open(os.path.join(H, "param_table.h")).read())])
WORDS = {"sph_kernel": ["cubic spline", "quintic_spline", "Wendland C2", "wendland_c4", "WENDLAND C6", "gaussian", "super gaussian", "sinc_ker"],
         "eos_type": ["ideal fluid", "polytropic", "wd", "White Dwarf", "ppt", "piecewise_polytropic", "no eos", "none"],
         "sph_viscosity": ["constant", "Cullen"]}


def good(r, n, t):
    if t == "bool":
        return r.choice(["yes", "no", "true", "false", "FALSE", "Yes"])
    if t == "word":
        return r.choice(WORDS[n])
    if t == "string":
        return "".join(r.choice("abcXYZ019_-+.:,/ #=") for _ in range(r.randint(0, 24)))
    if t == "double":
        k = r.randint(0, 7)
        s = r.choice(["", "", "-", "+"])
        if k == 0:
            return s + str(r.randint(0, 10 ** r.randint(1, 9)))
        if k == 1:
            return s + "%d." % r.randint(0, 999)
        if k == 2:
            return s + ".%d" % r.randint(0, 999)
        if k == 3:
            return s + "%d.e%d" % (r.randint(0, 9), r.randint(-30, 30))
        if k == 4:
            return s + "%dE+%d" % (r.randint(1, 99), r.randint(0, 40))
        if k == 5:
            return s + "%.*g" % (r.randint(1, 14), r.uniform(0, 1) * 10. ** r.randint(-12, 12))
        return s + "%.*f" % (r.randint(1, 8), r.uniform(0, 1000))
    if t == "ushort":
        return str(r.choice([0, 1, 2, 5, 65535, r.randint(0, 65535)]))
    m = 2 ** 31 if t == "int" else 2 ** 63
    v = r.choice([0, 1, -1, 10, 100, 5000, m - 1, 1 - m, r.randint(-m + 1, m - 1), r.randint(0, 10 ** 6)])
    s = str(v)
    if r.random() < .15:
        s = "+" + s if v >= 0 else s
    if r.random() < .1:
        s = s[0] + "00" + s[1:] if s[0] in "+-" else "00" + s
    return s


def bad(r, n, t):
    if t == "bool":
        return r.choice(["maybe", "ye", "yess", "0.5", "noo", "y es", "t", "off!", "# yes"])
    if t == "word":
        return r.choice(["cubic", "nothing", "wendland c", "constantly", "idealfluid", "-", "0x", "wd2", "cullen2"])
    if t == "string":
        return None
    g = good(r, n, t)
    if t == "double":
        return r.choice(["abc", g + "x", g + " 2", "1e", "1e+", ".", "-", "1,5", "1..2", "--1", "1.0.0", "e5", "1e5.5", "1 e5", "yes", "1_000"])
    big = {"int": "2147483648", "int64": "9223372036854775808", "ushort": "65536"}[t]
    return r.choice(["abc", g + "x", g + " 2", "1.5", "1e4", "1.", "-", "--1", "yes", big, big + "0", "1,000", "0x10"] + (["-1"] if t == "ushort" else ["-" + big + "1"]))


def ws(r):
    return "".join(r.choice(" \t") for _ in range(r.choice([0, 0, 1, 1, 2, 5])))


def quote(r, n, t, v):
    q = r.choice("'\"")
    if t == "string":
        need = v == "" or v != v.strip() or "#" in v or v[0] in "'\""
        if need or r.random() < .7:
            return q + v + q
        return v
    return q + v + q if r.random() < .25 and v == v.strip() else v


def assign(r, n, t, v):
    c = r.choice(["", "", "", "# comment", "  # x = 5", "#'", "# \"quoted\" = 1", "#"])
    return ws(r) + n + ws(r) + "=" + ws(r) + quote(r, n, t, v) + ws(r) + c + r.choice(["", "", "", "\t", " ", "\r"])


def noise(r):
    return r.choice(["", "", " ", "\t \t", "# comment", "  # nparticles = 7", "#poly_gamma=3", "\t# 'x'", "#"])


def files(ctx):
    r = random.Random(ctx.seed * 7919 + 13)
    out = []
    names = sorted(TYPES)
    big = ctx.tier == "thorough"

    def add(name, lines, nl=True):
        out.append((name, "\n".join(lines) + ("\n" if nl else "")))
    # every parameter alone, several values, each with another parameter before and after
    for n in names:
        for k in range(8 if big else 3):
            o = [x for x in r.sample(names, 4) if x != n]
            L = [assign(r, n, TYPES[n], good(r, n, TYPES[n]))]
            if k:
                L = [assign(r, o[0], TYPES[o[0]], good(r, o[0], TYPES[o[0]])), noise(r)] + L + [assign(r, o[1], TYPES[o[1]], good(r, o[1], TYPES[o[1]]))]
            add("one.%s.%d" % (n, k), L, r.random() < .7)
    for t in WORDS:
        for i, w in enumerate(WORDS[t]):
            add("word.%s.%d" % (t, i), ["%s = %s" % (t, r.choice(['"%s"', "'%s'", "%s"]) % w)])
    # many parameters, any order
    for k in range(60 if big else 12):
        L = []
        for n in r.sample(names, r.randint(4, 40)):
            L += [noise(r)] if r.random() < .3 else []
            L.append(assign(r, n, TYPES[n], good(r, n, TYPES[n])))
        if k % 3 == 0:  # the last assignment counts
            n = r.choice(names)
            L += [assign(r, n, TYPES[n], good(r, n, TYPES[n])) for _ in range(2)]
        add("many.%d" % k, L, k % 2 == 0)
    # malformed values
    for n in names:
        for k in range(4 if big else 1):
            v = bad(r, n, TYPES[n])
            if v is None:
                continue
            o = [x for x in r.sample(names, 4) if x != n]
            L = [assign(r, o[0], TYPES[o[0]], good(r, o[0], TYPES[o[0]])), "%s%s=%s%s%s" % (n, ws(r), ws(r), v, ws(r)), assign(r, o[1], TYPES[o[1]], good(r, o[1], TYPES[o[1]]))]
            add("bad.%s.%d" % (n, k), L[: r.choice([2, 3])])
    # unknown names, lines without value
    for k in range(60 if big else 14):
        n = r.choice(names)
        t = TYPES[n]
        L = [assign(r, n, t, good(r, n, t)) for _ in range(r.randint(0, 2))]
        e = r.choice(["%s", "%s = ", " = 5", "nparticle = 7", "n_particles = 7", "%s_ = 1", "x%s = 1", "NPARTICLES = 5", "%s: 5", "hello", "= = =", "%s = # nothing",
                      "Sph_eta = 1.0", "%s = '\"", "%s = \"a", "initial_data_prefix = 'a' b", "initial_data_prefix = \"a' # b"])
        if k % 3 == 0:            # close to a name, or as long as the longest
            j = r.randrange(1, len(n))
            e = r.choice([n[:j] + "x" + n[j:], n[:j] + n[j + 1:], n + "_" + n, n[:j], "relaxation_repulsion_gammma_%s" % n,
                          "no_such_parameter_with_a_really_long_name", n.replace("_", "", 1) if "_" in n else n + "2"])
            e = (e if e not in TYPES else "x" + n) + " = 1"
        L.append(e.replace("%s", n))
        L += [assign(r, n, t, good(r, n, t)) for _ in range(r.randint(0, 1))]
        add("error.%d" % k, L)
    for k, ln in enumerate((0, 1, 255, 256, 509, 510, 511, 512, 700)):
        add("long.%d" % ln, ["output_h5data_prefix = '%s'" % ("a" * ln), "nparticles = 77", "out_screen_every = 5"])
        if k % 2:
            add("longc.%d" % ln, ["nparticles = 77 # %s" % ("c" * ln)])
    add("empty", [], False)
    add("blank", ["", "  ", "#"])
    # the files shipped with the code
    for f in sorted(glob.glob(os.path.join(core.REPO, "data", "**", "*.par"), recursive=True)):
        out.append(("shipped." + os.path.relpath(f, core.REPO).replace(" ", "_"), open(f, encoding="latin-1").read().encode("ascii", "replace").decode()))
    return out


def check(ctx):
    (b,) = ctx.build([("param.cc", "param", None, {})])
    r = random.Random(ctx.seed)
    d = os.path.join(ctx.work, "par")
    os.makedirs(d, exist_ok=True)
    rows = []
    for i, (name, text) in enumerate(files(ctx)):
        p = os.path.join(d, "%d.par" % i)
        with open(p, "w", newline="") as f:
            f.write(text)
        nr = 1 + i % 4 if not name.startswith("many") else r.choice([1, 2, 3, 5, 8])
        rows.append("%s %d %d %s" % (name, nr, r.randint(0, 4), p))
    rows.append("missing 2 0 %s" % os.path.join(d, "no-such-file.par"))
    parts = [rows[i::core.JOBS] for i in range(core.JOBS)]
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        lp = os.path.join(ctx.work, "list%d" % i)
        open(lp, "w").write("\n".join(parts[i]) + "\n")
        return ctx.run([b, str(ctx.seed), lp])
    groups = []
    with ThreadPoolExecutor(core.JOBS) as ex:
        for p in ex.map(one, range(core.JOBS)):
            if p.returncode:
                raise core.CheckError("harness stopped (%d): %s" % (p.returncode, p.stderr[-500:]))
            groups += seqtrace.split(p.stdout)
    seqtrace.judge(ctx, "ParamTrace", groups)
    ctx.rule = ("every parameter with generated well-formed and malformed values, spacing, comments, quoting, order; unknown names; "
                "lines without value; over-long strings; every parameter file shipped; read by 1-8 simulated ranks")
    ctx.assumptions = ["numbers have at most 15 significant digits", "no parameter is fixed by a preprocessor definition"]
