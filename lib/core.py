"""Common machinery of the checks: building harnesses from /repo, running TLC,
collecting results, evidence, violations and known findings."""
import json, os, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
OMPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
HDF5I = "/usr/include/hdf5/openmpi"
HDF5L = "/usr/lib/x86_64-linux-gnu/hdf5/openmpi"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class Hang(Exception):
    """a harness that takes seconds has not ended after minutes"""


class CheckError(Exception):
    """The check could not give an answer."""


class Ctx:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.nontrivial = set()
        self.rule = ""
        self.samples = []
        self.notes = []
        self.models = []
        self.extra = {}
        self.violations = []   # (text, replay data)
        self.known_hit = set()
        self.known = load_known(prop)
        self.assumptions = []

    # ---------------------------------------------------------------- build
    def gxx(self, src, out, dim=None, flags=(), libs=True, sim=True, mpi=True, opt="-O1"):
        cmd = ["g++", "-std=gnu++17", opt, "-g0", "-fopenmp", "-w"]
        if mpi:
            cmd += ["-DOMPI_SKIP_MPICXX"]
        if dim:
            cmd += ["-DEXT_GDIMENSION=%d" % dim]
        cmd += ["-DPARALLEL_IO", "-DLOG_STRIP_LEVEL=0",
                "-I%s/shim" % VERIF, "-I%s/sim" % VERIF, "-I%s/harness" % VERIF]
        cmd += list(flags)
        cmd += ["-I%s/include" % REPO, "-I%s/include/tree_topology" % REPO, "-I%s/include/physics" % REPO,
                "-I%s/include/physics/eos" % REPO, "-I%s/mpisph" % REPO,
                "-I%s/app/drivers/include" % REPO,
                "-isystem", OMPI, "-isystem", HDF5I]
        cmd += [src if os.path.isabs(src) else os.path.join(VERIF, "harness", src)]
        if sim:
            cmd += [self.simobj()]
        cmd += ["-o", out]
        if libs:
            cmd += ["-L" + HDF5L, "-lhdf5"]
        if mpi:
            cmd += ["-lmpi"]
        cmd += ["-lgsl", "-lgslcblas"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=self.work)
        if p.returncode:
            raise CheckError("cannot build %s (dim %s):\n%s" % (src, dim, p.stdout[-4000:]))
        return out

    _sim = None

    def simobj(self):
        if self._sim is None:
            o = os.path.join(self.work, "simmpi.o")
            p = subprocess.run(["g++", "-std=gnu++17", "-O2", "-w", "-DOMPI_SKIP_MPICXX", "-I%s/sim" % VERIF,
                                "-isystem", OMPI, "-c", os.path.join(VERIF, "sim", "simmpi.cc"), "-o", o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise CheckError("cannot build simmpi:\n" + p.stdout[-2000:])
            self._sim = o
        return self._sim

    def build(self, jobs):
        """jobs: list of (src, out, dim, kwargs) built in parallel; returns outs"""
        if any(j[3].get("sim", True) for j in jobs):
            self.simobj()
        def one(j):
            src, out, dim, kw = j
            return self.gxx(src, os.path.join(self.work, out), dim, **kw)
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(one, jobs))

    def run(self, cmd, stdin=None, timeout=450, env=None, cwd=None):
        e = dict(os.environ)
        e["OMP_NUM_THREADS"] = "1"
        if env:
            e.update(env)
        try:
            return subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  timeout=timeout, env=e, cwd=cwd or self.work, errors="replace")
        except subprocess.TimeoutExpired:
            raise Hang("the code under test does not come to an end: %s, %d s" % (" ".join(os.path.basename(c) for c in cmd[:3]), timeout))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, name, env=None, workers=1, heap="3g", timeout=800, deadlock=False, extra=()):
        """Runs TLC; returns (ok, stdout, states, distinct)."""
        md = os.path.join(self.work, "md-" + name)
        cf = os.path.join(self.work, name + ".cfg")
        with open(cf, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + self.work,
               "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cf]
        if not deadlock:
            cmd += ["-deadlock"]
        cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                               env=e, cwd=SPEC, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, name))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found, (\d[\d,]*) states left", p.stdout)
        gen = dist = 0
        if m:
            gen, dist = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        ok = "Model checking completed. No error has been found." in p.stdout
        return ok, p.stdout, gen, dist

    def model(self, module, cfg, name, workers=4, heap="4g", timeout=600, deadlock=False, expect=True, env=None):
        """Exhaustive exploration of a model: the design itself must satisfy
        its invariants; this does not depend on the code under test."""
        ok, out, gen, dist = self.tlc(module, cfg, name, workers=workers, heap=heap, timeout=timeout, deadlock=deadlock, env=env)
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name, "module": module, "states": dist, "transitions": gen})
        if ok != expect:
            raise CheckError("model %s (%s): %s\n%s" % (name, module, "unexpected error" if expect else "no error found", out[-3000:]))
        if dist == 0:
            raise CheckError("model %s explored nothing\n%s" % (name, out[-3000:]))
        return out

    def validate(self, module, cfg, chunks, env_extra=None, heap="3g", timeout=800, par=None):
        """Trace validation: every chunk (list of event dicts; a scenario starts
        with e='scenario' and carries name) is checked against `module`.
        Returns list of (scenario name, message)."""
        rejects = []
        def one(i_ch):
            i, ch = i_ch
            path = os.path.join(self.work, "trace-%s-%d.ndjson" % (module, i))
            with open(path, "w") as f:
                for e in ch:
                    f.write(json.dumps(e, separators=(",", ":")) + "\n")
            env = {"TRACE": path}
            if env_extra:
                env.update(env_extra)
            ok, out, gen, dist = self.tlc(module, cfg, "t-%s-%d" % (module, i), env=env, heap=heap, timeout=timeout)
            if not ok or not re.search(r'<<\s*"END",\s*%d\s*>>' % (len(ch) + 1), out):
                k = out.find("Error:")
                raise CheckError("trace validation failed to run (%s chunk %d):\n%s\n...\n%s" % (module, i, out[k:k + 1500], out[-1500:]))
            os.remove(path)
            rj = []
            for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>', out):
                rj.append((m.group(3), "%s: %s (at %s event, line %s)" % (m.group(1), m.group(2), m.group(5), m.group(4)), ch[int(m.group(4)) - 1]))
            ns = len(re.findall(r'<<\s*"SKIP"', out))
            if ns and not rj:
                raise CheckError("skipped scenario without a reason:\n" + out[-2000:])
            return rj, gen, dist
        chunks = [c for c in chunks if c]
        with ThreadPoolExecutor(par or JOBS) as ex:
            for rj, gen, dist in ex.map(one, enumerate(chunks)):
                rejects += rj
                self.states += dist
                self.transitions += gen
        return rejects

    # ------------------------------------------------------------- verdicts
    def violation(self, text, replay):
        self.violations.append((text, replay))

    def known_match(self, key):
        """key identifies a specific input / call site / history."""
        if key in self.known:
            self.known_hit.add(key)
            return True
        return False

    def sample(self, s, n=3):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self):
        rc = 0
        for k in sorted(self.known):
            # a listed finding is always announced
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]))
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                json.dump([{"what": t, "replay": r} for t, r in self.violations[:20]], f, indent=1)
            for t, r in self.violations[:5]:
                print("  " + t)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        cov = {"samples": self.samples or ["see models"]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
            cov["evaluations"] = self.evaluations
            cov["distinct_nontrivial"] = len(self.nontrivial)
            cov["rule"] = self.rule
        else:
            cov.update(evaluations=self.evaluations, distinct_nontrivial=len(self.nontrivial), rule=self.rule)
            cov.update(states=self.states, transitions=self.transitions)
        cov.update(self.extra)
        if self.models:
            cov["models"] = self.models
        if self.notes:
            cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s; states %d, transitions %d, traces %d, evaluations %d, %.1fs" % (
            self.prop, self.tier, "VIOLATED" if rc else "held", self.states, self.transitions, self.traces,
            self.evaluations, time.time() - self.t0))
        return rc

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    """known-findings.txt: lines
       finding: property=<id> key=<key> <what fails>
       fixed: property=<id> <commit> <what failed>      (informational)"""
    r = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def chunked(groups, n):
    """distributes groups (lists of events with a size) over n chunks"""
    chunks = [[] for _ in range(n)]
    load = [0] * n
    for g in sorted(groups, key=lambda g: -len(json.dumps(g))):
        i = load.index(min(load))
        load[i] += len(json.dumps(g))
        chunks[i].append(g)
    out = []
    for c in chunks:
        ev = []
        for g in c:
            g[0]["nx"] = len(ev) + len(g) + 1
            ev += g
        out.append(ev)
    return out


def unrepeated(rej):
    """rejections a second run did not repeat.  Those by the time a run took are the machine's; any other means that
    the code's behaviour is not determined by its input (values never set, say), and counts."""
    return [r for r in rej if not any(w in str(r[2].get("err", "")) if isinstance(r[2], dict) else False
                                      for w in ("(hang)", "step bound", "signal 9", "socketpair", "fork"))]
