"""Generate from the specification, observe the real library, validate against the specification."""
import concurrent.futures as cf
import itertools, json, os, random, re, shutil, subprocess, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
GOENV = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off")


class Broken(Exception):
    """The check itself did not work: no verdict."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%s" % (seed, prop))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.observed = self.borne = 0
        self.generated = {}
        self.actions = {}
        self.samples = []
        self.notes = []
        self.violations = []   # (case(s), reason)
        self.counter = itertools.count(1)
        self.lock = threading.Lock()
        self.driver = None

    def path(self, name):
        return os.path.join(self.work, "%05d-%s" % (next(self.counter), name))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # -- building -------------------------------------------------------------
    def build(self, race=False):
        out = os.path.join(self.work, "driver-race" if race else "driver")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = sh(cmd, cwd=DRIVER, env=GOENV)
        if p.returncode != 0:
            raise Broken("the driver does not build:\n" + p.stderr.decode())
        if not race:
            self.driver = out
        return out

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, env=None, workers=1, args=(), heap="3g", timeout=800, config=None):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-lncheck", "final",
               "-config", (config or module) + ".cfg"] + list(args) + [module + ".tla"]
        try:
            p = sh(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC took too long on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode(errors="replace")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            with self.lock:
                self.transitions += int(m[-1][0].replace(",", ""))
                self.states += int(m[-1][1].replace(",", ""))
        return p.returncode, out

    def model_check(self, module, env=None, what="", workers=CORES, args=(), config=None, timeout=800):
        """A model that has to satisfy its own properties."""
        code, out = self.tlc(module, env, workers=workers, args=args, config=config, timeout=timeout)
        if code != 0:
            raise Broken("the specification %s violates its own properties:\n%s" % (module, tail(out)))
        return out

    def params(self, **kw):
        p = {"job": "", "years": [], "few": [], "cycle": [], "hours": [0], "minutes": [0], "seconds": [0],
             "alphabet": [], "what": "", "edits": 0, "length": 0, "design": False}
        p.update(kw)
        f = self.path("params.json")
        with open(f, "w") as h:
            json.dump(p, h)
        return f

    def texts(self, limit=None, walks=0, depth=60, rng=None, **kw):
        """All the texts of a job of Typist, or those of some random walks."""
        rng = rng or self.rng
        args = ["-simulate", "num=%d" % walks, "-depth", str(depth), "-seed", str(rng.randint(1, 1 << 30))] if walks else []
        code, out = self.tlc("Typist", {"PARAMS": self.params(**kw)}, workers=1 if walks else CORES, heap="6g", args=args)
        if code != 0:
            raise Broken("Typist, job %s:\n%s" % (kw.get("job"), tail(re.sub(r'"TEXT .*"\n', "", out))))
        texts = sorted({t.replace("\\\\", "\\").replace('\\"', '"') for t in re.findall(r'^"TEXT (.*)"$', out, re.M)})
        if not texts:
            raise Broken("Typist has no texts for %s" % kw.get("job"))
        self.generated[kw["job"]] = self.generated.get(kw["job"], 0) + len(texts)
        if limit and len(texts) > limit:
            texts = rng.sample(texts, limit)
        rng.shuffle(texts)
        return texts

    # -- observing ------------------------------------------------------------
    def observe(self, cases, name="obs", driver=None, env=None):
        """Runs the driver on the cases, in one process. Gives the file of observations, and the case that it died of."""
        f, at = self.path(name), self.path("at")
        data = "".join(json.dumps(c) + "\n" for c in cases).encode()
        with open(f, "wb") as out:
            try:
                p = subprocess.run([driver or self.driver, "observe"], input=data, stdout=out, stderr=subprocess.PIPE,
                                   env=dict(os.environ, DRIVER_AT=at, **(env or {})), timeout=700)
            except subprocess.TimeoutExpired:
                raise Broken("the driver took too long")
        died = None
        if p.returncode != 0:
            err = p.stderr.decode(errors="replace")
            n = 0
            try:
                n = int(open(at).read().split()[-1])
            except Exception:
                pass
            if n == 0 or "driver: " in err and "memory exhausted" not in err:
                raise Broken("the driver failed: " + err[-2000:])
            died = (n, err)
            lines = open(f, "rb").read().split(b"\n")
            with open(f, "wb") as out:  # only whole lines
                for x in lines[:-1]:
                    out.write(x + b"\n")
        return f, died

    def validate(self, f, prop=None):
        """Checks a file of observations against Observe. Gives [(number of the case, reason)], and how many had a bearing."""
        lines = open(f, "rb").read().splitlines(keepends=True)
        bad, borne, at = [], 0, 0
        for _ in range(4):
            if at >= len(lines):
                break
            part = f
            if at:
                part = self.path("rest")
                with open(part, "wb") as h:
                    h.writelines(lines[at:])
            n = len(lines) - at
            code, out = self.tlc("Observe", {"OBS": part, "PROP": prop or self.prop}, heap="3g")
            if at:
                os.unlink(part)
            rejects = [(int(a), b) for a, b in re.findall(r'^"REJECT (\d+) (.*)"$', out, re.M)]
            bad += rejects
            m = re.findall(r'^"DONE (\d+) (\d+) (\d+)"$', out, re.M)
            if code == 0 and m and int(m[-1][0]) == n and int(m[-1][1]) == len(rejects):
                return bad, borne + int(m[-1][2])
            # an observation of a shape that the laws cannot even be evaluated on
            stuck = re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
            odd = re.search(r"(Attempted to [^\n]*|In applying the function[^\n]*|The function[^\n]*|Evaluating an expression[^\n]*)", out)
            if not stuck or not odd or "OutOfMemory" in out:
                raise Broken("validation failed:\n" + tail(out))
            k = int(stuck[-1])
            bad.append((json.loads(lines[at + k - 1])["n"], "not like any observation that the specification knows: " + odd.group(1)[:150]))
            borne += k
            at += k
        return bad, borne

    def shard(self, cases, env=None):
        """Observe and validate some cases: [(number, reason)], how many were observed, how many had a bearing, the first."""
        f, died = self.observe(cases, env=env)
        try:
            bad, borne = self.validate(f)
            done, first = 0, None
            with open(f) as h:
                for line in h:
                    first = first or line
                    done += 1
        finally:
            os.unlink(f)
        if died:
            bad = bad + [(died[0], "the process dies: " + first_line(died[1]))]
        return bad, done, borne, first

    def check(self, cases, size=12000, env=None):
        """Observe and validate cases, in parallel; what is rejected becomes a violation."""
        if not self.driver:
            self.build()
        k = max(CORES, -(-len(cases) // size))
        step = -(-len(cases) // k)
        shards = [cases[i:i + step] for i in range(0, len(cases), step)]
        with cf.ThreadPoolExecutor(CORES) as ex:
            for shard, (bad, done, borne, first) in zip(shards, ex.map(lambda x: self.shard(x, env), shards)):
                self.observed += done
                self.borne += borne
                for n, why in bad:
                    self.violation([shard[n - 1]], why, history=shard[:n], env=env)
                if first and len(self.samples) < 6:
                    o = json.loads(first)
                    self.samples.append({"operation": o.get("k"), "of": o.get("s", o.get("sa", o.get("sd"))), "observed": brief(o)})

    def violation(self, cases, why, history=None, env=None):
        with self.lock:
            self.violations.append({"cases": cases, "why": why, "history": history, "env": env})


def brief(o):
    out = {}
    for k, v in o.items():
        if k in ("in", "k", "s", "n", "ac", "bc"):
            continue
        t = json.dumps(v)
        out[k] = v if len(t) < 300 else t[:300] + "..."
    return out


def tail(s, n=3000):
    return s[-n:]


def first_line(s):
    for x in s.splitlines():
        if x.strip():
            return x.strip()[:200]
    return ""
