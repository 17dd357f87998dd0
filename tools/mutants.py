#!/usr/bin/env python3
"""mutants.py collect | run MUTANTS OUT: how sensitive are the checks to small changes of the code?

'collect' takes a sample of the cases of every quick check (but those of C18 and C19), 'run' builds each mutant
(lines of tools/mutate) through an overlay, drops those that do not build or that the repository's tests notice,
observes the cases and has the specification judge the observations that differ. OUT gets a line for each:
"invalid", "tests", "same" (no observation differs), "accepted" (some differ but nothing is rejected), or
"caught", with the properties. A development tool: no check uses it."""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile, shutil, threading, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import core, plans
DIR = "/tmp/mutants"
PER = 3000


def collect():
    shutil.rmtree(DIR, ignore_errors=True)
    os.makedirs(DIR)

    def one(prop):
        run = core.Run(prop, "quick", 7)
        got = []
        run.model_check = lambda *a, **k: ""
        run.check = lambda cases, size=0, env=None: got.extend((run.rng.sample(cases, PER) if len(cases) > PER else cases)) if not env else None
        try:
            plans.PLANS[prop](run)
        finally:
            run.close()
        with open(os.path.join(DIR, prop + ".cases"), "w") as f:
            f.writelines(json.dumps(c) + "\n" for c in got)
        return prop, len(got)
    for p in sorted(plans.PLANS):
        if p not in ("C18", "C19"):
            print(*one(p), flush=True)
    tool = os.path.join(DIR, "driver")
    subprocess.run(["go", "build", "-o", tool, "."], cwd=core.DRIVER, env=core.GOENV, check=True)
    with cf.ThreadPoolExecutor(8) as ex:
        for prop, lines in ex.map(lambda p: (p, observe(tool, p)), props()):
            open(os.path.join(DIR, prop + ".base"), "wb").writelines(x + b"\n" for x in lines)


def props():
    order = "C13 C22 C03 C11 C06 C09 C12 C05 C20 C16 C15 C21 C24".split()
    return sorted((f[:-6] for f in os.listdir(DIR) if f.endswith(".cases")), key=lambda p: (order.index(p) if p in order else 99, p))


def observe(tool, prop, timeout=300):
    with open(os.path.join(DIR, prop + ".cases"), "rb") as f:
        try:
            p = subprocess.run(["timeout", str(timeout), tool, "observe"], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, GOMAXPROCS="2", GOMEMLIMIT="2GiB"))
        except Exception:
            return []
    return p.stdout.split(b"\n")[:-1]


BASE = {}


def mutant(m, run):
    w = tempfile.mkdtemp(prefix="mut-", dir=DIR)
    try:
        path = os.path.join(core.REPO, m["file"])
        src = open(path, "rb").read()
        open(os.path.join(w, "x.go"), "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
        ov = os.path.join(w, "o.json")
        json.dump({"Replace": {path: os.path.join(w, "x.go")}}, open(ov, "w"))
        tool = os.path.join(w, "driver")
        env = dict(core.GOENV, GOMAXPROCS="2")
        if subprocess.run(["go", "build", "-overlay", ov, "-o", tool, "."], cwd=core.DRIVER, env=env, capture_output=True).returncode:
            return "invalid", []
        if subprocess.run(["timeout", "60", "go", "test", "-vet=off", "-overlay", ov, "./..."], cwd=core.REPO, env=dict(env, GOFLAGS=""), capture_output=True).returncode:
            return "tests", []
        caught, differ = [], []
        for prop in props():
            lines = observe(tool, prop)
            base = BASE[prop]
            bad = [x for x, y in zip(lines, base) if x != y]
            if len(lines) < len(base):
                caught.append(prop + " dies")
            if bad:
                differ.append("%s:%d" % (prop, len(bad)))
                f = os.path.join(w, prop + ".obs")
                open(f, "wb").writelines(x + b"\n" for x in random.Random(1).sample(bad, min(len(bad), 400)))
                try:
                    rejected, _ = run.validate(f, prop)
                except core.Broken:
                    rejected = [(0, "broken")]
                if rejected:
                    caught.append(prop + ": " + rejected[0][1][:60])
            if caught and not os.environ.get("ALL"):
                break
        return ("caught" if caught else "accepted" if differ else "same"), caught + ["|"] + differ
    finally:
        shutil.rmtree(w, ignore_errors=True)


def go(mutants, out):
    for p in props():
        BASE[p] = open(os.path.join(DIR, p + ".base"), "rb").read().split(b"\n")[:-1]
    done = set()
    if os.path.exists(out):
        done = {json.dumps(json.loads(x)["m"], sort_keys=True) for x in open(out)}
    todo = [m for m in map(json.loads, open(mutants)) if json.dumps(m, sort_keys=True) not in done]
    run = core.Run("mutants", "quick", 1)
    lock = threading.Lock()

    def one(m):
        try:
            kind, why = mutant(m, run)
        except Exception as e:
            kind, why = "error", [repr(e)]
        with lock, open(out, "a") as f:
            f.write(json.dumps({"kind": kind, "why": why, "m": m}) + "\n")
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, todo))
    run.close()


if sys.argv[1] == "collect":
    collect()
else:
    go(sys.argv[2], sys.argv[3])
