"""What each check explores. A plan takes a Run and explores; verdicts come from the specification."""
import concurrent.futures as cf
import json, os, random, re, string
from . import special
from .core import CORES

EDGE = [0, 1, 4, 9, 10, 99, 100, 101, 400, 999, 1000, 1582, 1900, 1969, 1970, 1999, 2000, 2004, 9996, 9999]
MINUS = [-1, -2, -4, -100, -400, -1001, -1999, -9996, -9999]
ALPHABET = list("0123456789X-/.,:YySETZtxeq?~%[]{}+ ()_|s") + ["\\u{000a}", "\\u{0009}", "\\u{000d}", "\\u{017f}", "\\u{212a}", "\\u{0661}",
            "\\u{ff11}", "\\u{2013}", "\\u{00a0}", "\\u{0000}", "\\x{ff}", "\\u{feff}"]


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def years(run, n=10):
    return sorted(set(EDGE + MINUS + [run.rng.randint(0, 9999) for _ in range(n)] + [-run.rng.randint(1, 9999) for _ in range(n // 2)]))


def few(run):
    r = run.rng
    a = r.choice([y for y in range(1004, 9996) if leap(y)])
    b = r.choice([y for y in range(1000, 9990) if not leap(y)])
    c = r.randint(1, 999)
    d = -r.randint(1, 9999)
    return [a, b, c, d]


def cycle(run, n=400, m=60):
    a = run.rng.randint(0, 9999 - n + 1)
    b = run.rng.randint(-9999, -m)
    return sorted(set(range(a, a + n)) | set(range(b, b + m)))


def texts(run, job, limit=None, **kw):
    kw.setdefault("years", years(run))
    kw.setdefault("few", few(run))
    kw.setdefault("cycle", cycle(run))
    return run.texts(limit=limit, job=job, **kw)


def many(kind, ts):
    return [{"k": kind, "s": t} for t in ts]


def everything(run, rounds=1):
    out = set()
    for _ in range(rounds):
        out |= set(texts(run, "everything"))
    out = sorted(out)
    run.rng.shuffle(out)
    return out


ROAMS = ["dates", "times", "x", "q", "intervals", "open", "seasons", "sets", "years"]


def roam(run, n, *what):
    """Texts from anywhere: each number is any number it can be. n of each kind, from random walks."""
    jobs = [(w, random.Random(run.rng.randint(0, 1 << 30))) for w in what or ROAMS]
    with cf.ThreadPoolExecutor(CORES) as ex:
        ts = list(ex.map(lambda j: run.texts(job="roam", what=j[0], rng=j[1], walks=n, design=True, few=[1985, 2004, 7, -5]), jobs))
    return sorted({t for x in ts for t in x})


def corrupted(run, edits=1, alphabet=None, limit=None):
    """Valid strings of every kind with one character wrong."""
    r = run.rng
    a = alphabet or ALPHABET
    return texts(run, "edited", edits=edits, alphabet=a, limit=limit, design=False)


def short(run, length, alphabet):
    return texts(run, "short", length=length, alphabet=list(alphabet), design=False)


def noise(run, n):
    """Strings of no form at all."""
    r = run.rng
    out = []
    pool = ALPHABET + ["1985", "-04", "-12", "T23:59:59", "..", "/", "Y", "E", "S", "spring", ",", "[", "]", "{", "}", "XX", "?"]
    for _ in range(n):
        out.append("".join(r.choice(pool) for _ in range(r.randint(0, 12))))
    return out


def glued(run, ts, n):
    """Two strings of the specification, one after the other."""
    r = run.rng
    out = []
    for _ in range(n):
        a, b = r.choice(ts), r.choice(ts)
        out.append(a + r.choice(["", "", "/", ",", "-", " ", "\\u{000a}", ".."]) + b)
    return out


def quick(run):
    return run.tier != "thorough"


# ---------------------------------------------------------------------------

def c01(run):
    q = quick(run)
    ts = everything(run)
    ed = corrupted(run, limit=None if not q else 40000)
    run.check(many("entry", ts + ed + noise(run, 3000 if q else 30000) + glued(run, ts, 3000 if q else 30000)))
    run.check(special.monsters(run, q))
    run.check(many("robust", ts[:(2500 if q else None)] + run.rng.sample(ed, 2500 if q else 25000) + noise(run, 500 if q else 10000)))
    run.check(many("entry", short(run, 3, "019X-/.YES?T[],{}" if q else "0129X-/.YyESs?~%T[],{}:+Z")))
    if not q:
        run.check(many("entry", short(run, 5, "01X-/.Y?[,]")))
    run.check(many("entry", roam(run, 800 if quick(run) else 20000)))


def c02(run):
    q = quick(run)
    ts = everything(run, 1 if q else 3)
    run.check(many("entry", ts + corrupted(run, limit=40000 if q else None) + glued(run, ts, 4000 if q else 40000) + noise(run, 3000 if q else 30000)))
    run.check(many("entry", short(run, 3, "0129X-/.YES?~T[],{}")))
    run.check(many("entry", texts(run, "longs", design=False)), size=100)
    if not q:
        for job in ("intervals", "sets", "unspecified", "qualified", "seasons", "years", "openintervals"):
            run.check(many("entry", texts(run, job, design=False)))
    run.check(many("entry", roam(run, 800 if quick(run) else 20000)))


def c03(run):
    q = quick(run)
    ts = everything(run, 1 if q else 3)
    run.check(many("entry", ts + glued(run, ts, 3000 if q else 40000) + noise(run, 2000 if q else 30000)))
    run.check(many("entry", corrupted(run)))
    run.check(many("entry", short(run, 3, "0129X-/.YES?~T[],{}")))
    run.check(many("entry", special.numerals(run, q)))
    run.check(many("entry", texts(run, "longs", design=False)), size=100)
    if not q:
        run.check(many("entry", short(run, 5, "01X-/.Y?[,]")))
        for job in ("intervals", "sets", "unspecified", "qualified", "seasons", "years", "openintervals"):
            run.check(many("entry", texts(run, job, design=False)))
    run.check(many("entry", roam(run, 800 if quick(run) else 20000)))


def c04(run):
    run.model_check("Clock", {"FROM": "-401" if quick(run) else "-9999", "TO": "401" if quick(run) else "9999"}, workers=1)
    run.check(many("parse", texts(run, "dates", design=False)))
    run.check(many("parse", special.numerals(run, True)))
    if not quick(run):
        run.check(many("parse", texts(run, "alldates", design=False)))
    run.check(many("parse", roam(run, 8000 if quick(run) else 60000, "dates")))


def c05(run):
    q = quick(run)
    r = run.rng
    ys = years(run, 4)
    if q:
        ys = sorted(set([0, 1, -1, 4, 1900, 2000, 9999, -9999, -4, 1970, 1969] + r.sample(ys, 3)))
    hours = list(range(24)) if not q else [0, 1, 12, 23, r.randint(2, 22)]
    ms = sorted({0, 1, 30, 59, r.randint(0, 59)})
    ss = sorted({0, 59, r.randint(0, 59)})
    run.check(many("parse", texts(run, "datetimes", years=ys, hours=hours, minutes=ms, seconds=ss, design=False)))
    # the time zone of the machine has no bearing
    special.zones(run, texts(run, "datetimes", years=[2000, -4], hours=[3], minutes=[7], seconds=[9], limit=400, design=False))
    run.check(many("parse", roam(run, 8000 if quick(run) else 80000, "times")))


def c06(run):
    run.check(many("sides", texts(run, "intervals") + texts(run, "kinintervals")))
    if not quick(run):
        run.check(many("sides", texts(run, "wideintervals", design=False)))
        run.check(many("sides", texts(run, "intervals")))
    run.check(many("sides", roam(run, 6000 if quick(run) else 60000, "intervals")))
    run.check(many("sides", roam(run, 1000 if quick(run) else 10000, "open")))


def c07(run):
    run.check(many("sides", texts(run, "openintervals") + texts(run, "intervals", limit=5000 if quick(run) else None, design=False)))
    run.check(many("bounds", texts(run, "openintervals", design=False) + everything(run)))
    if not quick(run):
        run.check(many("sides", texts(run, "wideintervals", design=False)))
    run.check(many("sides", roam(run, 5000 if quick(run) else 40000, "open")))


def c08(run):
    q = quick(run)
    a = few(run)
    run.check(many("parse", texts(run, "unspecified", few=a if not q else [2000, a[1], a[3]], cycle=[1], design=False)))
    run.check(many("parse", texts(run, "intervals", design=False)))
    if not q:
        run.check(many("parse", texts(run, "allunspecified", design=False)))
    run.check(many("parse", roam(run, 8000 if quick(run) else 80000, "x")))


def c09(run):
    run.check(many("quals", texts(run, "qualified", design=quick(run))))
    run.check(many("quals", [t for t in texts(run, "intervals", design=False) + texts(run, "kinintervals", design=False) if any(x in t for x in "?~%")]))
    if not quick(run):
        for _ in range(3):
            run.check(many("quals", texts(run, "qualified", design=False)))
    run.check(many("quals", roam(run, 5000 if quick(run) else 50000, "q")))
    run.check(many("quals", roam(run, 2000 if quick(run) else 20000, "intervals", "open")))


def c10(run):
    q = quick(run)
    run.check(many("parse", texts(run, "seasons", years=years(run, 150 if q else 1000), cycle=list(range(-9999, 10000)) if q else [1], design=False)))
    run.check(many("parse", special.spellings(run)))
    if not q:
        run.check(many("parse", texts(run, "allseasons", cycle=list(range(-9999, 10000)), design=False)))
    run.check(many("parse", roam(run, 5000 if quick(run) else 50000, "seasons")))


def c11(run):
    q = quick(run)
    ts = texts(run, "sets", few=few(run)[:2] if q else few(run), design=False)
    sets = [t for t in ts if re.match(r"[\[{][0-9.,X?~%-]+[]}]$", t) and "..." not in t]
    wrong = sorted(set(ts) - set(sets))
    run.check(many("set", (run.rng.sample(sets, min(len(sets), 20000)) + run.rng.sample(wrong, min(len(wrong), 3000))) if q else ts), size=6000)
    big = special.bigsets(run, 400 if q else 5000)
    run.check(many("set", big), size=6000)
    run.check(many("set", united(run, big, 10 if q else 24)), size=6)
    if not q:
        run.check(many("set", texts(run, "allsets", years=years(run, 60), design=False)))
    run.check(many("set", roam(run, 5000 if quick(run) else 50000, "sets")))


def united(run, sets, n):
    """Sets of hundreds of members."""
    r = run.rng
    inner = [t.strip("[]{}") for t in sets if t[1:-1].count(",") > 3 and "-13" not in t and not t.strip("[]{}").startswith("..") and not t.strip("[]{}").endswith("..") and not t.rstrip("]}").endswith(",")]
    if not inner:
        return []
    return [o + a + ",".join(r.choice(inner) for _ in range(k)) + z + c for k in r.sample(range(4, 30), n) for a, z in (("", ""), (r.choice(["", ".."]), r.choice(["", ".."])))
            for o, c in (r.choice(["[]", "{}"]),)]


def c12(run):
    q = quick(run)
    run.check(many("parse", texts(run, "years", design=False, cycle=cycle(run, 3000, 2500) if q else [1])))
    run.check(many("parse", texts(run, "longs", design=False)), size=100)
    if not q:
        run.check(many("parse", texts(run, "allyears", design=False)))
    run.check(many("parse", roam(run, 8000 if quick(run) else 60000, "years")))


def c13(run):
    q = quick(run)
    ts = everything(run, 1 if q else 4)
    run.check(many("parse", ts + special.numerals(run, True)))
    jobs = ["intervals", "kinintervals", "seasons", "years", "unspecified", "sets"]
    for job in jobs:
        run.check(many("parse", texts(run, job, design=False, few=few(run)[:3], cycle=[1, 4], limit=8000 if q else None)))
    run.check(many("parse", roam(run, 800 if quick(run) else 20000)))


def c14(run):
    q = quick(run)
    run.check(many("bounds", everything(run, 1 if q else 4)))
    run.check(many("bounds", texts(run, "dates", few=few(run)[:2], cycle=cycle(run, 100, 20), design=False, limit=30000 if q else None)))
    run.check(many("bounds", texts(run, "datetimes", years=[0, -1, 9999, -9999, 2000], few=[2000], design=False, limit=8000 if q else None)))
    run.check(many("bounds", texts(run, "seasons", few=few(run), cycle=[1], limit=4000 if q else None, design=False)))
    run.check(special.instants(run, 4000 if q else 60000))
    run.check(many("bounds", roam(run, 800 if quick(run) else 20000)))


def c16(run):
    q = quick(run)
    run.check(many("unix", everything(run, 1 if q else 4) + corrupted(run, limit=8000 if q else 60000) + ["open", "uuuu", "unknown", "OPEN", "open/1985"]))
    run.check(many("unix", texts(run, "kinintervals", few=few(run)[:1], design=False) + texts(run, "intervals", limit=6000 if q else None, design=False) + texts(run, "dates", few=[1970], cycle=[1970, -5], limit=10000 if q else None, design=False)))
    run.check(many("unix", texts(run, "datetimes", years=[1970, 1969, 1901, 2038, -1], few=[1970], limit=5000 if q else None, design=False)))
    run.check(many("unix", roam(run, 800 if quick(run) else 20000)))


def c17(run):
    q = quick(run)
    run.check(many("tsjson", [t.strip().replace("'", '"') for t in texts(run, "jsontexts", design=False)]))
    run.check(many("json", everything(run, 1 if q else 4) + ["1970-01-01", "1970-01-01T00:00:00Z", "0000", "-0001-01-01", "1969-12-31T23:59:59Z"]), size=3000)
    for job in ("intervals", "kinintervals", "qualified", "unspecified", "sets", "datetimes", "openintervals"):
        run.check(many("json", texts(run, job, few=few(run)[:3], years=[1970, 0, -1, 9999], cycle=[1], design=False, limit=2500 if q else 20000)), size=3000)
    run.check(many("json", roam(run, 500 if quick(run) else 8000)), size=3000)


def c20(run):
    q = quick(run)
    ts = everything(run, 1 if q else 3)
    run.check(many("entry", ts + corrupted(run, limit=20000 if q else None) + glued(run, ts, 2000 if q else 20000)))
    run.check(many("entry", texts(run, "years", design=False, cycle=[1], limit=12000 if q else None) + texts(run, "unspecified", design=False, few=few(run)[:2], cycle=[1], limit=8000 if q else None)))
    run.check(many("entry", texts(run, "sets", few=few(run)[:1], design=False, limit=6000 if q else None)))
    run.check(many("bounds", texts(run, "openintervals", design=False) + ts))
    run.check(many("entry", texts(run, "longs", design=False)), size=100)
    run.check(special.errors(run, ts + noise(run, 300)))
    run.check(many("entry", roam(run, 800 if quick(run) else 20000)))


def c23(run):
    q = quick(run)
    run.check(many("parse", everything(run, 1 if q else 4)))
    run.check(many("parse", texts(run, "unspecified", few=few(run)[:2], cycle=[1], design=False)))
    for job in ("intervals", "kinintervals", "qualified", "seasons", "sets", "years"):
        run.check(many("parse", texts(run, job, few=few(run)[:3], cycle=[1], design=False, limit=8000 if q else None)))
    run.check(many("parse", roam(run, 800 if quick(run) else 20000)))


def c24(run):
    q = quick(run)
    ts = everything(run, 1 if q else 3)
    run.check(many("feat", ts), size=2000)
    run.check(many("feat", corrupted(run, limit=10000 if q else None)), size=2000)
    run.check(many("feat", short(run, 2, "01X-/.YES?T[],{}") + special.numerals(run, True)), size=2000)
    for job in ("intervals", "kinintervals", "qualified", "unspecified", "sets", "seasons", "years"):
        run.check(many("feat", texts(run, job, few=few(run)[:3], cycle=[1], design=False, limit=1500 if q else 20000)), size=2000)
    run.check(many("feat", roam(run, 500 if quick(run) else 8000)), size=2000)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
         "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": special.c15, "C16": c16, "C17": c17, "C18": special.c18,
         "C19": special.c19, "C20": c20, "C21": special.c21, "C22": special.c22, "C23": c23, "C24": c24}
