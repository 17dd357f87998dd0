"""Plans that need more than strings: comparisons, flags, helpers, sessions, front ends."""
import collections, concurrent.futures as cf, json, os, re, shutil, signal, socket, subprocess, time
from . import plans
from .core import Broken, CORES, GOENV, REPO, SPEC, VERIF, sh, tail

JS = os.path.join(VERIF, "vf", "js")


def ops_of(run, module, env, args=(), config=None):
    """The behaviours that a walk of a specification prints."""
    code, out = run.tlc(module, env, workers=1, args=args, config=config)
    if code != 0:
        raise Broken("%s:\n%s" % (module, tail(re.sub(r'"(OPS|RUN) .*"\n', "", out))))
    got = [json.loads(json.loads('"%s"' % t)) for t in re.findall(r'^"(?:OPS|RUN) (.*)"$', out, re.M)]
    if not got:
        raise Broken("%s has no behaviours" % module)
    run.generated[module] = run.generated.get(module, 0) + len(got)
    return got


def walk(run, num, depth):
    return ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(run.rng.randint(1, 1 << 30))]


# -- strings ------------------------------------------------------------------

def monsters(run, q):
    """Long strings: what is short is repeated."""
    r = run.rng
    big = 20000 if q else 200000
    units = ["0", "9", "1985", "-", "X", "/", "..", ",", "[", "?", "~", "%", "Y", "E", "S", "(", " ", "\\u{000a}", "\\u{017f}", "\\x{ff}", "1985,",
             "1985..1990,", "-04", "T23:59:59", "spring, ", "1985/", ":", "+", "{", "E9", "S1", "?1985-", "\\u{0000}"]
    frames = [("", ""), ("1985", ""), ("Y", ""), ("Y1E", ""), ("Y", "E5"), ("1950S", ""), ("[", "]"), ("{..", "..}"), ("[1985,", "1986]"), ("../", ""), ("", "/.."),
              ("1985-04-12T23:20:30", ""), ("spring,", "2000"), ("?", "1985"), ("-", "")]
    out = []
    for u in units:
        for a, b in frames if not q else r.sample(frames, 5):
            out.append({"k": "robust", "s": u, "n": r.choice([17, 100, 1000, big // max(1, len(u))]), "a": a, "b": b})
    for u in ["1985,", "1985..1990,", "-0004-02,"]:
        out.append({"k": "robust", "s": u, "n": big // 10, "a": "[", "b": "1985]"})
    for a in ["Y1E", "Y-9E", "Y1985E"]:
        for e in (["99", "308", "400", "9999", "99999"] if q else ["30", "99", "308", "309", "400", "1000", "9999", "99999", "999999", "123456789"]) + ["999999999", "9999999999", "9223372036854775807", "99999999999999999999"]:
            out.append({"k": "robust", "s": a + e})
    for a in ["1950S", "Y1950S", "Y-1950S", "Y195E1S", "-1950S"]:
        for e in ["0", "5", "9", "99", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999"]:
            out.append({"k": "robust", "s": a + e})
    # a few characters that name a long time
    for a, z in (("0000", "9999"), ("-9999", "-0001"), ("0001", "2024"), ("-9999", "9999")):
        for tail in ["", "-01", "-12-31"]:
            first, last = a + tail.replace("12-31", "01-01"), z + tail
            span = first + ".." + last
            for o, c in ("[]", "{}"):
                out += [{"k": "robust", "s": o + x + c} for x in (span, ".." + last, first + "..", span + "," + span, "1985," + span, span + ",.." + last)]
            out += [{"k": "robust", "s": x} for x in (first + "/" + last, first + "/..", "../" + last, first + "/", "/" + last, first + "?/" + last + "~")]
    out += [{"k": "robust", "s": x} for x in ("XXXX", "-XXXX", "1XXX-XX-XX", "XXXX-XX-XX", "Y9E9", "Y9999S4", "XXXX/XXXX", "Y-292277022399", "0000/9999", "-9999/9999", "9999S1", "Y1E9S1")]
    r.shuffle(out)
    return out


def numerals(run, q):
    return plans.texts(run, "numerals", limit=None if not q else 4000)


def spellings(run):
    return plans.texts(run, "spellings")


def bigsets(run, n):
    return [t for t in plans.texts(run, "bigsets", walks=n, years=plans.years(run, 6))][:4 * n]


def zones(run, ts):
    """C05: the same strings with other local time zones."""
    cases = plans.many("parse", ts)
    places = ["America/New_York", "Asia/Kolkata", "Pacific/Apia", "Europe/London", "Australia/Lord_Howe", "Africa/Monrovia", "UTC", "EST5EDT", "Pacific/Kiritimati", "Asia/Kathmandu"]
    if not os.path.isdir("/usr/share/zoneinfo") and not os.path.isdir("/opt/veriftools/go1.27.3/lib/time"):
        run.notes.append("no time zones here")
        places = ["UTC"]
    for z in places if not plans.quick(run) else run.rng.sample(places, 4):
        run.check(cases, env={"TZ": z})


def instants(run, n):
    """Days, seconds, nanoseconds and zones for C14."""
    r = run.rng
    first, last = -4371587 + 366, 2932896   # about -9999 to 9999
    days = [0, -1, 1, first, last, -719528, -719529, -719162, 10957, 24855, -24856] + [r.randint(first, last) for _ in range(n)]
    zs = [0, 1, -1, 3600, -3600, 19800, -43200, 50400, 45, -17762, 86399, -86399]
    return [{"k": "settime", "l": [r.choice(days) if i >= len(days) else days[i], r.choice([0, 86399, 43200, r.randint(0, 86399)]),
                                   r.choice([0, 0, 1, 999999999, r.randint(0, 999999999)]), r.choice(zs)]} for i in range(n + len(days))]


def errors(run, ts):
    made = ["NotSet", "NotImplemented", "Invalid", "Unsupported", "Unrecognized", "other", "text", "number", "time", "none"]
    r = run.rng
    strings = [t for t in ts if t] + ["100%", "%s", "%d%!", "a string", "\\u{017f}", "", "not set", "Not set", "invalid", "Unrecognized EDTF string"]
    strings += [u * n for u, n in (("1985,", r.randint(3, 9)), ("9", r.randint(20, 130)), ("x\\u{017f}", 200), ("19XX-", 2000))]
    return [{"k": "error", "a": m, "s": s} for m in made for s in r.sample(strings, min(len(strings), 60 if plans.quick(run) else 600)) + strings[-14:]]


# -- C15 ----------------------------------------------------------------------

def c15(run):
    q = plans.quick(run)
    r = run.rng
    run.model_check("Order", config="Order" if q else "Order3")
    for _ in range(1 if q else 6):
        y = r.randint(1, 9990)
        few = r.choice([[y, y + 1, y + 2], [0, 1, -1], [-y, -y - 1, -y + 1], [1969, 1970, 1971]])
        pool = plans.texts(run, "clustered", few=few)
        pool = sorted(set(r.sample(pool, min(len(pool), 90 if q else 130)) + ["..", "", "%04d" % abs(few[0]), "nonsense"]))
        pool += r.sample(plans.texts(run, "everything"), 20 if q else 70)
        run.check([{"k": "pair", "a": a, "b": b} for a in pool for b in pool])
        run.check([{"k": "triple", "a": r.choice(pool), "b": r.choice(pool), "c": r.choice(pool + [".."] * 20)} for _ in range(6000 if q else 40000)])
    far = plans.roam(run, 150 if q else 1500)
    run.check([{"k": "pair", "a": r.choice(far), "b": r.choice(far)} for _ in range(6000 if q else 60000)])
    run.check([{"k": "triple", "a": r.choice(far), "b": r.choice(far), "c": r.choice(far)} for _ in range(3000 if q else 30000)])


# -- C21 ----------------------------------------------------------------------

def c21(run):
    q = plans.quick(run)
    cases = [{"k": "constants"}]
    for ops in ops_of(run, "Flags", {"DEPTH": "2" if q else "3", "WIDE": "no"}):
        cases.append({"k": "flags", "ss": ops})
    for ops in ops_of(run, "Flags", {"DEPTH": "40", "WIDE": "yes"}, walk(run, 150 if q else 3000, 45)):
        cases.append({"k": "flags", "ss": ops})
    words = ["..", "open", "", "uuuu", "OPEN", "Open", "UUUU", "unknown", "UNKNOWN", "uuu", "uuuuu", "open ", " open", " ", ".", "...", "-", "u", "null", "none", "y", "../", "/..", "XXXX", "now",
             "\\u{000a}", "open\\u{000a}", "\\u{ff0e}\\u{ff0e}", "0", "1985", "?"]
    words += plans.short(run, 2, ".opnuOU /X") + plans.short(run, 4, "ou.") + r_edits(run, ["open", "uuuu", "unknown", ".."])
    cases += [{"k": "keyword", "s": w} for w in sorted(set(words))]
    run.rng.shuffle(cases)
    run.check(cases, size=4000)


def r_edits(run, words):
    """Each word with one character more, less or another."""
    out = set()
    for w in words:
        for i in range(len(w) + 1):
            for a in "openuOU. X0\t-":
                out.add(w[:i] + a + w[i:])
                out.add(w[:i] + a + w[i + 1:])
            out.add(w[:i] + w[i + 1:])
            out.add(w[:i].upper() + w[i:])
    return ["\\u{0009}".join(x.split("\t")) for x in out]


# -- C22 ----------------------------------------------------------------------

def c22(run):
    q = plans.quick(run)
    r = run.rng
    run.model_check("Clock", {"FROM": "-401" if q else "-9999", "TO": "401" if q else "9999"})
    ys = range(-9999, 10000) if not q else sorted(set(range(-420, 421)) | set(range(1500, 2101)) | set(range(-9999, 10000, 100)) | {r.randint(-9999, 9999) for _ in range(1500)})
    run.check([{"k": "months", "n": y} for y in ys])
    run.check([{"k": "ymdtext", "s": t} for t in plans.texts(run, "ymdtexts")])
    run.check([{"k": "ymdtext", "s": t} for t in plans.texts(run, "dates", few=plans.few(run)[:3], cycle=[2000, 1900, -4], limit=6000 if q else None)])
    run.check([{"k": "monthtext", "s": t} for t in plans.texts(run, "monthtexts")])
    parts = [t.split("|") for t in plans.texts(run, "parts", years=plans.years(run, 6 if q else 60), limit=15000 if q else None)]
    run.check([{"k": "ymdparts", "a": a, "b": b, "c": c} for a, b, c in parts])
    clocks = [t.split("|") for t in plans.texts(run, "clocktexts", years=plans.years(run, 6 if q else 60))]
    run.check([{"k": "clock", "l": [year_of(y), int(m), int(d)], "s": t} for y, m, d, t in clocks])
    first, last = -4371587 + 366, 2932896
    run.check([{"k": "flip", "l": [r.choice([0, 1, -1, 9999, -9999, r.randint(-9999, 9999)]), r.choice([0, -1, -719528, -719162, r.randint(first, last)]), r.randint(0, 86399)]}
               for _ in range(3000 if q else 60000)])
    # the last of February is the day that flipping may move
    run.check([{"k": "flip", "l": [y, day_number(y, m, d), r.randint(0, 86399)]} for y in (range(-9998, 9999) if not q else range(-40, 2041)) for m, d in ((2, 28), (3, 1), (12, 31)) ])
    eq = []
    for _ in range(2000 if q else 20000):
        a = [r.randint(-3, 3) if r.random() < .5 else r.randint(-9999, 9999), r.randint(1, 12), r.randint(1, 31)]
        b = list(a)
        for i in range(3):
            if r.random() < .3:
                b[i] = r.choice([-b[i], b[i] + 1, r.randint(1, 12)])
        # parts that are not given are zero, and nothing keeps a part in its range
        for d in (a, b):
            for i in range(3):
                if r.random() < .1:
                    d[i] = r.choice([0, 0, -1, 1, 13, 32, 100, 366, a[i] - 100, a[i] + 256, a[(i + 1) % 3]])
        eq.append({"k": "equal", "l": a + b})
    run.check(eq)


def year_of(t):
    return -int(t[1:]) if t.startswith("-") else int(t)


def day_number(y, m, d):
    """Days since the epoch; only to make cases."""
    yy = y - 1 if m <= 2 else y
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (m - 3 if m > 2 else m + 9) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


# -- C18 ----------------------------------------------------------------------

def variants(run, t):
    """Strings that are nearly t."""
    out = [t]
    if t:
        i = run.rng.randrange(len(t))
        out += [t + "?", t[:-1], t.lower(), t.upper(), t + " ", t[:i] + run.rng.choice("0123456789X") + t[i + 1:], t + "/..", "../" + t, t + "-01"]
    return [x for x in out if "\\" not in x]


def session(run, ops, mode, driver=None, env=None, verbose=False):
    """Acts out operations on the real library: the events, and what went wrong with the process."""
    e = dict(os.environ, **(env or {}))
    if verbose:
        e["DRIVER_VERBOSE"] = "1"
    data = "".join(json.dumps(o) + "\n" for o in ops).encode()
    try:
        p = sh([driver or run.driver, "session", mode], input=data, env=e, timeout=600)
    except subprocess.TimeoutExpired:
        raise Broken("a session took too long")
    err = p.stderr.decode(errors="replace")
    wrong = ""
    if "DATA RACE" in err:
        wrong = "data race: " + " ".join(x.strip() for x in err.split("DATA RACE")[1].splitlines() if "/repo" in x or "go-edtf" in x)[:300]
    elif p.returncode != 0:
        if "driver: " in err:
            raise Broken("the session failed: " + err[-2000:])
        wrong = "the process dies: " + next((x for x in err.splitlines() if x.strip()), "")[:200]
    return [json.loads(x) for x in p.stdout.decode().splitlines() if x.endswith("}")] if not wrong or "race" in wrong else [], wrong


EMPTY = {"c": 0, "op": "restart", "h": 0, "g": 0, "s": "", "t": "", "r": "", "v": ""}


def judge_sessions(run, events):
    """Checks events against SessionTrace: (number of the event, reason) or None."""
    if not events:
        return None
    f = run.path("session")
    with open(f, "w") as h:
        for e in events:
            h.write(json.dumps(e) + "\n")
    code, out = run.tlc("SessionTrace", {"OBS": f})
    os.unlink(f)
    m = re.search(r'^"REJECT (\d+) (.*)"$', out, re.M)
    d = re.search(r'^"DONE (\d+) (\d+)"$', out, re.M)
    if m:
        return int(m.group(1)), m.group(2)
    if code != 0 or not d or int(d.group(1)) != len(events):
        raise Broken("SessionTrace:\n" + tail(out))
    run.observed += len(events)
    run.borne += len(events)
    return None


SETTINGS = [{"TZ": "UTC", "LANG": "C"}, {"TZ": "Asia/Kolkata", "LANG": "de_DE.UTF-8", "GOMAXPROCS": "2"}, {"TZ": "America/St_Johns", "GOGC": "5"}, {"TZ": "Pacific/Apia", "GOMAXPROCS": "8", "GODEBUG": "asyncpreemptoff=1"}]


def scripts_as_ops(scripts, texts, order):
    ops = []
    for c in order:
        for o in scripts[c]:
            ops.append({"c": c + 1, "op": o["op"], "h": o["h"], "g": o["g"], "s": texts[o["s"] - 1] if o["s"] else "", "t": texts[o["t"] - 1] if o["t"] else ""})
    return ops


def tell_session(run, steps, bad):
    run.violation([{"k": "session", "steps": steps}], bad[1])


def play(run, steps, race=None):
    """Steps are [mode, settings, ops]; each is a process of its own. (events, wrong)"""
    events = []
    for i, (mode, settings, ops) in enumerate(steps):
        if i:
            events.append(EMPTY)
        got, wrong = session(run, ops, mode, driver=race if "race" in settings else None, env={k: v for k, v in settings.items() if k != "race"})
        if wrong:
            return events + got, wrong
        events += got
    return events, ""


def kin(r, n):
    """The same texts in years that are a round number apart, or each other's negative."""
    out = set()
    apart = [64, 100, 128, 256, 400, 512, 1000, 1024, 2000, 2048, 4000, 4096, 8192]
    shapes = ["%s", "%s-02", "%s-12", "%s-02-28", "%s-21", "%s-24", "%s-02-XX", "%s-02/..", "%s-02?", "[..%s-02]"]
    for _ in range(n):
        b = r.choice([r.randint(0, 9999), 100 * r.randint(0, 99), 4 * r.randint(0, 2499)])
        years = {b, -b} | {x + s * a for x in (b, -b) for a in apart for s in (1, -1)}
        for y in years:
            if -9999 <= y <= 9999:
                t = "%04d" % y if y >= 0 else "-%04d" % -y
                out |= {f % t for f in shapes[:2] + r.sample(shapes[2:], 3)}
    # and everything that can be written about one month
    for _ in range(n):
        y, m, d = "%04d" % r.randint(1000, 9999), "%02d" % r.randint(1, 12), "%02d" % r.randint(10, 28)
        day = y + "-" + m + "-" + d
        time = day + "T%02d:%02d:%02d" % (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        h = "%02d" % r.randint(0, 13)
        out |= {s + time + z for s in ("", "-") for z in ("", "Z", "+" + h, "-" + h, "+" + h + ":30", "-" + h + ":30", "+" + h + ":00", "+" + h + ":45", "-" + h + ":15")}
        some = [y, y + "-" + m, day]
        out |= {a + t + z for t in some for a in ("", "?", "~", "%") for z in ("", "?", "~", "%") if not (a and z)}
        out |= {s + t for t in some for s in ("", "-")} | {y[:k] + "X" * (4 - k) + t for k in (1, 2, 3) for t in ("", "-" + m, "-" + m + "-" + d)}
        out |= {a + "/" + b for a in some + ["..", "", day + "?"] for b in some + ["..", "", "~" + day]}
        out |= {o + t + c for t in (y + ",", "..", y + ",..") for o, c in ("[]", "{}") for t in (t + day, day + "," + t.strip(".,"), y + ".." + day)}
        out |= {y + "-%02d" % g for g in range(21, 42)} | {w + ", " + y for w in ("spring", "Summer", "FALL", "winter")}
        out |= {"Y" + y, "Y-" + y, "Y" + y[:3] + "E1", "Y" + y[0] + "E3", y + "S1", y + "S2", y + "S3", y + "S4", "-" + y + "S2", "Y" + y + "S3", y + "-" + m + "-XX", y + "-XX", y + "-XX-" + d, y + "-" + m + "-" + d[0] + "X"}
    return r.sample(sorted(out), len(out))


def c18(run):
    q = plans.quick(run)
    r = run.rng
    params = run.path("p.json")
    json.dump({"handles": 2, "texts": 2, "depth": 5 if q else 6}, open(params, "w"))
    run.model_check("SessionWalk", {"PARAMS": params}, config="SessionDesign")
    run.build()
    race = run.build(race=True)
    pool = plans.everything(run) + plans.roam(run, 100 if q else 1000)
    # behaviours of the specification, acted out
    json.dump({"handles": 4, "texts": 6, "depth": 36}, open(params, "w"))
    groups, per = (24, 4) if q else (240, 5)
    scripts = ops_of(run, "SessionWalk", {"PARAMS": params}, walk(run, groups * per, 40))
    jobs = []
    for g in range(groups):
        mine = scripts[g * per:(g + 1) * per]
        a, b = r.choice(pool), r.choice(pool)
        ts = [a, b] + r.sample(variants(run, a) + [r.choice(pool)] * 3, 3) + [r.choice(["..", "", "../1985", "1985/", "nonsense", a])]
        r.shuffle(ts)
        order = list(range(len(mine)))
        jobs.append([["steps", r.choice(SETTINGS), scripts_as_ops(mine, ts, order)],
                     ["steps", r.choice(SETTINGS), scripts_as_ops(mine, ts, order[::-1])],
                     ["together", dict(r.choice(SETTINGS), race="1"), scripts_as_ops(mine, ts, order)]])
    # everything, by many at once, in different orders, in different processes
    n = 3000 if q else 20000
    ts = r.sample(pool, min(n, len(pool))) + r.sample(plans.corrupted(run, limit=20000), n // 3)

    def parsed(order, clients, again):
        ops = []
        for c in range(clients):
            part = order[c::clients] + (r.sample(order, len(order) // clients) if again else [])
            ops += [{"c": c + 1, "op": r.choice(["parse"] * 8 + ["match", "valid", "levels", "unix"]), "h": i + 1, "g": 0, "s": t, "t": ""} for i, t in enumerate(part)]
        return ops
    mass = [["together", SETTINGS[0], parsed(ts, 1, False)],
            ["together", SETTINGS[1], parsed(r.sample(ts, len(ts)), 8, True)],
            ["together", dict(SETTINGS[2], race="1"), parsed(r.sample(ts, len(ts)), 16, True)],
            ["together", SETTINGS[3], parsed(ts[::-1], 3, False)]]
    # the same in many years that have something in common
    apart = kin(r, 10 if q else 80)
    alike = [["together", SETTINGS[1], parsed(apart, 1, False)],
             ["together", SETTINGS[0], parsed(apart[::-1], 1, False)],
             ["together", SETTINGS[3], parsed(r.sample(apart, len(apart)), 8, False)]]
    # a process that has worked for long
    few = r.sample(ts, 600)
    tired = [["together", SETTINGS[0], parsed(few, 1, False)],
             ["together", dict(SETTINGS[2], BURN="70000" if q else "1100000"), parsed(few, 2, False)]]
    # the first thing that a process does, done by all at once
    kinds = collections.defaultdict(list)
    some = r.sample(ts, min(len(ts), 2500))
    for t, a in library(run, some).items():
        kinds[a["feature"]].append(t)
    firsts = [t for k in sorted(kinds) for t in r.sample(kinds[k], min(len(kinds[k]), 3 if q else 20))] + ["..", "", "open"]
    colds = [[["together", dict(SETTINGS[0], race="1"), [{"c": c + 1, "op": op, "h": h + 1, "g": 0, "s": t, "t": ""} for c in range(8) for h, op in enumerate(ops)]]
              for t in firsts[i::16] for ops in (["parse", "valid", "unix"], ["match", "levels", "parse"])] for i in range(16)]
    hot = r.sample(ts, 40)
    crowd = [["together", dict(SETTINGS[3], race="1"), parsed(hot * 10, 16, True)], ["together", SETTINGS[2], parsed(hot, 1, False)]]

    def one(job):
        events, wrong = play(run, job, race)
        return job, events, wrong
    with cf.ThreadPoolExecutor(CORES) as ex:
        for job, events, wrong in ex.map(one, [mass, alike, tired, crowd] + colds + jobs):
            if wrong:
                tell_session(run, job, (0, wrong))
                continue
            if any(job is x for x in (mass, alike, tired, crowd)):
                # by string, so that each piece has all the operations on its strings
                pieces = collections.defaultdict(list)
                k = 16 if job is mass or job is alike else 4
                where, proc = {}, 0
                for e in events:
                    if e["op"] == "restart":
                        proc += 1
                        for i in range(k):
                            pieces[i].append(e)
                        continue
                    if e["op"] == "look":
                        i = where[(proc, e["c"], e["h"])]
                    else:
                        i = zlib_crc(e["s"]) % k
                        if e["op"] == "parse":
                            where[(proc, e["c"], e["h"])] = i
                    pieces[i].append(e)
                results = [(x, ex.submit(judge_sessions, run, x)) for x in pieces.values()]
            else:
                results = [(events, ex.submit(judge_sessions, run, events))]
            for x, f in results:
                bad = f.result()
                if bad:
                    e = x[bad[0] - 1]
                    tell_session(run, job, (bad[0], "%s (%s %s)" % (bad[1], e["op"], e["s"] or "of client %d" % e["c"])))
            if len(run.samples) < 6 and not wrong:
                run.samples.append({"operations": [o for o in job[0][2][:5]], "events": events[:5]})


def zlib_crc(s):
    import zlib
    return zlib.crc32(s.encode())


# -- C19 ----------------------------------------------------------------------

WASM = {"parse-js.wasm": (["-tags", "wasmjs"], "cmd/parse-wasm/main.go", "js"), "parse-p1.wasm": (["-tags", "wasip1"], "./cmd/parse-wasi/main.go", "wasip1")}


def go(run, args, env=None):
    p = sh(["go"] + args, cwd=REPO, env=dict(GOENV, GOFLAGS="-mod=readonly", GOWORK="off", **(env or {})))
    if p.returncode != 0:
        raise Broken("go %s:\n%s" % (" ".join(args), p.stderr.decode()[-3000:]))


def canonical(text):
    """JSON text in one form, or None."""
    try:
        return json.dumps(json.loads(text, parse_float=lambda x: "float " + x, parse_int=lambda x: "int " + x,
                                     object_pairs_hook=lambda ps: [["member"] + list(p) for p in sorted(ps, key=lambda p: p[0])]))
    except ValueError:
        return None


def library(run, strings):
    data = "".join(json.dumps(s) + "\n" for s in strings).encode()
    p = sh([run.driver, "library"], input=data, timeout=300)
    if p.returncode != 0:
        raise Broken("the library process failed: " + p.stderr.decode()[-2000:])
    out = {}
    for s, line in zip(strings, p.stdout.decode().splitlines()):
        a = json.loads(line)
        a["json"] = canonical(a["json"]) or ""
        out[s] = a
    return out


def exchange(cmd, lines, timeout=300):
    p = sh(cmd, input="".join(json.dumps(x) + "\n" for x in lines).encode(), timeout=timeout)
    got = []
    for x in p.stdout.decode(errors="replace").splitlines():
        try:
            got.append(json.loads(x))
        except ValueError:
            pass
    return got, p


def told(text, answer):
    """What a program told about one string: JSON, or else an error."""
    c = canonical(text)
    if c is not None and text.lstrip()[:1] == "{":
        return {"kind": "json", "text": c, "quotes": False}
    return {"kind": "error", "text": text.rstrip("\n"), "quotes": answer["err"] != "" and answer["err"] in text}


def cli(tools, program, args, lib):
    cmd = [tools[program]] + (["--"] if args and args[0].startswith("-") else []) + args
    p = sh(cmd, timeout=60)
    err = p.stderr.decode(errors="replace")
    out = p.stdout.decode(errors="replace")
    shown = []
    if p.returncode == 0 and program == "parse":
        try:
            whole = json.loads(out)
            assert isinstance(whole, list)
            # each element again as it was written
            dec, i = json.JSONDecoder(), out.index("[") + 1
            while len(shown) < len(whole):
                while out[i] in " \t\r\n,":
                    i += 1
                _, j = dec.raw_decode(out, i)
                shown.append({"kind": "json", "text": canonical(out[i:j]), "quotes": False})
                i = j
        except (ValueError, AssertionError):
            shown = [{"kind": "garbage", "text": "", "quotes": False}]
    elif p.returncode == 0:
        lines = out.split("\n")
        shown = [{"kind": "line", "text": x, "quotes": False} for x in (lines[:-1] if lines[-1] == "" else lines)]
    return {"program": program, "args": args, "answers": [lib[s] for s in args], "well": p.returncode == 0, "shown": shown, "named": [s in err for s in args], "raw": (out + err)[:500]}


def judge_runs(run, runs):
    """Checks runs of front ends against FrontEndTrace."""
    f = run.path("runs")
    with open(f, "w") as h:
        for x in runs:
            x = dict(x)
            x.pop("raw", None)
            x.pop("before", None)
            h.write(escaped(json.dumps(x)) + "\n")
    code, out = run.tlc("FrontEndTrace", {"OBS": f})
    os.unlink(f)
    d = re.search(r'^"DONE (\d+)"$', out, re.M)
    if code != 0 or not d or int(d.group(1)) != len(runs):
        raise Broken("FrontEndTrace:\n" + tail(out))
    run.observed += len(runs)
    run.borne += len(runs)
    for n, why in re.findall(r'^"REJECT (\d+) ((?:.|\n)*?)"$', out, re.M):
        x = runs[int(n) - 1]
        run.violation([{"k": "frontend", "program": x["program"], "args": x["args"], "saw": x.get("raw", "")}], why[:300], history=x.get("before"))
    if len(run.samples) < 6 and runs:
        x = next((y for y in runs if y["args"]), runs[0])
        run.samples.append({"program": x["program"], "args": x["args"][:5], "well": x["well"], "shown": [y["text"][:200] for y in x["shown"][:2]]})


def escaped(j):
    """JSON with nothing but ASCII, where characters that are not stay escaped as text."""
    return re.sub(r"(?<!\\)((?:\\\\)*)\\u([0-9a-f]{4})", r"\1\\\\u{\2}", j)


class Served:
    """The real server, with the WASM of this tree."""

    def __init__(self, run, tool):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.port = s.getsockname()[1]
        s.close()
        self.p = subprocess.Popen([tool, "-host", "127.0.0.1", "-port", str(self.port)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.url = "http://127.0.0.1:%d/" % self.port
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close()
                return
            except OSError:
                if self.p.poll() is not None:
                    break
                time.sleep(0.05)
        self.close()
        raise OSError("the server does not answer")

    def get(self, path):
        import urllib.request, urllib.error
        opener = urllib.request.build_opener(urllib.request.ProxyHandler({}))
        try:
            with opener.open(self.url + path, timeout=20) as rsp:
                return rsp.status, rsp.read()
        except urllib.error.HTTPError as e:
            return e.code, b""

    def close(self):
        self.p.kill()
        self.p.wait()


def build_front_ends(run):
    bin = os.path.join(run.work, "bin")
    os.makedirs(bin, exist_ok=True)
    tools = {}
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(run.build)]
        for name, (tags, src, goos) in WASM.items():
            tools[name] = os.path.join(bin, name)
            fs.append(ex.submit(go, run, ["build", "-ldflags=-s -w"] + tags + ["-o", tools[name], src], {"GOOS": goos, "GOARCH": "wasm"}))
        for name in ("parse", "matches"):
            tools[name] = os.path.join(bin, name)
            fs.append(ex.submit(go, run, ["build", "-o", tools[name], "./cmd/" + name]))
        for f in fs:
            f.result()
    # package wasm embeds what lies in /repo/wasm; let it find the fresh ones
    overlay = os.path.join(bin, "overlay.json")
    json.dump({"Replace": {os.path.join(REPO, "wasm", n): tools[n] for n in WASM}}, open(overlay, "w"))
    tools["server"] = os.path.join(bin, "server")
    go(run, ["build", "-overlay", overlay, "-o", tools["server"], "./cmd/server-wasm"])
    return tools


def front_end_runs(run, tools, plan):
    """Runs front ends as planned: [(program, args)] to observed runs."""
    strings = sorted({s for _, args in plan for s in args})
    lib = library(run, strings)
    runs = []
    with cf.ThreadPoolExecutor(CORES) as ex:
        runs += ex.map(lambda x: cli(tools, x[0], x[1], lib), [x for x in plan if x[0] in ("parse", "matches")])
        wasi = [args for p, args in plan if p == "wasi"]
        if wasi:
            k = max(1, min(4, len(wasi) // 10))
            parts = [wasi[i::k] for i in range(k)]
            for part, (got, p) in zip(parts, ex.map(lambda w: exchange(["node", os.path.join(JS, "wasi.js"), tools["parse-p1.wasm"]], [wasi_args(a) for a in w], 600), parts)):
                if len(got) != len(part):
                    raise Broken("wasi.js: %d of %d, exit %d: " % (len(got), len(part), p.returncode) + p.stderr.decode(errors="replace")[-2000:])
                for args, g in zip(part, got):
                    lines = g["out"].split("\n")
                    lines = lines[:-1] if lines[-1] == "" else lines
                    shown = [told(x, lib[args[i]] if i < len(args) else {"err": ""}) for i, x in enumerate(lines)]
                    runs.append({"program": "wasi", "args": args, "answers": [lib[s] for s in args], "well": g["code"] == 0, "shown": shown, "named": [True] * len(args), "raw": str(g)[:500]})
    js = list(dict.fromkeys(s for p, args in plan if p == "js" for s in args))
    if js:
        exec_js = goroot_file("wasm_exec.js")
        got, p = exchange(["node", os.path.join(JS, "js.js"), exec_js, tools["parse-js.wasm"]], js)
        for s, g in zip(js, got):
            if g["how"] == "fulfilled":
                x = told(g["what"], lib[s])
                x["kind"] = "json" if x["kind"] == "json" else "fulfilled with something else"
            elif g["how"] == "rejected":
                x = told(g["what"], lib[s])
                x["kind"] = "error" if x["kind"] == "error" else "rejected with JSON"
            else:
                x = {"kind": g["how"], "text": g["what"], "quotes": False}
            runs.append({"program": "js", "args": [s], "answers": [lib[s]], "well": True, "shown": [x], "named": [True], "raw": str(g)[:500], "before": js[:js.index(s)]})
        if len(got) != len(js):
            runs.append({"program": "js", "args": [js[len(got)]], "answers": [lib[js[len(got)]]], "well": False, "shown": [], "named": [True], "raw": p.stderr.decode(errors="replace")[-500:], "before": js[:len(got)]})
    page = list(dict.fromkeys(s for p, args in plan if p == "page" for s in args))
    if page:
        runs += page_runs(run, tools, page, lib)
    return runs


def wasi_args(args):
    return (["--"] if args and args[0].startswith("-") else []) + args


def goroot_file(name):
    root = sh(["go", "env", "GOROOT"], env=GOENV).stdout.decode().strip()
    for d in ("lib/wasm", "misc/wasm"):
        f = os.path.join(root, d, name)
        if os.path.exists(f):
            return f
    raise Broken("no " + name)


def page_runs(run, tools, page, lib):
    def lone(what, ok):
        run.observed += 1
        run.borne += 1
        if not ok:
            run.violation([{"k": "served", "what": what}], "the server does not serve " + what)
    try:
        server = Served(run, tools["server"])
    except OSError:
        run.violation([{"k": "served", "what": "anything"}], "the server does not start")
        return []
    runs = []
    try:
        www = os.path.join(REPO, "app", "server", "www")
        for d, _, names in os.walk(www):
            for n in names:
                p = os.path.relpath(os.path.join(d, n), www)
                if p.endswith(".html") or p.startswith(("css/", "javascript/")):
                    want = open(os.path.join(www, p), "rb").read()
                    code, got = server.get("" if p == "index.html" else p)
                    lone("/" + p, code == 200 and got == want)
        for n in WASM:
            code, got = server.get("wasm/" + n)
            lone("/wasm/" + n, code == 200 and got == open(tools[n], "rb").read())
        got, p = exchange(["node", os.path.join(JS, "page.js"), server.url], page)
        if not got:
            raise Broken("page.js: " + p.stderr.decode(errors="replace")[-2000:])
        head, got = got[0], got[1:]
        for path, status in head["served"].items():
            lone("%s, which the page needs" % path, status == 200)
        lone("a page that gets ready", head["ready"])
        for s, g in zip(page, got):
            x = told(g["text"], lib[s]) if g["kind"] in ("json", "error") else {"kind": g["kind"], "text": g["text"], "quotes": False}
            if g["kind"] == "error":
                x["kind"] = "error"
            runs.append({"program": "page", "args": [s], "answers": [lib[s]], "well": True, "shown": [x], "named": [True], "raw": str(g)[:500], "before": page[:page.index(s)]})
        if head["ready"] and len(got) != len(page):
            s = page[len(got)]
            runs.append({"program": "page", "args": [s], "answers": [lib[s]], "well": False, "shown": [], "named": [True], "raw": p.stderr.decode(errors="replace")[-500:], "before": page[:len(got)]})
    finally:
        server.close()
    return runs


def plain(t):
    """The text itself, of an escaped one that is UTF-8 without line breaks and NUL; or None."""
    t = re.sub(r"\\u\{([0-9a-f]+)\}", lambda m: chr(int(m.group(1), 16)), t)
    return None if "\\x{" in t or any(ord(c) < 32 or 0x7f <= ord(c) < 0xa0 or 0xd800 <= ord(c) < 0xe000 or c in "\u2028\u2029\u0085" for c in t) else t


def c19(run):
    q = plans.quick(run)
    r = run.rng
    tools = build_front_ends(run)
    pool = [p for p in (plain(t) for t in plans.everything(run) + plans.corrupted(run, limit=4000) + plans.noise(run, 300)) if p is not None]
    pool += ["'", '"', "1985'; rm", "a\\b", "<b>1985</b>", "&amp;", "%s", "%d", "1985%", "${HOME}", "*", "日本", "1985\u00e9", "1985 "]
    pool = sorted(set(pool))
    lib = library(run, pool)
    sorts = collections.defaultdict(list)
    for s in pool:
        a = lib[s]
        sorts["date" if a["ok"] and a["match"] else "undated" if a["match"] else "keyword" if a["ok"] else "wrong"].append(s)
    sorts["other"] = sorts["date"]
    for k in ("date", "undated", "keyword", "wrong"):
        if not sorts[k]:
            run.notes.append("no strings of the sort " + k)
            sorts[k] = ["1985"]
    plan = []
    for b in ops_of(run, "FrontEndWalk", {"LONGEST": "3" if q else "4"}):
        args = [r.choice(sorts[x]) for x in b["args"]]
        if b["program"] in ("js", "page"):
            args = args[:1]
        plan.append((b["program"], args))
    n = 200 if q else 4000
    plan += [("parse", r.sample(sorts["date"], 40)), ("matches", r.sample(sorts["date"], 40)), ("wasi", r.sample(pool, 60))]
    plan += [(p, [s]) for p in ("js", "page") for s in r.sample(sorts["date"], min(n, len(sorts["date"]))) + r.sample(sorts["wrong"], min(n // 2, len(sorts["wrong"])))]
    plan += [("parse", r.sample(sorts["date"], 12)) for _ in range(n // 20)] + [("wasi", r.sample(pool, 15)) for _ in range(n // 20)]
    # nearly a string: nothing is cut off, folded or repaired on the way to the library
    some = r.sample(sorts["date"], 12 if q else 120)
    for s in some + ["open", "unknown", "..", "", "1985"]:
        near = [" " + s, s + " ", s + "\t", "\ufeff" + s, s + "\u00a0", s + s, "'" + s + "'", '"' + s + '"', s.lower(), s.upper(), s + "/", "/" + s, s + ",", s + "?", "-" + s, s + "%20", s.replace("-", "\u2010"), s.replace("-", ""), s + ";"]
        plan += [(p, [t]) for p in ("parse", "matches", "wasi", "js", "page") for t in r.sample(near, 8 if q else 19)]
        plan += [("parse", [t]) for t in (s + "\n", s + "\r\n", "\n" + s)] + [(p, [t]) for p in ("js", "page") for t in (s + "\n", "\r\n" + s)]
        plan += [(p, [r.choice(some), t, r.choice(some)]) for p in ("parse", "matches") for t in near[:3]]
    runs = front_end_runs(run, tools, plan)
    step = -(-len(runs) // CORES)
    with cf.ThreadPoolExecutor(CORES) as ex:
        list(ex.map(lambda x: judge_runs(run, x), [runs[i:i + step] for i in range(0, len(runs), step)]))
