#!/usr/bin/env python3
"""check.py ID: decides a property on /repo's working tree.   check.py --replay FILE: once more.

VERIF_TIER is quick (the default) or thorough, VERIF_SEED seeds every random choice.
Exit 0: it held on everything explored. 1: violated, see the VIOLATION lines. 2: no verdict."""
import json, os, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core, plans, special

TIMING = ("did not return", "does not return", "no answer from", "memory in", "slow", "took")
HERE = core.VERIF


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known-findings.txt")):
        m = re.match(r"finding: property=(\S+) case=(\{.*?\}) (.*)$", line)
        if m and m.group(1) == prop:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def same(case, listed):
    return all(case.get(k) == v for k, v in listed.items())


def again(run, v):
    """Does the violation show again? None if it does not, or the smallest thing that shows it."""
    case = v["cases"][0]
    k = case.get("k")
    if k == "session":
        events, wrong = special.play(run, case["steps"], run.build(race=True) if any("race" in s[1] for s in case["steps"]) else None)
        bad = wrong or (special.judge_sessions(run, events) or (0, ""))[1]
        return (v["cases"], bad) if bad else None
    if k == "frontend":
        before = len(run.violations)
        tools = special.build_front_ends(run)
        for past in ([], [s for s in v.get("history") or [] if isinstance(s, str)]):
            special.judge_runs(run, special.front_end_runs(run, tools, [(case["program"], [s]) for s in past] + [(case["program"], case["args"])]))
            bad = [x for x in run.violations[before:] if x["cases"][0].get("args") == case["args"] or past]
            del run.violations[before:]
            if bad:
                return (past or v["cases"], bad[0]["why"])
        return None
    if k == "served":
        before = len(run.violations)
        special.page_runs(run, special.build_front_ends(run), ["1985"], special.library(run, ["1985"]))
        bad = run.violations[before:]
        del run.violations[before:]
        return (v["cases"], bad[0]["why"]) if bad else None
    for cases in (v["cases"], v.get("history")):
        if cases:
            bad, _, _, _ = run.shard(cases, v.get("env"))
            bad = [w for n, w in bad if cases[n - 1] == case]
            if bad:
                return cases, bad[0]
    return None


def explain(v):
    c = v["cases"][0]
    if c.get("k") == "session":
        return "a session of %d processes" % len(c["steps"])
    return json.dumps({k: x for k, x in c.items() if x not in ("", None)})[:300]


def report(run, listed):
    """What was found, confirmed and written down. Gives the number of violations."""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    shown, seen, said = 0, set(), set()
    for v in run.violations:
        hit = next((w for c, w in listed if same(v["cases"][0], c)), None)
        if hit:
            if hit not in said:
                print("KNOWN-FINDING: property=%s %s" % (run.prop, hit))
                said.add(hit)
            continue
        reason = re.sub(r"\d+", "N", v["why"])[:60]
        timing = any(t in v["why"] for t in TIMING)
        if shown >= 5 or (reason in seen and shown >= 3):
            shown += 1
            continue
        try:
            confirmed = again(run, v) if run.driver else None
        except core.Broken:
            confirmed = None
        if not confirmed and (timing or v["cases"][0].get("k") in ("frontend", "served")):
            run.notes.append("not confirmed: %s %s" % (v["why"], explain(v)))
            continue
        seen.add(reason)
        shown += 1
        f = os.path.join(HERE, "replays", "%s-%d-%d.json" % (run.prop, run.seed, shown))
        json.dump({"property": run.prop, "why": v["why"], "cases": confirmed[0] if confirmed else (v.get("history") or v["cases"]), "case": v["cases"][0],
                   "env": v.get("env"), "alone": bool(confirmed)}, open(f, "w"), indent=1)
        print("%s: %s" % (v["why"], explain(v)))
        print("VIOLATION property=%s replay=%s" % (run.prop, f), flush=True)
    return shown


def evidence(run, violations):
    cov = {"states": run.states, "transitions": run.transitions, "traces_validated_against_impl": run.observed,
           "with_a_bearing_on_the_property": run.borne, "texts_generated": run.generated, "samples": run.samples or ["none"]}
    if run.notes:
        cov["notes"] = run.notes[:20]
    e = {"property": run.prop, "tier": run.tier, "seed": run.seed, "level": "model_checking", "coverage": cov,
         "assumptions": ["the reading of EDTF in spec/Grammar.tla and spec/Meaning.tla", "TLC and the driver in /verif/driver"],
         "wall_s": round(time.time() - run.t0, 1), "violations": violations}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    f = os.path.join(HERE, "evidence", run.prop + ".json")
    json.dump(e, open(f + ".tmp", "w"), indent=1)
    os.replace(f + ".tmp", f)


def replay(f):
    r = json.load(open(f))
    run = core.Run(r["property"], "quick", 0)
    try:
        run.build()
        bad = again(run, {"cases": [r["case"]], "history": r["cases"], "env": r.get("env")})
        if bad:
            print("%s: %s" % (bad[1], explain({"cases": [r["case"]]})))
            print("VIOLATION property=%s replay=%s" % (r["property"], f))
            return 1
        print("it does not show")
        return 0
    finally:
        run.close()


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    run = core.Run(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        plans.PLANS[prop](run)
        n = report(run, known(prop))
        evidence(run, n)
        if run.borne == 0 and n == 0:
            raise core.Broken("nothing that was observed has any bearing on the property")
        print("%s: %d observed, %d with a bearing, %d states, %.0f s" % (prop, run.observed, run.borne, run.states, time.time() - run.t0))
        return 1 if n else 0
    finally:
        run.close()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.Broken as e:
        print("no verdict: %s" % e, file=sys.stderr)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
