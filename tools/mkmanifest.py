"""Writes MANIFEST.json."""
import json, os

CORE = ("Explicit TLA+ specification: strings are generated by TLC from Typist.tla, run through the real library, and every observation is "
        "checked by TLC as a step of Observe.tla")
NOTES = {
 "C01": ("; robustness observations (panic, time, memory, both or neither) of generated, corrupted, glued, overlong and huge-exponent strings", "Bounded by the strings that are generated: every form, every single-character corruption of a base of each form, all strings up to 3 (thorough 5) characters over a small alphabet, long repetitions, huge exponents. Promptness is judged with generous limits, and confirmed before it is reported."),
 "C02": ("; agreement of IsValid, Matches, IsLevelN and ParseString", "Relational: the three answers are compared with each other, so no reading of EDTF is needed. Bounded by the generated strings."),
 "C03": ("; acceptance, level and feature compared with the recognisers of Grammar.tla", "Absolute: Grammar.tla says what is accepted, as which feature. Trusts that grammar, whose deliberate deviations from EDTF are marked DEVIATION. Exhaustive over short strings and single-character edits."),
 "C04": ("; every day of a 400-year cycle and more compared with Meaning.tla, whose calendar is model checked against a day-by-day clock (Clock.tla)", "Absolute. Every year-month-day (real and not) of some hundreds of consecutive years, every year and month; thorough: all of -9999..9999."),
 "C05": ("; instants with every shift compared with Meaning.tla, under several local time zones", "Absolute. Years at the edges, all shifts, edge days and clock times."),
 "C06": ("; intervals compared with their own two sides, parsed alone", "Relational: no reading of EDTF is needed but which sides there are."),
 "C07": ("; flags, times and texts of open and unknown ends compared with the keyword alone and the other side alone", "Relational and absolute. Both writings at both ends with every kind of other side."),
 "C08": ("; spans compared with the smallest and largest completion computed by Meaning.tla", "Absolute. Every pattern of X over some years, thorough over many."),
 "C09": ("; marks compared with Meaning.tla, times with the same string without qualifiers", "Absolute for marks, relational for the dates. Every placement of qualifiers."),
 "C10": ("; spans compared with Meaning.tla for every season and year", "Absolute. Every code with every year -9999..9999, every spelling of the words."),
 "C11": ("; the span of a set compared with the hull of its members, parsed alone", "Relational. Sets of up to 4 members enumerated, of up to 40 by random walks."),
 "C12": ("; spans compared with Meaning.tla", "Absolute, for every way of writing that denotes a year from -9999 to 9999 that is generated."),
 "C13": ("; ordering of the four corners of everything that parses", "Relational."),
 "C14": ("; DateTime, Timestamp, YMD, String, Lower and Upper compared with each other and with Calendar.tla; SetTime on random instants", "Absolute (calendar) and relational."),
 "C15": ("; comparisons compared with the order of spans; the order model itself checked for its laws (Order.tla)", "All pairs and many triples over clusters of strings that nearly coincide."),
 "C16": ("; ranges compared with the bounds of the parsed date", "Relational."),
 "C17": ("; dates compared with what comes back from encoding and decoding", "Relational, on every field, and twice."),
 "C18": ("; behaviours of Session.tla (clients, handles, mutations) acted out by one and by many goroutines under the race detector, in several processes and orders, and checked against SessionTrace.tla", "The interleavings of the concurrent runs are the scheduler's, under the race detector; the specification enumerates what clients do."),
 "C19": ("; every program with every sort of argument list from FrontEndWalk.tla, run for real (CLI, WASI, JS in node, server and page) and checked against FrontEndTrace.tla", "Relational: the library in a process of its own is the oracle. The browser is a small stand-in that runs the page's own scripts."),
 "C20": ("; kinds of error compared with Laws.tla", "Absolute; where the kind is a matter of taste the law allows several."),
 "C21": ("; behaviours of Flags.tla acted out on the real Precision; keywords enumerated", "All behaviours up to depth 2 (thorough 3) over all flags, long ones by random walks."),
 "C22": ("; helpers compared with Calendar.tla, model checked against a day-by-day clock (Clock.tla)", "Absolute. Every month of most years, all shapes of text."),
 "C23": ("; reported precision compared with Meaning.tla", "Absolute. Fully written dates report a precision of year, as documented by the tests."),
 "C24": ("; each feature's own IsX and ParseX compared with the dispatcher", "Relational."),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "cd driver && GOFLAGS=-mod=mod GOPROXY=off go build -o /dev/null . && cd .. && python3 -c 'import vf.plans'",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                 "technique": CORE + NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1] + " Trusts TLC and the driver."} for i in ids],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks use exported functions only. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
