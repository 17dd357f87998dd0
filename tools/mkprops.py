#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the wording of the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                  "observe_at": observe, "hook_needed": None}})
ENTRY = ["parser.IsValid", "parser.Matches", "parser.ParseString"]
p("C01", "No string makes the library crash, hang, or return both or neither result",
  "Whatever string they are given, validating, matching, parsing, comparing and range derivation return promptly: they never panic, never hang and never use memory out of proportion to the string. Parsing returns either an error and no date, or a date and no error; a returned date always has a start and an end, each with a lower and an upper bound. Every error has a non-empty message.",
  ["inputs"], "every string: any length, any bytes, EDTF or not (including near-misses of valid strings, huge exponents and huge digit counts)",
  "The tests parse about 150 hand-written strings, nearly all of them valid; a panic or a blow-up needs the one unlucky string (1950S5 and Y1E1000000000 did it on the original tree).",
  ["parser/parser.go", "common/range.go", "common/exponential.go", "level2/significant_digits.go", "level1/season.go", "level2/set_representation.go"],
  [("anchored regular expressions decide what reaches the parsers", "re/*.go"), ("indexing into years and months after a length check", "common/range.go, level2/significant_digits.go"), ("magnitude is compared before conversion", "common/exponential.go")],
  ENTRY + ["cmp.IsBefore/IsAfter/IsBetween", "unix.DeriveRanges"])
p("C02", "Validating, matching and parsing agree with each other about every string",
  "For every string other than '..' and the empty string, the string is valid exactly when matching it succeeds; a string that parses is always valid, and an invalid string never parses. The level and feature name reported by matching are those on the parsed date, the level is the lowest one that accepts the string, and the parsed date carries the original string unchanged. '..' and '' are valid, parse to an open and an unknown date (level -1, features Open and Unknown) and are not matched.",
  ["inputs"], "every string, valid or not",
  "The tests call each entry point on its own list; none checks two entry points on the same arbitrary string.",
  ["parser/parser.go", "level0/level0.go", "level1/level1.go", "level2/level2.go", "re/level0.go", "re/level1.go", "re/level2.go"],
  [("level dispatch", "parser/parser.go"), ("feature dispatch written twice per level (Matches and ParseString) plus a joined regular expression", "level*/level*.go, re/level*.go")],
  ENTRY + ["level0.IsLevel0", "level1.IsLevel1", "level2.IsLevel2", "level0.Matches", "level1.Matches", "level2.Matches"])
p("C03", "A string is accepted, as the right feature, exactly when the grammar says so",
  "Each string is given the level and feature of the first production of the EDTF grammar (Level 0: date, date and time, interval; Level 1: letter-prefixed year, season, qualified date, unspecified digits, negative year, extended interval; Level 2: exponential year, significant digits, sub-year grouping, set, group and individual qualification, unspecified digit, interval) that derives the whole string. A string that no production derives as a whole (a valid string with anything added before, after or inside it that the grammar does not allow) is not valid. Letter case, whitespace and signs are accepted only where the grammar allows them.",
  ["inputs"], "every string: all derivations of the grammar, and all strings one edit away from one",
  "Tests list a few members of each production and almost no non-members; on the original tree 1984foo was valid and 2004-06~ was a season.",
  ["re/re.go", "re/level0.go", "re/level1.go", "re/level2.go", "level0/level0.go", "level1/level1.go", "level2/level2.go"],
  [("one regular expression per production, anchored", "re/re.go"), ("order of the productions", "level*/level*.go")],
  ["parser.IsValid", "parser.Matches", "level*.Is*"])
p("C04", "A calendar date spans exactly its year, month or day",
  "A year, year-month or year-month-day (also with a minus sign) is parsed to the span from 00:00:00 UTC on its first day to 23:59:59 UTC on its last day in the proleptic Gregorian calendar, with leap years as that calendar has them (for negative years, as for the year without its sign). A date whose day does not exist in its month is an error when parsed.",
  ["inputs"], "every year -9999..9999, every month, every day 01..31, in all three precisions",
  "Tests pin the bounds of about ten dates; the calendar has century rules, year 0 and negative years that a sample does not visit.",
  ["common/range.go", "common/span.go", "common/ymd.go", "common/time.go", "common/year.go", "calendar/calendar.go", "level0/date.go", "level1/negative_calendar_year.go"],
  [("last day of the month", "calendar/calendar.go"), ("negative years are computed without their sign and flipped", "common/time.go, common/year.go")],
  ["parser.ParseString", "EDTFDate.Lower", "EDTFDate.Upper"])
p("C05", "A date and time denotes one instant, with its time shift applied",
  "A date and time is parsed to a span whose four bounds are all the same instant: the written local time minus the written shift (none or Z means UTC), to the second, also when the shift moves it to another day, month or year, before year 0 or past year 9999. Hours above 23, minutes or seconds above 59, and days that do not exist are errors when parsed. The result does not depend on the time zone of the machine.",
  ["inputs", "configurations"], "every date, time of day and shift; every local time zone",
  "Tests have five date-times in one year and run in one time zone.",
  ["level0/date_and_time.go", "common/year.go", "date.go", "timestamp.go"],
  [("layout chosen from the matched groups", "level0/date_and_time.go"), ("year flipped before conversion to UTC", "common/year.go")],
  ["parser.ParseString"])
p("C06", "An interval is made of exactly what its two sides mean on their own",
  "The start of an interval A/B runs from the lower to the upper bound that A has on its own, and its end from the lower to the upper bound that B has on its own, with their qualifiers and precision; the start and the end carry the text of their own side. If either side is not a possible date, the interval is an error. This holds for every combination of precisions, signs, qualifiers and unspecified digits on the two sides.",
  ["inputs"], "every pair of sides, in every form the grammar allows (Level 0, 1 and 2 intervals)",
  "Sides combine: tests have about twenty pairs.",
  ["common/span.go", "level0/time_interval.go", "level1/extended_interval.go", "level2/interval.go"],
  [("the spans of the two sides are merged by moving bounds between them", "common/span.go")],
  ["parser.ParseString", "common.DateSpanFromEDTF"])
p("C07", "Open and unknown ends are flagged, have no time, and never leak to the other end",
  "An end of an interval written '..' is flagged open and one written as nothing is flagged unknown, on both of its bounds, with no date-time, timestamp, year-month-day, qualifier or precision; the opposite, written end is what it would be on its own and carries neither flag. '..' is open and the empty string unknown at both ends. Asking such a date for the instant of an open or unknown bound reports 'not set', and never a time.",
  ["inputs"], "every date in every precision and sign, with each kind of missing end on each side",
  "Tests have twelve extended intervals and look at them one bound at a time.",
  ["common/span.go", "common/range.go", "level1/extended_interval.go", "parser/parser.go", "edtf.go"],
  [("fresh flagged ranges", "common/range.go OpenDateRange, UnknownDateRange"), ("nil timestamp means not set", "edtf.go Lower, Upper")],
  ["parser.ParseString", "EDTFDate.Lower", "EDTFDate.Upper"])
p("C08", "Unspecified digits span from their smallest to their largest completion",
  "A date with X digits that parses spans from the first day to the last day that writing digits for the Xs can give: trailing Xs in the year run over 0..9, month X digits over the months and day X digits over the days that exist. When the first or the last of these would not be a real date, or the year begins with X, is negative, or has an X without ending in one (19X5), the result is an error and not a guess.",
  ["inputs"], "every placement of X in year, month and day, for every year prefix, alone and as a side of an interval",
  "There are thousands of X patterns per year; tests have about fifteen. On the original tree 0X months and days and 2X in February were wrong.",
  ["common/range.go", "calendar/calendar.go", "level1/unspecified_digits.go", "level2/unspecified_digit.go"],
  [("per-digit bounds", "common/range.go StringRangeFromYMD")],
  ["parser.ParseString"])
p("C09", "Qualifiers mark exactly the components they apply to, and never move the dates",
  "'?' marks components uncertain, '~' approximate and '%' both: to the right of a component it applies to that component and all to its left, to the left of a component to that component only, and at the end of a date to the whole date; several qualifiers add up, and unqualified components and unqualified sides of an interval are not marked. Both bounds of a side carry the same marks. Removing the qualifiers from a string leaves every date, time and precision as it was.",
  ["inputs"], "every combination of qualifiers, positions and precisions, for every date, alone and in intervals",
  "4^3 combinations per form and two sides; tests have about ten and check flags on few of them.",
  ["common/range.go", "re/re.go", "level1/qualified_date.go", "level2/qualification.go", "precision.go"],
  [("group and individual qualifiers", "common/range.go parseYMDComponent, StringRangeFromYMD")],
  ["parser.ParseString"])
p("C10", "Seasons and sub-year groupings span exactly their months, in every year",
  "Each season and grouping code 21 to 41, and each season word in any letter case, spans from the first day of its first month to the last day of its last month: seasons by hemisphere, quarters, quadrimesters and semesters of its year, with northern winter and southern summer running from December of its year to the end of February of the next (leap years included). This holds for every year the grammar allows, including negative years for codes 21 to 24 and years before 1000; the season that would end after year 9999 is an error.",
  ["inputs"], "every year and every code or word, with any whitespace the grammar allows around the comma",
  "Tests check a handful of codes in one or two years; years below 1000 failed on the original tree.",
  ["level1/season.go", "level2/sub_year_grouping.go", "calendar/calendar.go", "common/span.go"],
  [("tables of months per code", "level1/season.go, level2/sub_year_grouping.go")],
  ["parser.ParseString", "level1.ParseSeason", "level2.ParseSubYearGroupings"])
p("C11", "A set spans from its earliest to its latest member, however it is written",
  "The span of a set runs from the start of the member that begins first to the end of the member that ends last, whatever the order, precision or sign of its members and whether they are listed or given as ranges; permuting the members does not change the dates. Leading or trailing '..' makes the corresponding end open. Bounds that are not open carry the inclusivity 'any' for a set opened with '[' and 'all' for one opened with '{', and a set with a member that is not a possible date is an error.",
  ["inputs"], "every list of members and ranges: any length, order, precision and sign, each bracket, each open end",
  "Lists are unbounded; tests have nine, all sorted and of positive years. The original tree sorted members as text.",
  ["level2/set_representation.go", "common/span.go"],
  [("members are validated and compared by time", "level2/set_representation.go")],
  ["parser.ParseString"])
p("C12", "Letter-prefixed, exponential and significant-digit years denote the right years",
  "A letter-prefixed year, an exponential year nEm (n times ten to the m) and a year with k significant-digit positions (the last k of its four digits running over 0..9) span exactly the years that they denote, for positive and negative years, from January 1st to December 31st. A year whose magnitude exceeds 9999 is reported as unsupported, more significant digits than the year has as invalid, and no other year is silently substituted.",
  ["inputs"], "every mantissa, exponent, digit count and sign, in each of the three notations",
  "Unbounded digit strings; tests have eight. The original tree panicked on 1950S5 and read Y1E40 as year 0.",
  ["level1/letter_prefixed_calendar_year.go", "level2/exponential_year.go", "level2/significant_digits.go", "common/exponential.go"],
  [("magnitude check", "common/exponential.go"), ("digit splitting", "level2/significant_digits.go")],
  ["parser.ParseString", "common.ParseExponentialNotation"])
p("C13", "Within every parsed date the bounds are ordered and consistent",
  "In every parsed date the lower bound of the start is not after its upper bound, and the lower bound of the end is not after its upper bound. In everything but two-sided intervals (whose sides may be written in any order) the start also does not begin after the end begins, nor end after the end ends, so the span from the first bound to the last contains every bound. A bound has a time exactly when it is neither open nor unknown, and is never both.",
  ["inputs"], "every string that parses",
  "A relation between four bounds over all inputs; tests compare single bounds with literals.",
  ["common/span.go", "level2/set_representation.go", "level2/significant_digits.go", "edtf.go"],
  [("construction of the four bounds", "common/span.go")],
  ["parser.ParseString", "EDTFDate.Lower", "EDTFDate.Upper"])
p("C14", "Date-time, timestamp and year-month-day of a bound tell the same moment",
  "In every bound of every parsed date, the date-time string is the RFC 3339 rendering, in UTC, of the timestamp, and the year, month and day are the calendar day of that timestamp; they are present together (date-times have no year-month-day) and absent together on open and unknown bounds. The overall lower and upper instant of a date are the timestamps of its first and last bound. Setting the time of a bound from an instant in any zone gives the same timestamp and UTC date-time.",
  ["inputs", "configurations"], "every bound of every string that parses, negative years and year 0 included; every instant and zone for setting a time",
  "Redundant fields can diverge for any input; tests check one of them at a time.",
  ["date.go", "timestamp.go", "ymd.go", "common/span.go", "common/time.go", "edtf.go"],
  [("one time.Time sets both fields", "date.go SetTime"), ("YMD set separately", "common/span.go")],
  ["parser.ParseString", "Date.SetTime", "Timestamp.Time", "Timestamp.Unix"])
p("C15", "Before and after are strict, opposite, transitive, and agree with the spans",
  "One date is before another exactly when its last instant is earlier than the other's first, and after exactly when its first instant is later than the other's last; so A is before B exactly when B is after A, and, among dates that do not end before they begin (as 2000/1990 does), nothing is before or after itself, both never hold together, and before is transitive. A date is between an inception and a cessation exactly when it is neither before the first nor after the second ('..' as cessation never excludes). Comparing through an open or unknown bound is an error (an open date itself is neither before nor after anything), and string and object comparison agree.",
  ["inputs", "histories"], "every pair and triple of strings, including open, unknown, overlapping, touching and equal ones",
  "Laws over pairs and triples; tests compare nine pairs, none touching or equal. After was not strict on the original tree.",
  ["edtf.go", "cmp/after.go", "cmp/before.go", "cmp/between.go"],
  [("comparison of outer bounds", "edtf.go After, Before")],
  ["cmp.IsBefore", "cmp.IsAfter", "cmp.IsBetween", "EDTFDate.Before", "EDTFDate.After"])
p("C16", "Unix ranges are the bounds of the parsed date, or are reported as not derivable",
  "For every string that parses with all four bounds set, the outer Unix range runs from the first bound's to the last bound's timestamp and the inner range from the upper bound of the start to the lower bound of the end. A date with any open or unknown bound, and the open and unknown keywords of 2012 and 2019, give 'not derived' without error; a string that does not parse gives an error. Dates before 1970 are negative numbers.",
  ["inputs"], "every string",
  "Tests derive two ranges, both of single days.",
  ["unix/range.go"], [("nil timestamps mean not derivable", "unix/range.go")], ["unix.DeriveRanges"])
p("C17", "A parsed date survives JSON encoding and decoding unchanged",
  "Encoding any parsed date as JSON and decoding it gives an equal date, and encoding that again gives the same bytes. The JSON has the documented members: timestamps as signed integers (0 included), year-month-day as numbers or null, flags and precisions omitted when unset, no timestamp or date-time on open and unknown bounds. A decoded date answers every question (bounds, comparison) as the original does. A timestamp is decoded from any 64-bit integer exactly, and what is not an integer is an error.",
  ["inputs", "histories"], "every string that parses; bounds at, before and after the epoch",
  "Tests never decode; the timestamp encoding is hand-written.",
  ["timestamp.go", "date.go", "daterange.go", "edtf.go", "ymd.go"],
  [("custom marshaller", "timestamp.go"), ("struct tags", "date.go, edtf.go, daterange.go, ymd.go")],
  ["encoding/json on edtf.EDTFDate"])
p("C18", "A result depends on the string alone, not on history, schedule or other results",
  "Parsing, matching and validating a string give the same answer every time, whatever was parsed before, however many goroutines parse at once and in whatever order, without data races. Changing a returned date changes no other result, neither one returned earlier nor one returned later, even for the same string. Comparing or encoding a date does not change it.",
  ["inputs", "histories", "schedules"], "every sequence and every interleaving of parse, match, compare, encode and mutate operations by several clients",
  "Tests parse each string once, in one goroutine, and never modify a result.",
  ["parser/parser.go", "common/range.go", "common/span.go", "level0/date_and_time.go", "level2/set_representation.go", "re/re.go", "deprecated.go"],
  [("no package-level mutable state; fresh structs per call", "common/range.go EmptyDateRange, OpenDateRange, UnknownDateRange"), ("read-only tables", "re/*.go, deprecated.go")],
  ENTRY, [{"name": "results", "meaning": "the dates handed out to clients", "where": "*edtf.EDTFDate"}])
p("C19", "Every front end gives the answers of the library",
  "The parse command prints a JSON list of what the library gives for each argument, in order, and exits non-zero with a message naming the string if one does not parse; the matches command prints level and feature of each argument and fails likewise. The WASI program and the JavaScript function give the library's JSON for strings that parse and the library's error message for those that do not. The server serves the page and the WASM files it embeds.",
  ["inputs", "configurations"], "every list of arguments, for every front end",
  "There are no tests of any program under cmd.",
  ["cmd/parse/main.go", "cmd/matches/main.go", "cmd/parse-wasi/main.go", "cmd/parse-wasm/main.go", "cmd/server-wasm/main.go", "wasm/wasm.go", "app/server/www/www.go"],
  [("thin wrappers round the parser package", "cmd/*/main.go")],
  ["stdout, stderr and exit code of the programs", "the promise returned by parse_edtf"])
p("C20", "Errors say why: unrecognized, invalid, unsupported, not implemented, not set",
  "A string that is not valid EDTF is refused as unrecognized; a valid year outside -9999..9999 as unsupported; a year that begins with X as not implemented; more significant digits than the year has, misused set notation and components that no date can have (month 13, day 32) as invalid; a missing bound as not set. Each kind of error is recognised by its own predicate and by no other, and an error made for a string quotes it. An error that belongs to none of these kinds is recognised by none of the predicates.",
  ["inputs"], "every string that does not parse, and every error constructor and predicate",
  "Tests only check that a few strings fail; NotSet returned the wrong type on the original tree.",
  ["errors.go", "parser/parser.go", "common/range.go", "common/ymd.go", "common/exponential.go", "level1/letter_prefixed_calendar_year.go", "level2/significant_digits.go"],
  [("error types and predicates", "errors.go")],
  ["parser.ParseString", "parser.Matches", "EDTFDate.Lower", "edtf.Is*"])
p("C21", "Precision is a set of flags, and keywords are classified consistently",
  "The precision constants are distinct single bits with the documented values, and adding, clearing, toggling and testing flags act as set union, difference, symmetric difference and non-empty intersection, in any sequence, touching no other flag. Annual, monthly and daily are the tests for their flag. '..' and 'open' are open, '' and 'uuuu' are unknown and unspecified, nothing else is; exactly 'open' and 'uuuu' are deprecated and are replaced by their current form, anything else is an error.",
  ["inputs", "histories"], "every flag set and every sequence of flag operations; every keyword and near-miss",
  "Tests cover two deprecated keywords and no flag operation.",
  ["precision.go", "edtf.go", "deprecated.go"],
  [("bit operations", "precision.go"), ("keyword tables", "edtf.go, deprecated.go")],
  ["edtf.Precision methods", "edtf.IsOpen, IsUnknown, IsUnspecified", "edtf.IsDeprecated, ReplaceDeprecated"],
  [{"name": "flags", "meaning": "the set of flags in a Precision value", "where": "precision.go"}])
p("C22", "Calendar helpers compute the proleptic Gregorian calendar",
  "The number of days of a month is the Gregorian one for every year from -9999 to 9999 and an error for a month outside 1..12 or a malformed string. Year-month-day strings and parts become the numbers they spell, an omitted month January and an omitted day the last day of the month, and impossible or malformed ones are errors; equality of year-month-days is equality of all three numbers. Turning a year-month-day and a time of day into an instant, and flipping an instant to the negative year, are exact.",
  ["inputs"], "every year, month and day, as numbers and as strings, in and out of range",
  "Tests check four months and a few dates.",
  ["calendar/calendar.go", "common/ymd.go", "common/time.go", "common/year.go", "ymd.go"],
  [("first day of the next month minus one day", "calendar/calendar.go"), ("component parsing and range checks", "common/ymd.go")],
  ["calendar.DaysInMonth", "calendar.DaysInMonthWithString", "common.YMDFromString(s)", "common.TimeWithYMD(String)", "common.FlipYear", "common.TimeToBCE", "YMD.Equals"])
p("C23", "The reported precision is that of the coarsest unspecified component",
  "Every bound of a parsed date other than a date and time reports exactly one precision flag: millennium, century or decade when the year has three, two or one unspecified trailing digits; month when only the day is unspecified or the month is narrowed to 0X or 1X; and year otherwise (fully written dates report year, as documented). Both bounds of a side report the same precision, which does not depend on the other side or on qualifiers. Open and unknown bounds and date-times report none.",
  ["inputs"], "every string that parses",
  "Tests do not check precision except in one documented example.",
  ["common/range.go", "common/span.go", "precision.go"],
  [("precision cascade", "common/range.go StringRangeFromYMD")],
  ["parser.ParseString"])
p("C24", "Each feature's own entry points agree with the dispatcher",
  "For every feature, its own predicate accepts exactly the strings of its production, and its own parser refuses every other string as invalid. On a string that the dispatcher assigns to the feature, the feature's parser and its level's parser return what the dispatcher returns, and a date span built from a date or interval text has the bounds of parsing that text; the string range of a date text has its first and last day, marks and precision, and the number of an exponential notation is the year. Whichever of the features that a text belongs to reads it, it spans the same time, with the same marks and precision. Each level's parser and matcher accept the same strings.",
  ["inputs"], "every string, for every feature predicate and parser, whether or not the dispatcher would send it there",
  "The dispatcher shadows most features on most strings, so tests only ever see them through one path; IsExtendedInterval was true of everything on the original tree.",
  ["level0/date.go", "level0/date_and_time.go", "level0/time_interval.go", "level1/*.go", "level2/*.go", "common/span.go"],
  [("own regular expression check in every parser", "level0/*.go, level1/*.go, level2/*.go")],
  ["level0.Is*/Parse*", "level1.Is*/Parse*", "level2.Is*/Parse*", "common.DateSpanFromEDTF", "common.StringRangeFromYMD", "common.ParseExponentialNotation"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
