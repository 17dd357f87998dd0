-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* The properties, as predicates on an observation of the real library.    *)
(*                                                                         *)
(* Cnn(o) is "" when the observation o obeys property Cnn and a reason     *)
(* when it does not; Bears(prop, o) says whether o has any bearing on the  *)
(* property (which is how vacuous runs show).  Where a property relates    *)
(* results to each other (an interval to its sides, a set to its members,  *)
(* a comparison to the spans) the law relates what was observed to what    *)
(* was observed; where a property says what a string denotes the law       *)
(* compares with Meaning.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Chars, Calendar, Grammar, Meaning

CornerNames == {"SL", "SU", "EL", "EU"}

\* first reason that is not ""
RECURSIVE First(_)
First(reasons) == IF reasons = <<>> THEN "" ELSE IF Head(reasons) # "" THEN Head(reasons) ELSE First(Tail(reasons))
Check(ok, reason) == IF ok THEN "" ELSE reason

\* facets of two dates
SameTimes(x, y) == \A n \in CornerNames : x[n].t = y[n].t
SameDays(x, y) == \A n \in CornerNames : x[n].d = y[n].d
SameMarks(x, y) == \A n \in CornerNames : x[n].u = y[n].u /\ x[n].a = y[n].a
SamePrecision(x, y) == \A n \in CornerNames : x[n].p = y[n].p
SameInclusivity(x, y) == \A n \in CornerNames : x[n].i = y[n].i
SameFlags(x, y) == \A n \in CornerNames : x[n].o = y[n].o /\ x[n].k = y[n].k
SameTexts(x, y) == x.se = y.se /\ x.ee = y.ee

Loose(w) == "or" \in DOMAIN w   \* the specification leaves the outcome open

\* p, an outcome of parsing, is a date or an error, as w says it is; and if it is a date, Same
Denotes(p, w, Same(_, _)) ==
    IF p.panic \/ p.slow THEN "did not return"
    ELSE IF Loose(w) THEN ""
    ELSE IF w.ok /\ ~p.ok THEN "refused"
    ELSE IF ~w.ok /\ p.ok THEN "accepted"
    ELSE IF ~p.ok THEN ""
    ELSE IF ~p.date.whole THEN "date with a part missing"
    ELSE Same(p.date, w)

TimesAndDays(x, y) == First(<<Check(SameTimes(x, y), "times"), Check(SameDays(x, y), "days")>>)
Everything(x, y) ==
    First(<<Check(SameTimes(x, y), "times"), Check(SameDays(x, y), "days"),
            Check(SameMarks(x, y), "marks"), Check(SamePrecision(x, y), "precision"),
            Check(SameInclusivity(x, y), "inclusivity"), Check(SameFlags(x, y), "flags"),
            Check(SameTexts(x, y), "texts")>>)

HasX(c) == \E i \in DOMAIN c : c[i] = "X"
HasSlash(c) == \E i \in DOMAIN c : c[i] = "/"
IsKeyword(c) == IsOpenText(c) \/ IsUnknownText(c)

---------------------------------------------------------------------------
(* C01: value or error, never neither, never both (o.k = "entry" or "robust") *)

C01(o) ==
    IF o.k = "robust" THEN
        First(<<Check(~o.panic, "panic in " \o o.where), Check(~o.slow, "no answer from " \o o.where),
                Check(~o.greedy, "memory in " \o o.where), Check(o.whole, "neither a whole date nor an error: " \o o.where),
                Check(o.told, "error without a message: " \o o.where)>>)
    ELSE
        First(<<Check(~o.p.panic, "parsing panics"), Check(~o.p.slow, "parsing does not return"),
                Check(~o.p.both, "both or neither of date and error"),
                Check(o.p.ok => o.p.whole, "date with a part missing"),
                Check(~o.p.ok => o.p.msg, "error without a message"),
                Check(o.valid # 2 /\ ~(\E i \in 1..3 : o.l[i] = 2), "validating panics"),
                Check(~o.m.panic /\ ~(\E i \in 1..3 : o.lm[i].panic), "matching panics"),
                Check(~o.m.ok => o.m.msg, "error without a message from matching")>>)

---------------------------------------------------------------------------
(* C02: the entry points agree (o.k = "entry") *)

LowestLevel(o) == IF o.l[1] = 1 THEN 0 ELSE IF o.l[2] = 1 THEN 1 ELSE 2
C02(o) ==
    IF IsKeyword(o["in"]) THEN
        First(<<Check(o.valid = 1, "keyword is not valid"), Check(~o.m.ok, "keyword is matched"),
                Check(o.p.ok /\ o.p.level = -1 /\ o.p.edtf = o.s
                      /\ o.p.feature = (IF IsOpenText(o["in"]) THEN "Open" ELSE "Unknown"), "keyword parsed wrongly")>>)
    ELSE
        First(<<Check((o.valid = 1) = o.m.ok, "valid but not matched, or the reverse"),
                Check(o.p.ok => o.valid = 1, "parsed but not valid"),
                Check((o.valid = 1) = (\E i \in 1..3 : o.l[i] = 1), "valid at no level, or the reverse"),
                Check(\A i \in 1..3 : (o.l[i] = 1) = o.lm[i].ok, "a level and its matcher disagree"),
                Check(o.m.ok => o.m.level = LowestLevel(o), "not the lowest level"),
                Check(o.m.ok => o.m.feature = o.lm[LowestLevel(o) + 1].feature /\ o.m.feature # "", "feature is not the level's"),
                Check(o.m.ok /\ o.p.ok => o.p.level = o.m.level /\ o.p.feature = o.m.feature, "matched and parsed differently"),
                Check(o.p.ok => o.p.edtf = o.s, "the date carries another string")>>)

---------------------------------------------------------------------------
(* C03: the grammar (o.k = "entry") *)

C03(o) ==
    LET c == o["in"]
        f == Feature(c)
        fs == <<Feature0(c), Feature1(c), Feature2(c)>>
    IN First(<<Check((o.valid = 1) = (f # "" \/ IsKeyword(c)), IF o.valid = 1 THEN "valid, but no production derives it" ELSE "not valid, but derived as " \o f),
               Check(o.m.ok = (f # ""), "matched wrongly, should be " \o f),
               Check(o.m.ok => o.m.feature = f /\ o.m.level = LevelOf[f], "matched as the wrong feature, should be " \o f),
               Check(f # "" /\ o.p.ok => o.p.feature = f /\ o.p.level = LevelOf[f], "parsed as the wrong feature, should be " \o f),
               Check(f = "" /\ ~IsKeyword(c) => ~o.p.ok, "parsed, but no production derives it"),
               Check(\A i \in 1..3 : (o.l[i] = 1) = (fs[i] # ""), "a level accepts or refuses it wrongly"),
               Check(\A i \in 1..3 : o.lm[i].ok => o.lm[i].feature = fs[i], "a level matches the wrong feature")>>)

---------------------------------------------------------------------------
(* C04, C05, C08, C10, C12: what strings denote (o.k = "parse") *)

In(o, features) == Feature(o["in"]) \in features

C04Features == {"Date", "Negative calendar year"}
C04(o) == Denotes(o.p, Outcome(o["in"]), TimesAndDays)

C05Features == {"Date and Time"}
C05(o) == Denotes(o.p, Outcome(o["in"]), TimesAndDays)

C08Features == {"Unspecified digit(s) from the right", "Unspecified Digit", "Interval"}
C08(o) == Denotes(o.p, Outcome(o["in"]), TimesAndDays)

C10Features == {"Seasons", "Sub-year groupings"}
C10(o) == Denotes(o.p, Outcome(o["in"]), TimesAndDays)

C12Features == {"Letter-prefixed calendar year", "Exponential year", "Significant digits"}
C12(o) ==
    LET w == Outcome(o["in"]) IN
    First(<<Denotes(o.p, w, TimesAndDays),
            \* how it is refused is part of the property
            Check(~o.p.ok /\ ~w.ok /\ w.err # AnyKind => o.p.err \in w.err, "refused with the wrong kind of error: " \o o.p.err),
            IF Loose(w) /\ o.p.ok THEN TimesAndDays(o.p.date, SpanOfYear(0)) ELSE "">>)

---------------------------------------------------------------------------
(* C06, C07: intervals and their sides (o.k = "sides") *)

\* what the side c, observed on its own as p, is as an end of an interval
ObservedEnd(c, p) ==
    IF c = <<>> THEN SpanUnknown("")
    ELSE IF IsOpenText(c) THEN SpanOpen("..")
    ELSE IF p.ok THEN p.date @@ [ok |-> TRUE]
    ELSE Bad({p.err})

C06Features == {"Time Interval", "Interval", "Extended Interval (Start)", "Extended Interval (End)"}
C06Same(x, y) ==
    First(<<Check(SameTimes(x, y), "times"), Check(SameDays(x, y), "days"), Check(SameMarks(x, y), "marks"),
            Check(SamePrecision(x, y), "precision"), Check(SameTexts(x, y), "texts"), Check(SameInclusivity(x, y), "inclusivity"),
            Check(\A n \in CornerNames : x[n].dt = y[n].dt, "date-times"),
            Check(\A n \in CornerNames : x[n].x = 0, "unspecified")>>)
WithText(s) == [s EXCEPT !.SL = [dt |-> ""] @@ @, !.SU = [dt |-> ""] @@ @, !.EL = [dt |-> ""] @@ @, !.EU = [dt |-> ""] @@ @]
End6(c, p) == LET e == ObservedEnd(c, p) IN IF e.ok /\ (c = <<>> \/ IsOpenText(c)) THEN WithText(e) ELSE e
C06(o) == LET w == Between(End6(o.ac, o.a), End6(o.bc, o.b))
          IN First(<<Denotes(o.p, w, C06Same), Denotes(o.sp, w, C06Same)>>)

Bare(x) == x.t = <<>> /\ x.d = <<>> /\ x.dt = "" /\ x.u = 0 /\ x.a = 0 /\ x.x = 0 /\ x.p = 0 /\ x.i = 0
MissingEnd(c, x, y) ==
    IF IsOpenText(c) THEN x.o /\ y.o /\ ~x.k /\ ~y.k /\ Bare(x) /\ Bare(y)
    ELSE IF IsUnknownText(c) THEN x.k /\ y.k /\ ~x.o /\ ~y.o /\ Bare(x) /\ Bare(y)
    ELSE ~x.k /\ ~y.k /\ ~x.o /\ ~y.o
\* Lower and Upper answer with the instant of the corner, or "not set"
Answers(ans, x) == IF x.o \/ x.k THEN ~ans.ok /\ ans.err = "NotSet" /\ ans.t = <<>> ELSE ans.ok /\ ans.t = x.t
C07(o) ==
    IF o.k = "sides" THEN
        IF ~IsKeyword(o.ac) /\ ~IsKeyword(o.bc) THEN
            IF o.p.ok THEN Check(MissingEnd(o.ac, o.p.date.SL, o.p.date.SU) /\ MissingEnd(o.bc, o.p.date.EL, o.p.date.EU), "a written end is flagged") ELSE ""
        ELSE First(<<C06(o),
                IF o.p.ok THEN First(<<
                    Check(MissingEnd(o.ac, o.p.date.SL, o.p.date.SU), "start flagged wrongly"),
                    Check(MissingEnd(o.bc, o.p.date.EL, o.p.date.EU), "end flagged wrongly"),
                    Check(o.p.date.se = Join(o.ac) /\ o.p.date.ee = Join(o.bc), "texts")>>) ELSE "">>)
    ELSE \* "bounds"
        IF ~o.p.ok \/ ~o.p.date.whole THEN Check(~IsKeyword(o["in"]), "keyword refused")
        ELSE First(<<Check(IsKeyword(o["in"]) => MissingEnd(o["in"], o.p.date.SL, o.p.date.SU) /\ MissingEnd(o["in"], o.p.date.EL, o.p.date.EU), "keyword flagged wrongly"),
                     Check(Answers(o.p.lower, o.p.date.SL), "Lower"), Check(Answers(o.p.upper, o.p.date.EU), "Upper")>>)

---------------------------------------------------------------------------
(* C09: qualifiers (o.k = "quals") *)

C09(o) ==
    LET w == Outcome(o["in"])
        bare == SelectSeq(o["in"], LAMBDA x : x \notin Qualifiers) IN
    First(<<Check(~o.p.panic, "panic"),
            IF o.p.ok /\ w.ok THEN Check(SameMarks(o.p.date, w), "marks") ELSE "",
            IF o.p.ok /\ (\A i \in DOMAIN bare : bare[i] # "X") THEN Check(\A n \in CornerNames : o.p.date[n].x = 0, "unspecified mark") ELSE "",
            \* 1985-21~ is no season, for there are no qualified seasons; it is a date without such a month
            IF IsValidText(o["in"]) /\ Feature(bare) \notin {"Seasons", "Sub-year groupings"}
            THEN Check(o.p.ok = o.q.ok, "qualifiers decide whether it parses") ELSE "",
            IF IsValidText(o["in"]) /\ o.p.ok THEN Check(o.q.ok, "parses only with qualifiers") ELSE "",
            IF o.p.ok /\ o.q.ok THEN
                First(<<Check(SameTimes(o.p.date, o.q.date), "qualifiers move the times"),
                        Check(SameDays(o.p.date, o.q.date), "qualifiers move the days"),
                        Check(SamePrecision(o.p.date, o.q.date), "qualifiers change the precision"),
                        Check(SameFlags(o.p.date, o.q.date), "qualifiers change the flags")>>)
            ELSE "">>)

---------------------------------------------------------------------------
(* C11: sets and their members (o.k = "set") *)

Hull(o) ==
    LET ms == o.members
        spans == [i \in DOMAIN ms |-> ms[i].p.date]
        ds == [i \in DOMAIN ms |-> ms[i]["in"]]
    IN [first |-> spans[BeginsFirst(ds, spans)], last |-> spans[EndsLast(ds, spans)]]

C11Features == {"Set representation"}
C11Same(x, y) ==
    First(<<TimesAndDays(x, y), Check(SameFlags(x, y), "open ends"), Check(SameInclusivity(x, y), "inclusivity"),
            Check(SameTexts(x, y), "texts"), Check(SameMarks(x, y), "marks"), Check(SamePrecision(x, y), "precision")>>)
C11(o) ==
    LET c == o["in"]
        w == Outcome(c)
        members == o.members
        \* the same set, with the members as they were observed on their own
        h == Hull(o)
        inc == IF c[1] = "[" THEN ANY ELSE ALL
        ms == Split(Part(c, 2, Len(c) - 1), ",")
        startOpen == \E i \in DOMAIN ms : OpensStart(ms[i])
        endOpen == \E i \in DOMAIN ms : OpensEnd(ms[i])
        several == Len(members) > 1
        r == Included(
            CASE startOpen /\ endOpen -> SpanOpen("")
              [] startOpen /\ ~endOpen -> Span(IF several THEN "" ELSE "..", h.last.ee, OpenCorner, OpenCorner, h.first.SL, h.last.EU)
              [] ~startOpen /\ endOpen -> Span(h.first.se, IF several THEN "" ELSE "..", h.first.SL, h.last.EU, OpenCorner, OpenCorner)
              [] OTHER -> IF h.first.se = h.last.se THEN h.first
                          ELSE Span(h.first.se, h.last.ee, h.first.SL, h.first.EU, h.last.SL, h.last.EU),
            inc)
    IN IF o.p.panic THEN "panic"
       ELSE IF \E i \in DOMAIN members : ~members[i].p.ok THEN Check(~o.p.ok, "accepted, with a member that is not a date")
       ELSE IF ~w.ok THEN Check(~o.p.ok, "accepted, but not a set")
       ELSE IF ~o.p.ok THEN "refused"
       ELSE C11Same(o.p.date, r)

---------------------------------------------------------------------------
(* C13: order of the bounds (o.k = "parse" or "bounds") *)

Written(x) == ~x.o /\ ~x.k
Ordered(x, y) == Written(x) /\ Written(y) => NotLater(x.t, y.t)
\* d: a date with corners, two: it is written as a two-sided interval
WellOrdered(d, two) ==
    First(<<Check(\A n \in CornerNames : (d[n].t # <<>>) = Written(d[n]), "a bound without a time, or with one it should not have"),
            Check(\A n \in CornerNames : ~(d[n].o /\ d[n].k), "both open and unknown"),
            Check(Ordered(d.SL, d.SU), "start"), Check(Ordered(d.EL, d.EU), "end"),
            IF two THEN "" ELSE
                First(<<Check(Ordered(d.SL, d.EL), "start begins after the end begins"),
                        Check(Ordered(d.SU, d.EU), "start ends after the end ends"),
                        Check(Ordered(d.SL, d.EU), "the span is empty")>>)>>)
C13(o) == IF ~o.p.ok THEN "" ELSE IF ~o.p.date.whole THEN "date with a part missing" ELSE WellOrdered(o.p.date, HasSlash(o["in"]))

---------------------------------------------------------------------------
(* C14: the fields of a bound agree (o.k = "bounds", "settime") *)

Agrees(x, timed) ==
    IF x.t = <<>> THEN First(<<Check(x.dt = "", "date-time without timestamp"), Check(x.d = <<>>, "year-month-day without timestamp")>>)
    ELSE First(<<Check(x.dt = InstantText(x.t), "date-time and timestamp"),
                 IF timed THEN Check(x.d = <<>>, "a date-time has a year-month-day")
                 ELSE Check(x.d = Civil(x.t[1]), "year-month-day and timestamp")>>)
C14(o) ==
    IF o.k = "settime" THEN
        First(<<Check(~o.panic, "panic"), Check(o.t = o.given, "timestamp of the time set"), Check(o.back = o.given /\ o.utc, "time of the timestamp"),
                Check(o.unix = o.given, "number of the timestamp"), Check(o.dt = InstantText(o.given), "date-time of the time set")>>)
    ELSE IF ~o.p.ok THEN "" ELSE IF ~o.p.date.whole THEN "date with a part missing" ELSE
    LET d == o.p.date
        timed == Count(o["in"], ":") > 0
    IN First(<<Agrees(d.SL, timed), Agrees(d.SU, timed), Agrees(d.EL, timed), Agrees(d.EU, timed),
               Check((d.SL.t # <<>>) = Written(d.SL) /\ (d.SU.t # <<>>) = Written(d.SU) /\ (d.EL.t # <<>>) = Written(d.EL) /\ (d.EU.t # <<>>) = Written(d.EU), "time of an open or unknown bound, or none of another"),
               Check(o.p.lower.ok = (d.SL.t # <<>>) /\ o.p.lower.t = d.SL.t, "Lower"),
               Check(o.p.upper.ok = (d.EU.t # <<>>) /\ o.p.upper.t = d.EU.t, "Upper"),
               Check((o.p.lower.ok => o.p.lower.utc) /\ (o.p.upper.ok => o.p.upper.utc), "not in UTC")>>)

---------------------------------------------------------------------------
(* C20: kinds of errors (o.k = "bounds", "entry", "errors") *)

C20(o) ==
    CASE o.k = "entry" ->
           First(<<Check(~o.p.ok => (o.p.err = "Unrecognized") = (o.valid # 1), "unrecognized, but valid, or the reverse"),
                   Check(~o.m.ok /\ ~IsKeyword(o["in"]) => o.m.err = "Unrecognized", "not matched, but not as unrecognized"),
                   LET w == Outcome(o["in"]) IN
                   Check(~o.p.ok /\ ~w.ok /\ ~Loose(w) /\ w.err \subseteq Typed => o.p.err \in w.err, "wrong kind of error: " \o o.p.err)>>)
      [] o.k = "bounds" ->
           IF ~o.p.ok \/ ~o.p.date.whole THEN "" ELSE
           First(<<Check(~o.p.lower.ok => o.p.lower.err = "NotSet", "Lower is not set, but does not say so"),
                   Check(~o.p.upper.ok => o.p.upper.err = "NotSet", "Upper is not set, but does not say so")>>)
      [] o.k = "error" ->
           First(<<Check(\A i \in DOMAIN o.kinds : o.is[i] = (IF o.kinds[i] = o.made THEN 1 ELSE 0), "predicates on " \o o.made),
                   Check(o.made \in Typed \ {"NotSet"} => o.quotes, "message of " \o o.made \o " does not quote the string"),
                   Check(o.made \in Typed => o.msg, "no message")>>)
      [] OTHER -> ""

---------------------------------------------------------------------------
(* C23: precision (o.k = "parse") *)

C23(o) ==
    LET w == Outcome(o["in"]) IN
    IF ~o.p.ok \/ ~w.ok THEN "" ELSE
    IF ~o.p.date.whole THEN "date with a part missing" ELSE
    First(<<Check(SamePrecision(o.p.date, w), "precision"),
            Check(o.p.date.SL.p = o.p.date.SU.p /\ o.p.date.EL.p = o.p.date.EU.p, "bounds of one side differ"),
            Check(\A n \in CornerNames : o.p.date[n].p \in {0, MONTH, YEAR, DECADE, CENTURY, MILLENIUM}, "not one flag")>>)

---------------------------------------------------------------------------
(* C16: Unix ranges (o.k = "unix") *)

C16(o) ==
    IF o.panic THEN "panic"
    ELSE IF o.derived # o.range THEN "derived without a range, or a range that is not derived"
    ELSE IF ~o.msg THEN "error without a message"
    ELSE IF IsKeyword(o["in"]) \/ o.s \in {"open", "uuuu"} THEN Check(~o.derived /\ ~o.failed, "keyword")
    ELSE IF ~o.p.ok THEN Check(~o.derived /\ o.failed, "no error, but it does not parse")
    ELSE LET d == o.p.date IN
         IF \E n \in CornerNames : d[n].t = <<>> THEN Check(~o.derived /\ ~o.failed, "a missing bound, but derived or an error")
         ELSE First(<<Check(o.derived /\ ~o.failed, "not derived"),
                      Check(o.outer = <<d.SL.t, d.EU.t>>, "outer range"),
                      Check(o.inner = <<d.SU.t, d.EL.t>>, "inner range")>>)

---------------------------------------------------------------------------
(* C15: comparison (o.k = "pair", "triple") *)

\* one comparison: ok, is (0/1), err
NoTime(x) == x.t = <<>>
IsOpenDate(d) == d.edtf = ".."
\* what comparing must answer, from the dates as observed: "yes", "no" or "error"
BeforeAnswer(x, y) ==
    IF IsOpenDate(x) THEN "no"
    ELSE IF NoTime(y.SL) \/ NoTime(x.EU) THEN "error"
    ELSE IF Earlier(x.EU.t, y.SL.t) THEN "yes" ELSE "no"
AfterAnswer(x, y) ==
    IF IsOpenDate(x) THEN "no"
    ELSE IF NoTime(y.EU) \/ NoTime(x.SL) THEN "error"
    ELSE IF Earlier(y.EU.t, x.SL.t) THEN "yes" ELSE "no"
Compared(p, q, F(_, _)) == IF ~p.ok \/ ~q.ok THEN "error" ELSE F(p.date, q.date)

\* it does not end before it begins, as a two-sided interval may (2000/1990)
InOrder(d) == d.SL.t # <<>> /\ d.EU.t # <<>> => NotLater(d.SL.t, d.EU.t)
C15(o) ==
    IF o.k = "pair" THEN
        LET b == Compared(o.a, o.b, BeforeAnswer)
            a == Compared(o.a, o.b, AfterAnswer)
        IN First(<<Check(o.before = b, "before: " \o o.before \o ", should be " \o b),
                   Check(o.after = a, "after: " \o o.after \o ", should be " \o a),
                   Check(o.a.ok /\ o.b.ok => o.obefore = o.before /\ o.oafter = o.after, "strings and dates compare differently"),
                   Check(o.before = "yes" => o.rafter = "yes", "before, but the other is not after"),
                   Check(o.after = "yes" => o.rbefore = "yes", "after, but the other is not before"),
                   IF o.a.ok /\ o.b.ok /\ o.a.date.whole /\ o.b.date.whole /\ InOrder(o.a.date) /\ InOrder(o.b.date) THEN
                       First(<<Check(~(o.before = "yes" /\ o.after = "yes"), "both before and after"),
                               Check(o.before = "yes" => o.rbefore # "yes", "each before the other"),
                               Check(o.after = "yes" => o.rafter # "yes", "each after the other"),
                               Check(o.sa = o.sb => o.before # "yes" /\ o.after # "yes", "before or after itself")>>)
                   ELSE "">>)
    ELSE
        LET n == Compared(o.d, o.i, BeforeAnswer)
            f == Compared(o.d, o.c, AfterAnswer)
            w == IF n = "error" THEN "error" ELSE IF n = "yes" THEN "no"
                 ELSE IF o.sc = ".." THEN "yes"
                 ELSE IF f = "error" THEN "error" ELSE IF f = "yes" THEN "no" ELSE "yes"
        IN First(<<Check(o.between = w, "between: " \o o.between \o ", should be " \o w),
                   Check(o.i.ok /\ InOrder(o.i.date) /\ o.bdi = "yes" /\ o.bic = "yes" => o.bdc = "yes", "before is not transitive")>>)

---------------------------------------------------------------------------
(* C17: JSON (o.k = "json") *)

\* the members of the encoding of d, by path
AtPath(p, w) == p :> w
Nothing == [p \in {} |-> ""]
Number(p, n) == IF n = 0 THEN Nothing ELSE AtPath(p, "number " \o ToString(n))
Truth(p, b) == IF b THEN AtPath(p, "true") ELSE Nothing
MembersOfCorner(p, x) ==
    (IF x.dt = "" THEN Nothing ELSE AtPath(p \o ".datetime", "string " \o x.dt))
    @@ (IF x.t = <<>> THEN Nothing ELSE AtPath(p \o ".timestamp", "seconds " \o ToString(x.t[1]) \o "+" \o ToString(x.t[2])))
    @@ (IF x.d = <<>> THEN AtPath(p \o ".ymd", "<nil>")
        ELSE AtPath(p \o ".ymd.year", "number " \o ToString(x.d[1])) @@ AtPath(p \o ".ymd.month", "number " \o ToString(x.d[2]))
             @@ AtPath(p \o ".ymd.day", "number " \o ToString(x.d[3])))
    @@ Number(p \o ".uncertain", x.u) @@ Number(p \o ".approximate", x.a) @@ Number(p \o ".unspecified", x.x)
    @@ Number(p \o ".precision", x.p) @@ Number(p \o ".inclusivity", x.i)
    @@ Truth(p \o ".open", x.o) @@ Truth(p \o ".unknown", x.k)
Members(d) ==
    AtPath("edtf", "string " \o d.edtf) @@ AtPath("feature", "string " \o d.feature)
    @@ AtPath("level", "number " \o ToString(d.level))
    @@ AtPath("start.edtf", "string " \o d.se) @@ AtPath("end.edtf", "string " \o d.ee)
    @@ MembersOfCorner("start.lower", d.SL) @@ MembersOfCorner("start.upper", d.SU)
    @@ MembersOfCorner("end.lower", d.EL) @@ MembersOfCorner("end.upper", d.EU)

\* a timestamp is an integer of 64 bits; in quotes it may be one, and must not be anything else
RECURSIVE NoMore(_, _)
NoMore(a, b) == \/ a = <<>>
                \/ V(Head(a)) < V(Head(b))
                \/ Head(a) = Head(b) /\ NoMore(Tail(a), Tail(b))
MaxInt64 == <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">>
TimestampJSON(c, x) ==
    LET minus == c # <<>> /\ c[1] = "-"
        n == IF minus THEN Tail(c) ELSE c
        integer == n # <<>> /\ (\A i \in DOMAIN n : n[i] \in Digits) /\ (Len(n) > 1 => n[1] # "0")
        fits == Len(n) < 19 \/ (Len(n) = 19 /\ NoMore(n, MaxInt64)) \/ (minus /\ n = [MaxInt64 EXCEPT ![19] = "8"])
        quoted == Len(c) > 1 /\ c[1] = "\"" /\ c[Len(c)] = "\"" /\ (\E i \in 2..(Len(c) - 1) : c[i] \in Digits)
                  /\ \A i \in 2..(Len(c) - 1) : c[i] \in Digits \/ (i = 2 /\ c[i] \in {"-", "+"})
    IN IF x.panic THEN "decoding a timestamp fails"
       ELSE IF integer /\ fits THEN Check(x.ok /\ x.value = Join(IF n = <<"0">> THEN n ELSE c), "an integer is another timestamp")
       ELSE IF quoted THEN ""
       ELSE Check(~x.ok, "decoded from what is not an integer")

C17(o) ==
    IF o.k = "tsjson" THEN First(<<TimestampJSON(o["in"], o.alone), TimestampJSON(o["in"], o.within)>>)
    ELSE IF ~o.p.ok THEN ""
    ELSE IF ~o.ok THEN "not encoded and decoded: " \o o.why
    ELSE LET m == Members(o.p.date) IN
         First(<<Check(DOMAIN o.json = DOMAIN m, "members of the encoding: "
                        \o ToString((DOMAIN o.json \ DOMAIN m) \cup (DOMAIN m \ DOMAIN o.json))),
                 Check(\A q \in DOMAIN m \cap DOMAIN o.json : o.json[q] = m[q], "values of the encoding"),
                 Check(o.after = o.p.date, "encoding changes the date"),
                 Check(o.back = o.p.date, "decoded to another date"),
                 Check(o.spaced = o.p.date, "decoded to another date when indented"),
                 Check(o.bytes, "encoded again to other bytes"),
                 Check(o.answers = o.backanswers, "the decoded date answers differently"),
                 Check(\A i \in DOMAIN o.answers : o.answers[i] \notin {"panic", "slow", "both", "silent"}, "asking the date fails")>>)

---------------------------------------------------------------------------
(* C21: flags and keywords (o.k = "flags", "keyword", "constants"); the sequences of
   operations are behaviours of Flags.tla, which has the machine that is compared with *)

Bits(n) == {b \in 0..15 : (n \div (2 ^ b)) % 2 = 1}
ApplyFlag(op, set, bits) ==
    CASE op = "start" -> bits [] op = "add" -> set \cup bits [] op = "clear" -> set \ bits
      [] op = "toggle" -> (set \ bits) \cup (bits \ set)
RECURSIVE FlagsHold(_, _, _)
FlagsHold(steps, i, set) ==
    IF i > Len(steps) THEN "" ELSE
    LET st == steps[i]
        bits == Bits(st.f)
        now == ApplyFlag(st.op, set, bits)
        why == First(<<Check(st.v[1] = 0 /\ Bits(st.v[2]) = now, "value after " \o st.op),
                       Check(\A b \in 0..11 : st.has[b + 1] = (b \in now), "test of one flag after " \o st.op),
                       Check(st.any = (now \cap bits # {}), "test of flags after " \o st.op),
                       Check(st.is = << 6 \in now, 5 \in now, 3 \in now >>, "annual, monthly, daily after " \o st.op)>>)
    IN IF why # "" THEN why \o " (step " \o ToString(i) \o ")" ELSE FlagsHold(steps, i + 1, now)

Y(b) == IF b THEN 1 ELSE 0
C21(o) ==
    CASE o.k = "flags" -> IF o.panic THEN "panic" ELSE FlagsHold(o.steps, 1, {})
      [] o.k = "keyword" ->
           First(<<Check(~o.panic /\ o.msg, "panic, or an error without a message"),
                   Check(o.open = Y(o.s \in {"..", "open"}), "open"),
                   Check(o.unknown = Y(o.s \in {"", "uuuu"}), "unknown"),
                   Check(o.unspecified = Y(o.s \in {"", "uuuu"}), "unspecified"),
                   Check(o.deprecated = Y(o.s \in {"open", "uuuu"}), "deprecated"),
                   Check(o.replaced = (o.s \in {"open", "uuuu"}), "replaced, or not"),
                   Check(o.replaced => o.with = (IF o.s = "open" THEN ".." ELSE ""), "replaced by another word")>>)
      [] o.k = "constants" ->
           First(<<Check(o.flags = ("NONE" :> 0 @@ "ALL" :> 2 @@ "ANY" :> 4 @@ "DAY" :> 8 @@ "WEEK" :> 16 @@ "MONTH" :> 32 @@ "YEAR" :> 64
                                    @@ "DECADE" :> 128 @@ "CENTURY" :> 256 @@ "MILLENIUM" :> 512), "values of the flags"),
                   Check(o.words = [UNCERTAIN |-> "?", APPROXIMATE |-> "~", BOTH |-> "%", OPEN |-> "..", OPEN_2012 |-> "open",
                                    UNSPECIFIED |-> "", UNSPECIFIED_2012 |-> "uuuu", UNKNOWN |-> "", UNKNOWN_2012 |-> "uuuu",
                                    NEGATIVE |-> "-", HMS_LOWER |-> "00:00:00", HMS_UPPER |-> "23:59:59"], "words"),
                   Check(o.maxyears = MaxYear, "largest year")>>)

---------------------------------------------------------------------------
(* C22: calendar helpers *)

\* what a text is as a number: optional sign, digits; <<>> if it is not one.
\* Longer numbers than TLC has are all the same here: too large for anything.
IntegerOf(c) ==
    LET i == IF At(c, 1) \in {"-", "+"} THEN 2 ELSE 1
        d == Significant(c, i, Len(c) + 1)
        n == IF Len(d) > 8 THEN 100000000 ELSE NumberOf(d)
    IN IF i > Len(c) \/ ~AreDigits(c, i, Len(c) - i + 1) THEN <<>>
       ELSE <<IF At(c, 1) = "-" THEN -n ELSE n>>
AbsOf(n) == IF n < 0 THEN -n ELSE n

NoDate == <<>>
\* year, month and day texts as a date; a part that is missing or zero is omitted
YMDOfParts(y, m, d) ==
    LET yy == IntegerOf(y)
        mm == IF m = <<>> THEN <<0>> ELSE IntegerOf(m)
        dd == IF d = <<>> THEN <<0>> ELSE IntegerOf(d)
    IN IF y = <<>> \/ (m = <<>> /\ d # <<>>) \/ yy = <<>> \/ mm = <<>> \/ dd = <<>> THEN NoDate
       ELSE IF AbsOf(yy[1]) > MaxYear \/ (mm[1] = 0 /\ dd[1] # 0) THEN NoDate
       ELSE LET mo == IF mm[1] = 0 THEN 1 ELSE mm[1]
            IN IF mo \notin 1..12 THEN NoDate
               ELSE LET last == DaysIn(yy[1], mo)
                        day == IF dd[1] = 0 THEN last ELSE dd[1]
                    IN IF day < 1 \/ day > last THEN NoDate ELSE <<yy[1], mo, day>>
\* [-]year[-month[-day]]
YMDOfText(c) ==
    LET negative == At(c, 1) = "-"
        ps == Split(IF negative THEN Part(c, 2, Len(c)) ELSE c, "-")
        y == IF negative /\ ps[1] # <<>> THEN <<"-">> \o ps[1] ELSE ps[1]
    IN IF Len(ps) > 3 THEN NoDate
       ELSE YMDOfParts(y, IF Len(ps) > 1 THEN ps[2] ELSE <<>>, IF Len(ps) > 2 THEN ps[3] ELSE <<>>)
\* [-]year-month
MonthOfText(c) ==
    LET ps == Split(c, "-")
        ym == CASE Len(ps) = 2 -> ps
                [] Len(ps) = 3 /\ ps[1] = <<>> -> <<<<"-">> \o ps[2], ps[3]>>
                [] OTHER -> <<<<>>, <<>>>>
        y == IntegerOf(ym[1])
        m == IntegerOf(ym[2])
    IN IF y = <<>> \/ m = <<>> THEN -1
       ELSE IF m[1] \notin 1..12 \/ AbsOf(y[1]) > MaxYear THEN -1 ELSE DaysIn(y[1], m[1])

ClockOf(c) ==
    IF Len(c) = 8 /\ AreDigits(c, 1, 2) /\ c[3] = ":" /\ AreDigits(c, 4, 2) /\ c[6] = ":" /\ AreDigits(c, 7, 2)
       /\ Num2(c, 1) < 24 /\ Num2(c, 4) < 60 /\ Num2(c, 7) < 60
    THEN Num2(c, 1) * 3600 + Num2(c, 4) * 60 + Num2(c, 7) ELSE -1

LooseClock(c) ==
    \E i \in {2, 3} : /\ AreDigits(c, 1, i - 1) /\ At(c, i) = ":" /\ AreDigits(c, i + 1, 2) /\ At(c, i + 3) = ":" /\ AreDigits(c, i + 4, 2)
                     /\ (Len(c) = i + 5 \/ At(c, i + 6) \in {".", ","})

C22(o) ==
    CASE o.k = "months" ->
           First(<<Check(\A m \in -1..14 : o.byNumber[m + 2] = (IF m \in 1..12 THEN DaysIn(o.y, m) ELSE -1), "days of a month"),
                   Check(\A m \in 0..14 : o.byText[m + 1] = (IF m \in 1..12 THEN DaysIn(o.y, m) ELSE -1), "days of a month as text")>>)
      [] o.k = "monthtext" ->
           LET w == MonthOfText(o["in"]) IN
           First(<<Check(~o.panic, "panic"), Check(o.ok = (w > 0), "accepted or refused wrongly"), Check(o.ok => o.days = w, "days of a month")>>)
      [] o.k = "ymdtext" ->
           LET w == YMDOfText(o["in"]) IN
           First(<<Check(~o.panic, "panic, or neither or both"), Check(o.ok = (w # NoDate), "accepted or refused wrongly"), Check(o.d = w, "numbers")>>)
      [] o.k = "ymdparts" ->
           LET w == YMDOfParts(o.y, o.m, o.dd) IN
           First(<<Check(~o.panic, "panic, or neither or both"), Check(o.ok = (w # NoDate), "accepted or refused wrongly"), Check(o.d = w, "numbers"),
                   Check(o.same, "the string date gives something else")>>)
      [] o.k = "clock" ->
           LET s == ClockOf(o.hms)
               \* DEVIATION: 9:00:00, 09:00:00.5 and 09:00:00,5 are times too, of which nothing is said
               loose == s < 0 /\ LooseClock(o.hms)
               day == IF AbsOf(o.d[1]) <= MaxYear /\ IsRealDate(o.d[1], o.d[2], o.d[3]) THEN o.d ELSE NoDate
               sday == YMDOfParts(o.ps[1], o.ps[2], o.ps[3])
               good == s >= 0 /\ day # NoDate
               sgood == s >= 0 /\ sday # NoDate
           IN First(<<Check(~o.panic /\ ~o.spanic, "panic, or neither or both"),
                      Check((loose /\ day # NoDate) \/ o.ok = good, "accepted or refused wrongly"),
                      Check((loose /\ sday # NoDate) \/ o.sok = sgood, "strings accepted or refused wrongly"),
                      Check(good => o.t = <<DayOf(day), s>> /\ o.utc, "instant"),
                      Check(sgood => o.st = <<DayOf(sday), s>> /\ o.sutc, "instant of strings")>>)
      [] o.k = "flip" ->
           LET c == Civil(o.given[1]) IN
           First(<<Check(~o.panic, "panic"), Check(o.flipped = -o.y, "flipped year"),
                   Check(o.t = <<DayNumber(-c[1], c[2], c[3]), o.given[2]>>, "flipped instant")>>)
      [] o.k = "equal" ->
           First(<<Check(o.eq = Y(o.a = o.b), "equality"), Check(o.self = 1, "not equal to itself")>>)

---------------------------------------------------------------------------
(* C24: the features' own entry points (o.k = "feat") *)

Index(f) == CHOOSE i \in 1..18 : Features[i] = f
Own(o, i) == (CHOOSE w \in {o.owns[j] : j \in DOMAIN o.owns} : w.n = i).p
FirstOfLevel(c, l) == IF l = 1 THEN Feature0(c) ELSE IF l = 2 THEN Feature1(c) ELSE Feature2(c)
Said(p) == IF p.panic \/ p.slow THEN "panic" ELSE IF p.both THEN "both" ELSE IF p.ok THEN "ok" ELSE p.err
SpanFeatures == {"Date", "Time Interval", "Qualification of a date (complete)", "Unspecified digit(s) from the right",
    "Negative calendar year", "Extended Interval (Start)", "Extended Interval (End)", "Qualification (Group)",
    "Qualification (Individual)", "Unspecified Digit", "Interval"}
SameSpan(x, y) == x.se = y.se /\ x.ee = y.ee /\ \A n \in CornerNames : x[n] = y[n]
\* outcome said of feature i and, if it is a date, the date
SameOutcome(o, i, p) ==
    IF o.outcome[i] # Said(p) THEN "feature " \o Features[i] \o " says " \o o.outcome[i] \o ", not " \o Said(p)
    ELSE IF p.ok THEN Check(Own(o, i).date = p.date, "feature " \o Features[i] \o " gives another date") ELSE ""
C24(o) ==
    LET c == o["in"]
        derives == [i \in 1..18 |-> Derives(Features[i], c)]
        f == Feature(c)
        wrongIs == {i \in 1..18 : o.is[i] # 3 /\ o.is[i] # Y(derives[i])}
        notRefused == {i \in 1..18 : ~derives[i] /\ o.outcome[i] # "Invalid"}
        Level(l) == LET g == FirstOfLevel(c, l) IN
            IF g = "" THEN Check(~o.lm[l].ok /\ o.l[l] = 0 /\ ~o.lp[l].ok /\ ~o.lp[l].panic, "a level accepts what it should not")
            ELSE First(<<Check(o.lm[l].ok /\ o.l[l] = 1, "a level refuses it"), SameOutcome(o, Index(g), o.lp[l])>>)
    IN First(<<
        IF wrongIs = {} THEN "" ELSE "predicate of " \o Features[CHOOSE i \in wrongIs : TRUE],
        IF notRefused = {} THEN "" ELSE "not refused as invalid by " \o Features[CHOOSE i \in notRefused : TRUE],
        Check(\A i \in 1..18 : o.outcome[i] \notin {"panic", "both"}, "panic, or both or neither"),
        Check(o.extended = Y(derives[9] \/ derives[10]), "predicate of extended intervals"),
        IF derives[9] THEN SameOutcome(o, 9, o.ext) ELSE IF derives[10] THEN SameOutcome(o, 10, o.ext) ELSE Check(Said(o.ext) = "Invalid", "extended intervals"),
        \* a feature signs what it gives
        Check(\A j \in DOMAIN o.owns : LET d == o.owns[j].p.date IN
                d.whole /\ d.edtf = o.s /\ d.feature = Features[o.owns[j].n] /\ d.level = LevelOf[Features[o.owns[j].n]], "signed wrongly"),
        IF f = "" THEN "" ELSE SameOutcome(o, Index(f), o.p),
        \* a text has one meaning, whichever of the features that it belongs to reads it
        Check(o.p.ok => \A j \in DOMAIN o.owns : LET d == o.owns[j].p.date IN d.SL.t = o.p.date.SL.t /\ d.EU.t = o.p.date.EU.t /\ SameFlags(d, o.p.date), "another feature reads it otherwise"),
        Check(o.p.ok => \A j \in DOMAIN o.owns : LET d == o.owns[j].p.date IN SameMarks(d, o.p.date), "another feature reads its marks otherwise"),
        Check(o.p.ok => \A j \in DOMAIN o.owns : LET d == o.owns[j].p.date IN SamePrecision(d, o.p.date), "another feature reads its precision otherwise"),
        Level(1), Level(2), Level(3),
        IF f \in SpanFeatures THEN
            First(<<Check(o.sp.ok = o.p.ok, "the span of the string is refused, or the date is"),
                    IF o.p.ok /\ o.sp.ok THEN Check(SameSpan(o.p.date, o.sp.date), "the span of the string is another") ELSE "">>)
        ELSE "",
        \* what they are made of
        Check(~o.sr.panic /\ ~o.xp.panic, "string range or exponential notation: panic, or neither or both"),
        IF f \in SpanFeatures /\ ~HasSlash(c) /\ o.p.ok THEN
            LET d == o.p.date IN
            First(<<Check(o.sr.ok, "the string range is refused, but not the date"),
                    Check(o.sr.of, "the string range is one of another string"),
                    Check(o.sr.start = d.SL.d /\ o.sr.end = d.EU.d, "the string range has another first or last day"),
                    Check(o.sr.u = d.SL.u /\ o.sr.a = d.SL.a /\ o.sr.p = d.SL.p, "the string range has other marks or another precision")>>)
        ELSE "",
        IF f = "Exponential year" THEN
            First(<<Check(o.xp.ok = o.p.ok, "the exponential notation is refused, or the year is"),
                    Check(o.xp.ok => o.xp.y = o.p.date.SL.d[1], "the exponential notation is another year"),
                    Check(~o.xp.ok => o.xp.err = o.p.err, "the exponential notation is refused otherwise")>>)
        ELSE "">>)

---------------------------------------------------------------------------
(* What bears on what *)

HasQualifier(c) == \E i \in DOMAIN c : c[i] \in Qualifiers
KeywordSide(o) == IsKeyword(o.ac) \/ IsKeyword(o.bc)

Bears(prop, o) ==
    CASE prop = "C04" -> o.k = "parse" /\ In(o, C04Features)
      [] prop = "C05" -> o.k = "parse" /\ In(o, C05Features)
      [] prop = "C06" -> o.k = "sides" /\ In(o, C06Features) /\ ~KeywordSide(o)
      [] prop = "C07" -> (o.k = "sides" /\ In(o, C06Features)) \/ o.k = "bounds"
      [] prop = "C08" -> o.k = "parse" /\ In(o, C08Features) /\ HasX(o["in"])
      [] prop = "C09" -> o.k = "quals"
      [] prop = "C10" -> o.k = "parse" /\ In(o, C10Features)
      [] prop = "C11" -> o.k = "set" /\ In(o, C11Features)
      [] prop = "C12" -> o.k = "parse" /\ In(o, C12Features)
      [] prop = "C13" -> o.p.ok
      [] prop = "C14" -> o.k = "settime" \/ o.p.ok
      [] prop = "C17" -> o.k = "tsjson" \/ o.p.ok
      [] prop = "C23" -> o.p.ok
      [] OTHER -> TRUE

\* "" if o obeys the property or has no bearing on it
Law(prop, o) ==
    IF ~Bears(prop, o) THEN "" ELSE
    CASE prop = "C01" -> C01(o) [] prop = "C02" -> C02(o) [] prop = "C03" -> C03(o) [] prop = "C04" -> C04(o)
      [] prop = "C05" -> C05(o) [] prop = "C06" -> C06(o) [] prop = "C07" -> C07(o) [] prop = "C08" -> C08(o)
      [] prop = "C09" -> C09(o) [] prop = "C10" -> C10(o) [] prop = "C11" -> C11(o) [] prop = "C12" -> C12(o)
      [] prop = "C13" -> C13(o) [] prop = "C14" -> C14(o) [] prop = "C15" -> C15(o) [] prop = "C16" -> C16(o)
      [] prop = "C17" -> C17(o) [] prop = "C20" -> C20(o) [] prop = "C21" -> C21(o) [] prop = "C22" -> C22(o)
      [] prop = "C23" -> C23(o) [] prop = "C24" -> C24(o)
=============================================================================
