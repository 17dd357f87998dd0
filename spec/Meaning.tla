------------------------------ MODULE Meaning ------------------------------
(***************************************************************************)
(* What a string means: the bounds, marks and precision of the date that   *)
(* it denotes, or the kinds of error that it may be refused with.          *)
(*                                                                         *)
(* A date has four corners: SL and SU, the lower and upper bound of its    *)
(* start, and EL and EU, those of its end.  A corner is a record           *)
(*    t  the instant, <<day, second>>, or <<>> if there is none            *)
(*    d  the calendar day <<year, month, day>>, or <<>>                    *)
(*    u, a  the components that are uncertain, approximate (bit sets)      *)
(*    p  precision   i  inclusivity                                        *)
(*    o, k  open, unknown                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Chars, Calendar, Grammar

MaxYear == 9999

\* Precision bits
ALL == 2  ANY == 4  DAY == 8  WEEK == 16  MONTH == 32  YEAR == 64
DECADE == 128  CENTURY == 256  MILLENIUM == 512

---------------------------------------------------------------------------
(* One side: a year, month or day, with Xs and qualifiers *)

OneToNine == Digits \ {"0"}
MonthChars(x, y) == \/ x \in {"0", "X"} /\ y \in OneToNine \cup {"X"}
                    \/ x \in {"1", "X"} /\ y \in {"0", "1", "2", "X"}
DayChars(x, y) == \/ x = "0" /\ y \in OneToNine \cup {"X"}
                  \/ x \in {"1", "2", "X"} /\ y \in Digits \cup {"X"}
                  \/ x \in {"3", "X"} /\ y \in {"0", "1", "X"}

\* A component of w characters at i, perhaps with a qualifier before or after it, not
\* both: at = where it is, next = the position after it, q = the qualifier, l = on the left.
Component(c, i, w) ==
    IF At(c, i) \in Qualifiers
    THEN [at |-> i + 1, next |-> i + 1 + w, q |-> c[i], l |-> TRUE]
    ELSE IF At(c, i + w) \in Qualifiers
    THEN [at |-> i, next |-> i + w + 1, q |-> c[i + w], l |-> FALSE]
    ELSE [at |-> i, next |-> i + w, q |-> "", l |-> FALSE]

\* Marks that a qualifier adds: bits for what is to its left when it is on the right,
\* the one bit of its component when it is on the left.
Marked(q, mark) == q = "%" \/ q = mark
Or(a, b) == \* bitwise or of sets of the bits DAY, MONTH, YEAR
    LET Bit(x, n) == (x \div n) % 2
        B(n) == IF Bit(a, n) + Bit(b, n) > 0 THEN n ELSE 0
    IN B(DAY) + B(MONTH) + B(YEAR)
Marks(y, m, d, mark) ==
    LET By(x, left, right) ==
            IF x = <<>> THEN 0 ELSE IF ~Marked(x[1].q, mark) THEN 0
            ELSE IF x[1].l THEN left ELSE right
    IN Or(By(<<y>>, YEAR, YEAR),
          Or(By(m, MONTH, YEAR + MONTH), By(d, DAY, YEAR + MONTH + DAY)))

Bad(kinds) == [ok |-> FALSE, err |-> kinds]
\* kinds of error
Typed == {"Invalid", "Unsupported", "Unrecognized", "NotImplemented", "NotSet"}
AnyKind == Typed \cup {"other"}
\* "other" is an error of none of the library's types, say of strconv or time

\* What the year characters x (4 of them) stand for.
YearSpan(x, negative) ==
    LET xs == {i \in 1..4 : x[i] = "X"}
        Fill(lo) == LET D(i) == IF x[i] = "X" THEN lo ELSE V(x[i])
                    IN 1000 * D(1) + 100 * D(2) + 10 * D(3) + D(4)
        n == IF negative THEN -Fill(0) ELSE Fill(0)
    IN IF xs = {} THEN [ok |-> TRUE, lo |-> n, hi |-> n, p |-> YEAR]
       \* not supported: a year with Xs that does not end in one, that is negative,
       \* or that begins with one
       ELSE IF 4 \notin xs \/ negative THEN Bad({"other"})
       ELSE IF 1 \in xs THEN Bad({"NotImplemented"})
       ELSE [ok |-> TRUE, lo |-> Fill(0), hi |-> Fill(9),
             p |-> IF 3 \notin xs THEN DECADE ELSE IF 2 \notin xs THEN CENTURY ELSE MILLENIUM]

\* m is <<>> or the two characters of the month
MonthSpan(m) ==
    IF m = <<>> THEN [ok |-> TRUE, lo |-> 1, hi |-> 12]
    ELSE IF m[2] # "X"
    THEN IF m[1] = "X" THEN Bad({"other"}) ELSE [ok |-> TRUE, lo |-> Num2(m, 1), hi |-> Num2(m, 1)]
    ELSE CASE m[1] = "X" -> [ok |-> TRUE, lo |-> 1, hi |-> 12]
           [] m[1] = "0" -> [ok |-> TRUE, lo |-> 1, hi |-> 9]
           [] m[1] = "1" -> [ok |-> TRUE, lo |-> 10, hi |-> 12]

\* d is <<>> or the two characters of the day; last is the last day of the last month
DaySpan(d, last) ==
    IF d = <<>> THEN [ok |-> TRUE, lo |-> 1, hi |-> last]
    ELSE IF d[2] # "X"
    THEN IF d[1] = "X" THEN Bad({"other"}) ELSE [ok |-> TRUE, lo |-> Num2(d, 1), hi |-> Num2(d, 1)]
    ELSE CASE d[1] = "X" -> [ok |-> TRUE, lo |-> 1, hi |-> last]
           [] d[1] = "0" -> [ok |-> TRUE, lo |-> 1, hi |-> 9]
           [] d[1] = "1" -> [ok |-> TRUE, lo |-> 10, hi |-> 19]
           [] d[1] = "2" -> [ok |-> TRUE, lo |-> 20, hi |-> IF last < 29 THEN last ELSE 29]
           [] d[1] = "3" -> [ok |-> TRUE, lo |-> 30, hi |-> last]

PrecisionOf(yp, m, d) ==
    IF d = <<"X", "X">> THEN IF m = <<"X", "X">> THEN YEAR ELSE MONTH
    ELSE IF m # <<>> /\ m[2] = "X" /\ m[1] # "X" THEN MONTH
    ELSE yp

\* The side written by the whole of c.
Side(c) ==
    LET n  == Len(c)
        q0 == IF At(c, 1) \in Qualifiers THEN 1 ELSE 0
        negative == At(c, 1 + q0) = "-"
        y  == Component(c, 1, IF negative THEN 5 ELSE 4)
        yx == IF negative THEN y.at + 1 ELSE y.at
        m  == Component(c, y.next + 1, 2)
        d  == Component(c, m.next + 1, 2)
        hasM == n >= y.next
        hasD == hasM /\ n >= m.next
        wellFormed ==
            /\ AreDigitsOrX(c, yx, 4)
            /\ IF ~hasM THEN n = y.next - 1
               ELSE /\ c[y.next] = "-"
                    /\ MonthChars(At(c, m.at), At(c, m.at + 1))
                    /\ IF ~hasD THEN n = m.next - 1
                       ELSE /\ c[m.next] = "-"
                            /\ DayChars(At(c, d.at), At(c, d.at + 1))
                            /\ n = d.next - 1
    IN IF ~wellFormed THEN Bad({"Invalid"}) ELSE
       LET mc == IF hasM THEN Part(c, m.at, m.at + 1) ELSE <<>>
           dc == IF hasD THEN Part(c, d.at, d.at + 1) ELSE <<>>
           ys == YearSpan(Part(c, yx, yx + 3), negative)
           ms == MonthSpan(mc)
       IN IF ~ys.ok THEN ys ELSE IF ~ms.ok THEN ms ELSE
       LET ds == DaySpan(dc, DaysIn(ys.hi, ms.hi))
       IN IF ~ds.ok THEN ds
          ELSE IF ~IsRealDate(ys.lo, ms.lo, ds.lo) \/ ~IsRealDate(ys.hi, ms.hi, ds.hi)
          THEN Bad({"other"})
          ELSE [ok |-> TRUE, lo |-> <<ys.lo, ms.lo, ds.lo>>, hi |-> <<ys.hi, ms.hi, ds.hi>>,
                u |-> Marks(y, IF hasM THEN <<m>> ELSE <<>>, IF hasD THEN <<d>> ELSE <<>>, "?"),
                a |-> Marks(y, IF hasM THEN <<m>> ELSE <<>>, IF hasD THEN <<d>> ELSE <<>>, "~"),
                p |-> PrecisionOf(ys.p, mc, dc)]

---------------------------------------------------------------------------
(* Corners and spans *)

Corner(t, d, s) ==
    [t |-> t, d |-> d, u |-> s.u, a |-> s.a, p |-> s.p, i |-> 0, o |-> FALSE, k |-> FALSE]
Empty == [t |-> <<>>, d |-> <<>>, u |-> 0, a |-> 0, p |-> 0, i |-> 0, o |-> FALSE, k |-> FALSE]
OpenCorner == [Empty EXCEPT !.o = TRUE]
UnknownCorner == [Empty EXCEPT !.k = TRUE]
InstantCorner(t) == [Empty EXCEPT !.t = t]

\* A span: the texts of its start and end, and its corners.
Span(se, ee, sl, su, el, eu) ==
    [ok |-> TRUE, se |-> se, ee |-> ee, SL |-> sl, SU |-> su, EL |-> el, EU |-> eu]

\* a date on its own: its start is its first day, its end its last day; if that is the
\* same day, the start is the first second of it and the end the last
SpanOfSide(c) ==
    LET s == Side(c) IN
    IF ~s.ok THEN s ELSE
    LET text == Join(c)
        one == s.lo = s.hi
    IN Span(text, text,
            Corner(FirstSecond(s.lo), s.lo, s),
            Corner(IF one THEN FirstSecond(s.lo) ELSE LastSecond(s.lo), s.lo, s),
            Corner(IF one THEN LastSecond(s.hi) ELSE FirstSecond(s.hi), s.hi, s),
            Corner(LastSecond(s.hi), s.hi, s))

SpanOpen(text) == Span(text, text, OpenCorner, OpenCorner, OpenCorner, OpenCorner)
SpanUnknown(text) == Span(text, text, UnknownCorner, UnknownCorner, UnknownCorner, UnknownCorner)

\* one side of an interval
SpanOfEnd(c) ==
    IF c = <<>> THEN SpanUnknown("")
    ELSE IF IsOpenText(c) THEN SpanOpen("..")
    ELSE SpanOfSide(c)

\* an interval is made of its sides
Between(A, B) ==
    IF ~A.ok /\ ~B.ok THEN Bad(A.err \cup B.err) ELSE IF ~A.ok THEN A ELSE IF ~B.ok THEN B
    ELSE Span(A.se, B.ee, A.SL, A.EU, B.SL, B.EU)

\* a date or an interval
SpanOfText(c) ==
    LET parts == Split(c, "/") IN
    CASE Len(parts) = 1 -> SpanOfSide(c)
      [] Len(parts) = 2 -> Between(SpanOfEnd(parts[1]), SpanOfEnd(parts[2]))
      [] OTHER -> Bad({"Invalid"})

\* the same, of numbers: a year, a month, a day, and the interval between two such
NumberSide(lo, hi) == [ok |-> TRUE, lo |-> lo, hi |-> hi, u |-> 0, a |-> 0, p |-> YEAR]
SpanOfNumbers(text, lo, hi) ==
    LET s == NumberSide(lo, hi)
        one == lo = hi
    IN Span(text, text,
            Corner(FirstSecond(lo), lo, s),
            Corner(IF one THEN FirstSecond(lo) ELSE LastSecond(lo), lo, s),
            Corner(IF one THEN LastSecond(hi) ELSE FirstSecond(hi), hi, s),
            Corner(LastSecond(hi), hi, s))
SpanOfYear(y) == SpanOfNumbers(YearText(y), <<y, 1, 1>>, <<y, 12, 31>>)
SpanOfMonth(y, m) == SpanOfNumbers(YearText(y) \o "-" \o Pad2(m), <<y, m, 1>>, <<y, m, DaysIn(y, m)>>)
SpanOfDay(d) == SpanOfNumbers(DateText(d), d, d)

---------------------------------------------------------------------------
(* Date and time *)

SpanOfDateAndTime(c) ==
    LET t == Find(c, 1, "T")
        negative == c[1] = "-"
        y == IF negative THEN 2 ELSE 1
    IN IF t # y + 10 THEN Bad({"other"})            \* only a complete date has a time
       ELSE
       LET year == IF negative THEN -Num4(c, y) ELSE Num4(c, y)
           month == Num2(c, y + 5)
           day == Num2(c, y + 8)
           h == Num2(c, t + 1)
           m == Num2(c, t + 4)
           s == Num2(c, t + 7)
           z == t + 9
           shifted == At(c, z) \in {"+", "-"}
           sh == IF shifted THEN Num2(c, z + 1) ELSE 0
           sm == IF shifted /\ Len(c) = z + 5 THEN Num2(c, z + 4) ELSE 0
           shift == (sh * 60 + sm) * 60
       IN IF ~IsRealDate(year, month, day) \/ h > 23 \/ m > 59 \/ s > 59
          \* DEVIATION: shifts up to 24 hours and 60 minutes are taken
             \/ sh > 24 \/ sm > 60
          THEN Bad({"other"})
          ELSE LET local == <<DayNumber(year, month, day), h * 3600 + m * 60 + s>>
                   utc == Plus(local, IF At(c, z) = "-" THEN shift ELSE -shift)
                   x == InstantCorner(utc)
               IN Span("", "", x, x, x, x)

---------------------------------------------------------------------------
(* Years *)

\* the digits from i up to e (exclusive), without leading zeros
Significant(c, i, e) ==
    LET k == Skip(c, i, {"0"}) IN IF k >= e THEN <<>> ELSE Part(c, k, e - 1)
RECURSIVE NumberOf(_)
NumberOf(d) == IF d = <<>> THEN 0 ELSE 10 * NumberOf(SubSeq(d, 1, Len(d) - 1)) + V(d[Len(d)])
RECURSIVE Power10(_)
Power10(n) == IF n = 0 THEN 1 ELSE 10 * Power10(n - 1)

\* [-]digitsEdigits from i up to e (exclusive): a year, or the reason why not
ExponentialValue(c, i, e) ==
    LET negative == c[i] = "-"
        k == IF negative THEN i + 1 ELSE i
        E == Skip(c, k, Digits)
        m == Significant(c, k, E)
        x == Significant(c, E + 1, e)
        n == NumberOf(m) * Power10(NumberOf(x))
    IN IF Len(x) >= 10 \* an exponent that may not fit in an integer
       THEN IF m = <<>> THEN [ok |-> FALSE, err |-> AnyKind, or |-> TRUE] ELSE Bad(AnyKind)
       ELSE IF m = <<>> THEN [ok |-> TRUE, y |-> 0]
       ELSE IF Len(x) > 1 \/ Len(m) + NumberOf(x) > 4 THEN Bad({"Unsupported"})
       ELSE [ok |-> TRUE, y |-> IF negative THEN -n ELSE n]

SpanOfExponential(c) ==
    LET v == ExponentialValue(c, 2, Len(c) + 1)
    IN IF v.ok THEN SpanOfYear(v.y) ELSE v

\* DEVIATION: Y with less than four digits is a valid string but not a date; Y with
\* more than four digits is unsupported even if it is a year before 10000 (Y00001)
SpanOfLetterPrefixed(c) ==
    LET negative == At(c, 2) = "-"
        digits == Len(c) - (IF negative THEN 2 ELSE 1)
    IN IF digits > 4 THEN Bad({"Unsupported"})
       ELSE SpanOfSide(Part(c, 2, Len(c)))

\* y with k of its (four) digits from the right running over 0..9
SpanOfDigits(y, k) ==
    LET n == Power10(k)
        abs == IF y < 0 THEN -y ELSE y
        lo == (abs \div n) * n
        hi == lo + n - 1
    IN IF y < 0 THEN Between(SpanOfYear(-hi), [SpanOfYear(-lo) EXCEPT !.ee = IF lo = 0 THEN "-0000" ELSE YearText(-lo)])
       ELSE Between(SpanOfYear(lo), SpanOfYear(hi))

SpanOfSignificantDigits(c) ==
    LET s == Find(c, 1, "S")
        k == Significant(c, s + 1, Len(c) + 1)
        isY == At(c, 1) \in {"Y", "y"}
        isE == isY /\ \E i \in 2..s : At(c, i) \in {"E", "e"}
        i == IF isY THEN 2 ELSE 1
        negative == At(c, i) = "-"
        j == IF negative THEN i + 1 ELSE i
        v == IF isE THEN ExponentialValue(c, 2, s)
             ELSE IF isY /\ s - j > 4 THEN Bad({"Unsupported"})
             ELSE LET n == NumberOf(Part(c, j, s - 1)) IN [ok |-> TRUE, y |-> IF negative THEN -n ELSE n]
    IN IF ~v.ok THEN v
       ELSE IF Len(k) > 1 \/ NumberOf(k) > 4 THEN Bad({"Invalid"})
       ELSE SpanOfDigits(v.y, NumberOf(k))

---------------------------------------------------------------------------
(* Seasons and other groups of months *)

\* code |-> <<first month, last month>>; a last month before the first is in the next year
GroupMonths == [g \in 21..41 |->
    CASE g \in {21, 25, 31} -> <<3, 5>>     \* spring; northern spring, southern autumn
      [] g \in {22, 26, 32} -> <<6, 8>>     \* summer; northern summer, southern winter
      [] g \in {23, 27, 29} -> <<9, 11>>    \* autumn; northern autumn, southern spring
      [] g \in {24, 28, 30} -> <<12, 2>>    \* winter; northern winter, southern summer
      [] g \in 33..36 -> <<3 * (g - 33) + 1, 3 * (g - 33) + 3>>    \* quarters
      [] g \in 37..39 -> <<4 * (g - 37) + 1, 4 * (g - 37) + 4>>    \* quadrimesters
      [] g \in 40..41 -> <<6 * (g - 40) + 1, 6 * (g - 40) + 6>>]   \* semesters

WordCode == [spring |-> 21, summer |-> 22, fall |-> 23, winter |-> 24]

\* from the first day of the first month to the last day of the last one
SpanOfGroup(y, months, lastIsMonth) ==
    LET ey == IF months[2] < months[1] THEN y + 1 ELSE y
        last == DaysIn(ey, months[2])
    IN IF ey > MaxYear THEN Bad(AnyKind \ {"Unrecognized"})
       ELSE Between(SpanOfDay(<<y, months[1], 1>>),
                    IF lastIsMonth THEN SpanOfMonth(ey, months[2])
                    ELSE SpanOfDay(<<ey, months[2], last>>))

SpanOfSeason(c) ==
    LET w == SeasonWord(c) IN
    IF w # "" THEN SpanOfGroup(Num4(c, Len(c) - 3), GroupMonths[WordCode[w]], FALSE)
    ELSE LET negative == c[1] = "-"
             i == IF negative THEN 2 ELSE 1
             y == IF negative THEN -Num4(c, i) ELSE Num4(c, i)
             g == Num2(c, i + 5)
         IN IF g \in 1..12 THEN SpanOfGroup(y, <<g, g>>, FALSE)
            ELSE SpanOfGroup(y, GroupMonths[g], FALSE)

\* DEVIATION: the end of a winter that a sub-year grouping denotes is its last month,
\* so the lower bound of the end is February 1st; for seasons it is the last day
SpanOfSubYear(c) ==
    LET g == Num2(c, 6) IN
    IF g \notin 21..41 THEN Bad({"Invalid"})
    ELSE SpanOfGroup(Num4(c, 1), GroupMonths[g], GroupMonths[g][2] < GroupMonths[g][1])

---------------------------------------------------------------------------
(* Sets *)

Dots(m) == Count(m, ".") \div 2
\* the dates of one member: itself, or the ends of a range
DatesOf(m) ==
    IF Dots(m) = 0 THEN <<m>>
    ELSE LET i == Find(m, 1, ".")
             l == Part(m, 1, i - 1)
             r == Part(m, i + 2, Len(m))
         IN IF l # <<>> /\ r # <<>> THEN <<l, r>> ELSE IF l = <<>> THEN <<r>> ELSE <<l>>
OpensStart(m) == Dots(m) = 1 /\ m[1] = "."
OpensEnd(m) == Dots(m) = 1 /\ m[1] # "." /\ m[Len(m)] = "."

RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))

\* order of texts (only signs and digits matter)
CharLess(x, y) == IF x = "-" THEN y # "-" ELSE y # "-" /\ V(x) < V(y)
RECURSIVE TextLess(_, _)
TextLess(x, y) ==
    IF x = <<>> THEN y # <<>>
    ELSE IF y = <<>> THEN FALSE
    ELSE IF Head(x) = Head(y) THEN TextLess(Tail(x), Tail(y)) ELSE CharLess(Head(x), Head(y))

\* The date that begins first and the one that ends last; of several dates that begin
\* (or end) at the same time, the first (last) in the order of their texts.
BeginsFirst(ds, spans) ==
    CHOOSE i \in DOMAIN ds : \A j \in DOMAIN ds :
        \/ Earlier(spans[i].SL.t, spans[j].SL.t)
        \/ spans[i].SL.t = spans[j].SL.t /\ ~TextLess(ds[j], ds[i])
EndsLast(ds, spans) ==
    CHOOSE i \in DOMAIN ds : \A j \in DOMAIN ds :
        \/ Earlier(spans[j].EU.t, spans[i].EU.t)
        \/ spans[i].EU.t = spans[j].EU.t /\ ~TextLess(ds[i], ds[j])

Included(S, inc) ==
    LET Mark(x) == IF x.o THEN x ELSE [x EXCEPT !.i = inc]
    IN [S EXCEPT !.SL = Mark(@), !.SU = Mark(@), !.EL = Mark(@), !.EU = Mark(@)]

SpanOfSet(c) ==
    LET inc == IF c[1] = "[" THEN ANY ELSE ALL
        members == Split(Part(c, 2, Len(c) - 1), ",")
        startOpen == \E i \in DOMAIN members : OpensStart(members[i])
        endOpen == \E i \in DOMAIN members : OpensEnd(members[i])
    IN IF \E i \in DOMAIN members : Dots(members[i]) > 1 THEN Bad({"Invalid"}) ELSE
       LET ds == Flatten([i \in DOMAIN members |-> DatesOf(members[i])])
           spans == [i \in DOMAIN ds |-> SpanOfSide(ds[i])]
           bad == {i \in DOMAIN ds : ~spans[i].ok}
       IN IF bad # {} THEN Bad(UNION {spans[i].err : i \in bad}) ELSE
       LET first == spans[BeginsFirst(ds, spans)]
           last == spans[EndsLast(ds, spans)]
           several == Len(ds) > 1
       IN Included(
            CASE startOpen /\ endOpen -> SpanOpen("")
              [] startOpen /\ ~endOpen ->
                 Span(IF several THEN "" ELSE "..", last.ee, OpenCorner, OpenCorner, first.SL, last.EU)
              [] ~startOpen /\ endOpen ->
                 Span(first.se, IF several THEN "" ELSE "..", first.SL, last.EU, OpenCorner, OpenCorner)
              [] OTHER -> IF first.se = last.se THEN first ELSE Between(first, last),
            inc)

---------------------------------------------------------------------------
(* The meaning of c as feature f, and the outcome of parsing *)

MeaningAs(f, c) ==
    CASE f = "Date and Time" -> SpanOfDateAndTime(c)
      [] f = "Letter-prefixed calendar year" -> SpanOfLetterPrefixed(c)
      [] f = "Seasons" -> SpanOfSeason(c)
      [] f = "Exponential year" -> SpanOfExponential(c)
      [] f = "Significant digits" -> SpanOfSignificantDigits(c)
      [] f = "Sub-year groupings" -> SpanOfSubYear(c)
      [] f = "Set representation" -> SpanOfSet(c)
      [] OTHER -> SpanOfText(c)

Outcome(c) ==
    LET f == Feature(c) IN
    IF f # "" THEN MeaningAs(f, c)
    ELSE IF IsOpenText(c) THEN SpanOpen("")
    ELSE IF IsUnknownText(c) THEN SpanUnknown("")
    ELSE Bad({"Unrecognized"})
FeatureName(c) ==
    LET f == Feature(c) IN
    IF f # "" THEN f ELSE IF IsOpenText(c) THEN "Open" ELSE IF IsUnknownText(c) THEN "Unknown" ELSE ""
LevelNumber(c) == LET f == Feature(c) IN IF f # "" THEN LevelOf[f] ELSE -1
=============================================================================
