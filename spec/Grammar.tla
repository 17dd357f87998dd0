------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* What strings there are: one recogniser per production of the EDTF       *)
(* grammar (2019, levels 0 to 2) as this library accepts it, and the       *)
(* order in which the productions are tried.                               *)
(*                                                                         *)
(* The library is deliberately more permissive than EDTF in places.  Each  *)
(* such place is marked DEVIATION: the specification accepts what the      *)
(* library is known and meant to accept, so that everything else is a bug. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Chars

---------------------------------------------------------------------------
(* Components.  Each operator gives the position after the component, or 0. *)

\* [-]dddd
YearEnd(c, i) ==
    IF At(c, i) = "-"
    THEN IF AreDigits(c, i + 1, 4) THEN i + 5 ELSE 0
    ELSE IF AreDigits(c, i, 4) THEN i + 4 ELSE 0

IsMonthNumber(c, i) == AreDigits(c, i, 2) /\ Num2(c, i) \in 1..12
IsDayNumber(c, i) == AreDigits(c, i, 2) /\ Num2(c, i) \in 1..31

\* -mm and -dd
MonthEnd(c, i) == IF At(c, i) = "-" /\ IsMonthNumber(c, i + 1) THEN i + 3 ELSE 0
DayEnd(c, i) == IF At(c, i) = "-" /\ IsDayNumber(c, i + 1) THEN i + 3 ELSE 0

\* All the places where a date (year, year-month or year-month-day) that starts
\* at i can end.
DateEnds(c, i) ==
    LET y == YearEnd(c, i) IN
    IF y = 0 THEN {} ELSE
    LET m == MonthEnd(c, y) IN
    IF m = 0 THEN {y} ELSE
    LET d == DayEnd(c, m) IN
    IF d = 0 THEN {y, m} ELSE {y, m, d}

\* the part of c from i up to, not including, e is a date
DateBetween(c, i, e) == e \in DateEnds(c, i)

---------------------------------------------------------------------------
(* Level 0 *)

IsDate(c) == DateBetween(c, 1, Len(c) + 1)

\* dd:dd:dd at i; which hours, minutes and seconds there are is not syntax
ClockEnd(c, i) ==
    IF AreDigits(c, i, 2) /\ At(c, i + 2) = ":" /\ AreDigits(c, i + 3, 2)
       /\ At(c, i + 5) = ":" /\ AreDigits(c, i + 6, 2)
    THEN i + 8 ELSE 0

\* nothing, Z, +hh, -hh, +hh:mm or -hh:mm, up to the end of c
IsShift(c, i) ==
    LET n == Len(c) IN
    \/ i = n + 1
    \/ i = n /\ c[i] = "Z"
    \/ /\ At(c, i) \in {"+", "-"} /\ AreDigits(c, i + 1, 2)
       /\ \/ n = i + 2
          \/ n = i + 5 /\ c[i + 3] = ":" /\ AreDigits(c, i + 4, 2)

\* DEVIATION: a year or a year and month may be followed by a time; it is valid,
\* and an error when parsed
IsDateAndTime(c) ==
    LET t == Find(c, 1, "T") IN
    /\ t <= Len(c)
    /\ DateBetween(c, 1, t)
    /\ ClockEnd(c, t + 1) # 0
    /\ IsShift(c, ClockEnd(c, t + 1))

IsTimeInterval(c) ==
    LET s == Find(c, 1, "/") IN
    s <= Len(c) /\ DateBetween(c, 1, s) /\ DateBetween(c, s + 1, Len(c) + 1)

---------------------------------------------------------------------------
(* Level 1 *)

\* [-]digits up to the end e (exclusive), at least one digit
SignedDigits(c, i, e) ==
    LET j == IF At(c, i) = "-" THEN i + 1 ELSE i IN
    j < e /\ \A k \in j..(e - 1) : IsDigit(c, k)

\* Y[-]d...  (only a capital Y)
IsLetterPrefixedYear(c) == At(c, 1) = "Y" /\ SignedDigits(c, 2, Len(c) + 1)

\* season words, in any case; DEVIATION: the long s of Unicode folds to s
Letter(x, l) ==
    CASE l = "s" -> x \in {"s", "S", "\\u{017f}"}
      [] l = "p" -> x \in {"p", "P"} [] l = "r" -> x \in {"r", "R"}
      [] l = "i" -> x \in {"i", "I"} [] l = "n" -> x \in {"n", "N"}
      [] l = "g" -> x \in {"g", "G"} [] l = "u" -> x \in {"u", "U"}
      [] l = "m" -> x \in {"m", "M"} [] l = "e" -> x \in {"e", "E"}
      [] l = "f" -> x \in {"f", "F"} [] l = "a" -> x \in {"a", "A"}
      [] l = "l" -> x \in {"l", "L"} [] l = "w" -> x \in {"w", "W"}
      [] l = "t" -> x \in {"t", "T"}
Words == [ spring |-> <<"s", "p", "r", "i", "n", "g">>,
           summer |-> <<"s", "u", "m", "m", "e", "r">>,
           fall   |-> <<"f", "a", "l", "l">>,
           winter |-> <<"w", "i", "n", "t", "e", "r">> ]
WordAt(c, w) == /\ Len(c) >= Len(Words[w])
                /\ \A i \in 1..Len(Words[w]) : Letter(c[i], Words[w][i])

\* word, whitespace, comma, whitespace, four digits
IsWordSeason(c, w) ==
    /\ WordAt(c, w)
    /\ LET k == Skip(c, Len(Words[w]) + 1, Blanks)
           y == Skip(c, k + 1, Blanks)
       IN At(c, k) = "," /\ AreDigits(c, y, 4) /\ Len(c) = y + 3

SeasonWord(c) ==
    IF At(c, 1) \in Digits \/ At(c, 1) = "-" THEN ""
    ELSE IF IsWordSeason(c, "spring") THEN "spring"
    ELSE IF IsWordSeason(c, "summer") THEN "summer"
    ELSE IF IsWordSeason(c, "fall") THEN "fall"
    ELSE IF IsWordSeason(c, "winter") THEN "winter" ELSE ""

\* [-]dddd-nn with nn in 01..12 or 21..24
IsCodeSeason(c) ==
    LET y == YearEnd(c, 1) IN
    /\ y # 0 /\ Len(c) = y + 2 /\ c[y] = "-" /\ AreDigits(c, y + 1, 2)
    /\ Num2(c, y + 1) \in (1..12) \cup (21..24)

IsSeason(c) == IsCodeSeason(c) \/ SeasonWord(c) # ""

IsQualifiedDate(c) ==
    Len(c) > 0 /\ c[Len(c)] \in Qualifiers /\ DateBetween(c, 1, Len(c))

\* month: 0X..XX and mixtures; day: likewise, but not 10, 20 or X0.. (these are
\* left to level 2)
OneToNineOrX == {"1", "2", "3", "4", "5", "6", "7", "8", "9", "X"}
L1MonthX(c, i) ==
    \/ At(c, i) \in {"0", "X"} /\ At(c, i + 1) \in OneToNineOrX
    \/ At(c, i) \in {"1", "X"} /\ At(c, i + 1) \in {"0", "1", "2", "X"}
L1DayX(c, i) ==
    \/ At(c, i) \in {"0", "1", "2", "X"} /\ At(c, i + 1) \in OneToNineOrX
    \/ At(c, i) \in {"3", "X"} /\ At(c, i + 1) \in {"0", "1", "X"}

IsUnspecifiedDigits(c) ==
    LET n == Len(c) IN
    /\ n \in {4, 7, 10}
    /\ AreDigitsOrX(c, 1, 4)
    /\ n >= 7 => c[5] = "-" /\ L1MonthX(c, 6)
    /\ n = 10 => c[8] = "-" /\ L1DayX(c, 9)

IsNegativeYear(c) == Len(c) = 5 /\ c[1] = "-" /\ AreDigits(c, 2, 4)

\* ../date and /date
IsIntervalStart(c) ==
    \/ At(c, 1) = "/" /\ DateBetween(c, 2, Len(c) + 1)
    \/ /\ At(c, 1) = "." /\ At(c, 2) = "." /\ At(c, 3) = "/"
       /\ DateBetween(c, 4, Len(c) + 1)

\* date/.. and date/
IsIntervalEnd(c) ==
    LET n == Len(c) IN
    \/ n > 1 /\ c[n] = "/" /\ DateBetween(c, 1, n)
    \/ n > 3 /\ c[n] = "." /\ c[n - 1] = "." /\ c[n - 2] = "/" /\ DateBetween(c, 1, n - 2)

---------------------------------------------------------------------------
(* Level 2 *)

\* [Yy][-]d...[Ee]d... from position 1 up to e (exclusive)
IsExponentialUpTo(c, e) ==
    /\ At(c, 1) \in {"Y", "y"}
    /\ \E k \in 3..(e - 2) : /\ c[k] \in {"E", "e"}
                             /\ SignedDigits(c, 2, k)
                             /\ \A j \in (k + 1)..(e - 1) : IsDigit(c, j)
IsExponentialYear(c) == IsExponentialUpTo(c, Len(c) + 1)

\* dddd, Y form or exponential form, a capital S, and digits
IsSignificantDigits(c) ==
    LET s == Find(c, 1, "S") IN
    /\ s < Len(c)
    /\ \A j \in (s + 1)..Len(c) : IsDigit(c, j)
    /\ \/ YearEnd(c, 1) = s
       \/ At(c, 1) = "Y" /\ SignedDigits(c, 2, s)
       \/ IsExponentialUpTo(c, s)

IsSubYearGrouping(c) ==
    /\ Len(c) = 7 /\ AreDigits(c, 1, 4) /\ c[5] = "-" /\ AreDigits(c, 6, 2)
    /\ Num2(c, 6) \in (10..12) \cup (21..41)

\* Sets.  DEVIATION: the brackets need not pair up, separators may be left out and a
\* last comma is allowed; whether the members are dates is found out in parsing.
\* Positions after one more member and its separator, for a member that starts at p:
ItemEnds(c, p) ==
    LET E == DateEnds(c, p) IN
    E \cup {e + 1 : e \in {e \in E : At(c, e) = ","}}
      \cup {e + 2 : e \in {e \in E : At(c, e) = "." /\ At(c, e + 1) = "."}}
RECURSIVE ItemClosure(_, _, _)
ItemClosure(c, todo, done) ==
    IF todo = {} THEN done
    ELSE LET next == (UNION {ItemEnds(c, p) : p \in todo}) \ done
         IN ItemClosure(c, next, done \cup next)
DotsAt(c, i) == At(c, i) = "." /\ At(c, i + 1) = "."
IsSet(c) ==
    LET n == Len(c) IN
    /\ n >= 6 /\ c[1] \in {"[", "{"} /\ c[n] \in {"]", "}"}
    /\ LET p == IF DotsAt(c, 2) THEN 4 ELSE 2
           E == ItemClosure(c, {p}, {})
       IN n \in E \/ (DotsAt(c, n - 2) /\ (n - 2) \in E)

\* dddd[q][-dd[q][-dd[q]]]; DEVIATION: any two digits are a month or a day here
QualEnd(c, i) == IF At(c, i) \in Qualifiers THEN i + 1 ELSE i
IsGroupQualification(c) ==
    /\ AreDigits(c, 1, 4)
    /\ LET n == Len(c)
           y == QualEnd(c, 5)
           m == QualEnd(c, y + 3)
           d == QualEnd(c, m + 3)
           mm == At(c, y) = "-" /\ AreDigits(c, y + 1, 2)
           dd == At(c, m) = "-" /\ AreDigits(c, m + 1, 2)
       IN \/ n = y - 1
          \/ mm /\ n = m - 1
          \/ mm /\ dd /\ n = d - 1

\* [q]dddd[-[q]dd[-[q]dd]]
IsIndividualQualification(c) ==
    LET n == Len(c)
        y == QualEnd(c, 1)          \* the year starts here
        m == QualEnd(c, y + 5)      \* the month
        d == QualEnd(c, m + 3)      \* the day
    IN /\ AreDigits(c, y, 4)
       /\ \/ n = y + 3
          \/ /\ At(c, y + 4) = "-" /\ AreDigits(c, m, 2)
             /\ \/ n = m + 1
                \/ At(c, m + 2) = "-" /\ AreDigits(c, d, 2) /\ n = d + 1

IsUnspecifiedDigit(c) ==
    LET n == Len(c) IN
    /\ n \in {4, 7, 10}
    /\ AreDigitsOrX(c, 1, 4)
    /\ n >= 7 => c[5] = "-" /\ AreDigitsOrX(c, 6, 2)
    /\ n = 10 => c[8] = "-" /\ AreDigitsOrX(c, 9, 2)

\* one side of a level 2 interval: [q][-]yyyy[-[q]mm[-[q]dd]] with digits and Xs,
\* from i up to e (exclusive)
IsSide(c, i, e) ==
    LET y0 == QualEnd(c, i)
        y  == IF At(c, y0) = "-" THEN y0 + 1 ELSE y0
        m == QualEnd(c, y + 5)
        d == QualEnd(c, m + 3)
    IN /\ AreDigitsOrX(c, y, 4)
       /\ \/ e = y + 4
          \/ /\ At(c, y + 4) = "-" /\ AreDigitsOrX(c, m, 2)
             /\ \/ e = m + 2
                \/ At(c, m + 2) = "-" /\ AreDigitsOrX(c, d, 2) /\ e = d + 2
IsInterval(c) ==
    LET s == Find(c, 1, "/") IN
    s <= Len(c) /\ IsSide(c, 1, s) /\ IsSide(c, s + 1, Len(c) + 1)

---------------------------------------------------------------------------
(* The features, in the order in which they are tried *)

Features == <<"Date", "Date and Time", "Time Interval",
    "Letter-prefixed calendar year", "Seasons", "Qualification of a date (complete)",
    "Unspecified digit(s) from the right", "Negative calendar year",
    "Extended Interval (Start)", "Extended Interval (End)",
    "Exponential year", "Significant digits", "Sub-year groupings", "Set representation",
    "Qualification (Group)", "Qualification (Individual)", "Unspecified Digit", "Interval">>
FeatureSet == {Features[i] : i \in 1..Len(Features)}
LevelOf == [f \in FeatureSet |->
    LET i == CHOOSE i \in 1..Len(Features) : Features[i] = f
    IN IF i <= 3 THEN 0 ELSE IF i <= 10 THEN 1 ELSE 2]

Derives(f, c) ==
    CASE f = "Date" -> IsDate(c)
      [] f = "Date and Time" -> IsDateAndTime(c)
      [] f = "Time Interval" -> IsTimeInterval(c)
      [] f = "Letter-prefixed calendar year" -> IsLetterPrefixedYear(c)
      [] f = "Seasons" -> IsSeason(c)
      [] f = "Qualification of a date (complete)" -> IsQualifiedDate(c)
      [] f = "Unspecified digit(s) from the right" -> IsUnspecifiedDigits(c)
      [] f = "Negative calendar year" -> IsNegativeYear(c)
      [] f = "Extended Interval (Start)" -> IsIntervalStart(c)
      [] f = "Extended Interval (End)" -> IsIntervalEnd(c)
      [] f = "Exponential year" -> IsExponentialYear(c)
      [] f = "Significant digits" -> IsSignificantDigits(c)
      [] f = "Sub-year groupings" -> IsSubYearGrouping(c)
      [] f = "Set representation" -> IsSet(c)
      [] f = "Qualification (Group)" -> IsGroupQualification(c)
      [] f = "Qualification (Individual)" -> IsIndividualQualification(c)
      [] f = "Unspecified Digit" -> IsUnspecifiedDigit(c)
      [] f = "Interval" -> IsInterval(c)

\* the first feature from the i-th on that derives c, or ""
RECURSIVE FirstFrom(_, _, _)
FirstFrom(c, i, j) ==
    IF i > j THEN "" ELSE IF Derives(Features[i], c) THEN Features[i] ELSE FirstFrom(c, i + 1, j)
Feature(c) == FirstFrom(c, 1, 18)
Feature0(c) == FirstFrom(c, 1, 3)
Feature1(c) == FirstFrom(c, 4, 10)
Feature2(c) == FirstFrom(c, 11, 18)

IsOpenText(c) == c = <<".", ".">>
IsUnknownText(c) == c = <<>>
IsValidText(c) == Feature(c) # "" \/ IsOpenText(c) \/ IsUnknownText(c)
=============================================================================
