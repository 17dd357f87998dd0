------------------------------- MODULE Typist -------------------------------
(***************************************************************************)
(* Someone who types EDTF strings, and slips.                              *)
(*                                                                         *)
(* A text is written slot by slot from a form (a sequence of sets of       *)
(* character sequences) and, once it is complete, may be corrupted by a    *)
(* number of edits of one character each.  TLC walks all the texts that    *)
(* the forms of a job have: each complete text is                          *)
(*   - checked against the design: what Grammar and Meaning say about it   *)
(*     has to be consistent in itself (Design, an invariant);              *)
(*   - printed, for the driver to try on the real library (Emitted).       *)
(*                                                                         *)
(* The forms are in this module; the years and numbers that they range     *)
(* over come from a file (IOEnv.PARAMS), which the runner makes from the   *)
(* seed.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils,
        Chars, Calendar, Grammar, Meaning, Laws

P == JsonDeserialize(IOEnv.PARAMS)
Elements(s) == {s[i] : i \in DOMAIN s}

\* the characters of a string
C(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
CS(S) == {C(s) : s \in S}
L(s) == {C(s)}
None == {<<>>}
Maybe(S) == S \cup None

Dg(n, w) == [i \in 1..w |-> DigitSeq[((n \div (10 ^ (w - i))) % 10) + 1]]
YC(y) == IF y < 0 THEN <<"-">> \o Dg(-y, 4) ELSE Dg(y, 4)
MinusZero == <<"-", "0", "0", "0", "0">>

\* years
Written4(ys) == {YC(y) : y \in ys}
Years == Written4(Elements(P.years)) \cup {MinusZero}      \* a sample
Few == Written4(Elements(P.few))                           \* a few of them
Positive(S) == {y \in S : y[1] # "-"}
CycleYears == Written4(Elements(P.cycle))                  \* a leap year cycle, and the negative of it
AllYears(x) == Written4(-9999..9999) \cup {MinusZero}

\* months and days
MM == {Dg(m, 2) : m \in 1..12}
DD == {Dg(d, 2) : d \in 1..31}
Qs == CS({"", "?", "~", "%"})
Qn == CS({"?", "~", "%"})

---------------------------------------------------------------------------
(* The forms *)

\* calendar dates
Dates(ys) ==
    << <<ys>>, <<ys, CS({"-02", "-12"})>>, <<ys, CS({"-02-28", "-02-29", "-01-01"})>> >>
MonthEnds(ys) ==
    << <<ys, L("-"), MM>>, <<ys, L("-"), MM, CS({"-01", "-28", "-29", "-30", "-31"})>> >>
Days(ys) == << <<ys, L("-"), MM, L("-"), DD>> >>

\* years in which someone, somewhere, had another calendar; and edges
OddYears == Written4({1582, 1712, 1752, 1900, 2000, 0, -1, 1, 4, -4, 9999, -9999})

\* dates and times
EdgeDays == CS({"-01-01", "-12-31", "-02-28", "-02-29", "-03-01", "-06-30", "-07-31"})
NoDays == CS({"-02-30", "-04-31", "-02-31", "-06-31"})
EdgeTimes == CS({"T00:00:00", "T23:59:59", "T12:34:56", "T00:00:01", "T23:00:00"})
BadTimes == CS({"T24:00:00", "T23:60:00", "T23:59:60", "T99:99:99", "T25:00:00", "T00:61:00"})
Signs == CS({"+", "-"})
Shifts == CS({"", "Z"})
    \cup {<<s>> \o Dg(h, 2) : s \in {"+", "-"}, h \in {0, 1, 5, 9, 12, 14, 23}}
    \cup {<<s>> \o Dg(h, 2) \o <<":">> \o Dg(m, 2) : s \in {"+", "-"}, h \in {0, 3, 11, 23}, m \in {0, 1, 30, 59}}
OddShifts == {<<s>> \o Dg(h, 2) \o x : s \in {"+", "-"}, h \in {0, 13, 22, 23, 24, 25, 99},
              x \in CS({"", ":00", ":15", ":45", ":59", ":60", ":61", ":99"})}
AllShifts == {<<s>> \o Dg(h, 2) \o x : s \in {"+", "-"}, h \in 0..24, x \in CS({"", ":00", ":30", ":45"})}
Clocks == {C("T") \o Dg(h, 2) \o <<":">> \o Dg(m, 2) \o <<":">> \o Dg(s, 2) :
           h \in Elements(P.hours), m \in Elements(P.minutes), s \in Elements(P.seconds)}
DateTimes(ys) ==
    << <<ys, EdgeDays, EdgeTimes, Shifts>>, <<ys, EdgeDays, BadTimes, CS({"", "Z", "+01:00"})>>,
       <<ys, NoDays, EdgeTimes, CS({"", "Z", "-05"})>>, <<Few, L("-02-28"), CS({"T23:30:00", "T00:30:00"}), AllShifts>>,
       <<Few, CS({"-03-01", "-12-31"}), CS({"T00:00:00", "T23:59:59"}), OddShifts>>,
       <<Few, CS({"", "-01"}), EdgeTimes, CS({"", "Z"})>>,
       <<Few, EdgeDays, Clocks, CS({"Z", "-11:30", "+13"})>> >>

\* sides of intervals
PlainTails == CS({"", "-02", "-11", "-02-29", "-11-30", "-01-01"})
QualifiedSides == {q \o y \o <<"-">> \o r \o m \o <<"-">> \o s \o d :
        q \in Qs, y \in Written4({P.few[1]}), r \in Qs, m \in CS({"06"}), s \in Qs, d \in CS({"11"})}
    \cup {q \o y \o <<"-">> \o r \o m : q \in Qs, y \in Written4({P.few[2]}), r \in Qs, m \in CS({"02"})}
    \cup {q \o y : q \in Qs, y \in Written4({P.few[3]})}
Mask(y, S) == [i \in DOMAIN y |-> IF i \in S THEN "X" ELSE y[i]]
Abs4(y) == IF y[1] = "-" THEN Tail(y) ELSE y
XSides == {Mask(Abs4(YC(P.few[1])), S) \o t :
             S \in {{4}, {3, 4}, {2, 3, 4}, {1, 2, 3, 4}, {3}}, t \in CS({"", "-12", "-12-25", "-XX", "-12-XX"})}
    \cup {YC(P.few[2]) \o t : t \in CS({"-XX", "-0X", "-1X", "-04-XX", "-04-3X", "-02-2X", "-02-3X", "-12-1X", "-XX-XX", "-1X-0X"})}
PlainSides(ys) == {y \o t : y \in ys, t \in PlainTails}
Keywords == CS({"..", ""})
FewQualifiedSides == CS({"?1984", "~2004-06", "2004-?06", "%2004-06-11", "2004-06-~11", "?2004-~06-%11"})
SimpleSides == PlainSides(Few) \cup FewQualifiedSides \cup Keywords
Intervals ==
    << <<SimpleSides, L("/"), SimpleSides>>,
       <<XSides, L("/"), PlainSides(Written4({P.few[1]})) \cup Keywords \cup FewQualifiedSides>>,
       <<PlainSides(Written4({P.few[3]})) \cup Keywords \cup FewQualifiedSides, L("/"), XSides>>,
       <<QualifiedSides, L("/"), CS({"1985", "2004-~06", ".."})>>, <<CS({"1985-?01", "-0004"}), L("/"), QualifiedSides>>,
       <<CS({"1985-04", "1985", "..", ""}), CS({"?", "~", "%"}), L("/"), CS({"1990-11", "..", ""})>>,
       <<CS({"1985-04", "1985", "..", ""}), L("/"), CS({"1990-11", "1990", ""}), CS({"?", "~", "%"})>>,
       <<Few, L("/"), Few, L("/"), Few>> >>
WideIntervals == << <<XSides \cup QualifiedSides \cup SimpleSides, L("/"), XSides \cup QualifiedSides \cup SimpleSides>> >>
\* sides that are nearly the same
KinSides(n) ==
    LET y == Abs4(YC(n)) IN
    {y \o t : t \in CS({"", "-02", "-03", "-02-28", "-03-01", "-03-31", "-10-01", "-XX", "-1X", "-03-XX", "-03-1X", "?", "-03~", "-03-01%", "-~03-01", "-03-?01"})}
    \cup {Mask(y, S) \o t : S \in {{4}, {3, 4}}, t \in CS({"", "-03", "-03-01"})}
    \cup {<<"-">> \o y \o t : t \in CS({"", "-03-01"})} \cup {q \o y : q \in CS({"?", "%"})}
    \cup {YC(n + d) \o t : d \in {-1, 1, 100}, t \in CS({"", "-03"})}
KinIntervals == [i \in DOMAIN P.few |-> IF P.few[i] \in 1..9899 THEN <<KinSides(P.few[i]), L("/"), KinSides(P.few[i])>> ELSE <<{}>>]
OpenIntervals(ys) ==
    << <<CS({"../", "/"}), ys, PlainTails>>, <<ys, PlainTails, CS({"/..", "/"})>>,
       <<CS({"", "..", "/", "../", "/..", "../..", "...", "....", ".", "open", "uuuu", "unknown", "open/1985", "1985/open"})>>,
       <<Few, MM, CS({"/..", "/"})>>, <<CS({"../", "/"}), Few, L("-"), MM, L("-"), CS({"01", "28", "29", "30", "31"})>> >>

\* unspecified digits
YearMasks(ys) == {Mask(Abs4(y), S) : y \in ys, S \in {{}, {4}, {3, 4}, {2, 3, 4}}}
OddMasks(ys) == {Mask(Abs4(y), S) : y \in ys, S \in SUBSET (1..4)}
MonthMasks == {<<a, b>> : a \in {"0", "1", "X"}, b \in Digits \cup {"X"}} \cup CS({"20", "2X", "99"})
DayMasks == {<<a, b>> : a \in {"0", "1", "2", "3", "X"}, b \in Digits \cup {"X"}} \cup CS({"40", "4X"})
Unspecified(ys) ==
    << <<OddMasks(ys)>>, <<OddMasks(ys), L("-"), MonthMasks>>, <<YearMasks(ys), L("-"), MonthMasks, L("-"), DayMasks>>,
       <<OddMasks(ys), L("-"), CS({"02", "12", "XX", "0X"}), L("-"), CS({"01", "29", "31", "XX", "2X"})>>,
       <<L("-"), YearMasks(ys), CS({"", "-XX", "-02-XX", "-0X", "-12-3X"})>> >>
LeapUnspecified(ys) == << <<ys, CS({"-02-XX", "-02-2X", "-XX-XX", "-XX", "-02-0X"})>>, <<YearMasks(ys), CS({"-02-XX", "-02-29", "-02-2X"})>> >>

\* qualifiers
Qualified(ys) ==
    << <<Qs, ys, Qs>>, <<Qs, ys, Qs, L("-"), Qs, CS({"02", "12"}), Qs>>,
       <<Qs, ys, Qs, L("-"), Qs, CS({"06"}), Qs, L("-"), Qs, CS({"11"}), Qs>> >>
QualifiedX ==
    << <<Qs, CS({"198X", "19XX", "2004", "XXXX"}), Qs, L("-"), Qs, CS({"XX", "0X", "02"}), Qs>>,
       <<Qs, CS({"198X", "2004"}), L("-"), Qs, CS({"XX", "02"}), L("-"), Qs, CS({"XX", "2X", "29"}), Qs>>,
       <<CS({"[1985", "{1985,1990-01", "1985-06/1990", "../1985", "1985-21", "1985-35", "Y1985", "1985S2", "1985-04-12T23:20:30"}), Qs, CS({"", "]", "}", "Z"})>> >>
QualifiedIntervals ==
    << <<Qs, Few, L("-"), Qs, CS({"02", "11"}), L("/"), Qs, CS({"1990"}), L("-"), Qs, L("12")>>,
       <<Qs, CS({"1985"}), L("-"), Qs, L("02"), L("-"), Qs, L("14"), L("/"), Qs, CS({"1990", "-0004"})>>,
       <<Qs, CS({"1985", "-0004"}), L("/"), Qs, CS({"1990"}), L("-"), Qs, L("10"), L("-"), Qs, L("31")>>,
       <<CS({"..", ""}), L("/"), Qs, Few, L("-"), Qs, L("12")>>, <<Qs, CS({"198X", "1985-XX"}), L("/"), Qs, CS({"199X", "1990-0X"})>> >>

\* seasons and groups of months
Codes == {Dg(g, 2) : g \in 1..42} \cup CS({"00", "99", "50"})
WordForms == CS({"spring", "Spring", "SUMMER", "fall", "FALL", "sUmMeR", "winter", "Winter", "WINTER", "autumn"}) \cup {<<"\\u{017f}">> \o C("pring")}
Seasons(ys) ==
    << <<ys, L("-"), Codes>>, <<WordForms, CS({","}), Maybe(CS({" "})), Positive(ys)>> >>
\* Blanks as sequences
Blanked == {<<b>> : b \in Blanks \cup {"\\u{000b}", "\\u{00a0}"}} \cup CS({"   "})
WordSpellings ==
    << <<{<<"s">>, <<"S">>, <<"\\u{017f}">>}, CS({"pring", "PRING", "pRiNg", "prin"}), Maybe(Blanked), L(","), Maybe(Blanked), CS({"2000", "0004", "1"})>>,
       <<CS({"fall", "winter", "summer", "Winter"}), Maybe(Blanked), CS({",", "", ";"}), Maybe(Blanked), CS({"1999", "-1999", "19999", "199X"})>> >>
Winters(ys) == << <<ys, CS({"-24", "-28", "-30"})>>, <<CS({"winter, "}), Positive(ys)>> >>

\* sets
SetMembers == {y \o t : y \in Few, t \in CS({"", "-02", "-12-03"})} \cup CS({"1667", "1760-12", "-0001", "0000", "1985-04-31"})
FewMembers == CS({"1667", "1760-12", "-0100", "1760-12-03", "1985-02-30"})
Open == CS({"[", "{"})
Close == CS({"]", "}"})
DD2 == Maybe(CS({".."}))
Sets ==
    << <<Open, DD2, SetMembers, DD2, Close>>, <<Open, DD2, SetMembers, CS({",", ".."}), SetMembers, DD2, Close>>,
       <<Open, DD2, FewMembers, CS({",", ".."}), FewMembers, CS({",", ".."}), FewMembers, DD2, CS({"]"})>>,
       <<Open, FewMembers, CS({",", ".."}), FewMembers, L(","), FewMembers, CS({",", ".."}), FewMembers, Close>>,
       <<CS({"[", "{", "(", ""}), Maybe(CS({",", " ", ".", "..."})), CS({"1667", "1760-12", "198X", "1985?", "../1985"}),
         CS({"", ",", ",,", "..", "...", "....", " ,", "/"}), CS({"1668", "", "2000-13"}), CS({"", ",", "..", ",.."}), CS({"]", "}", ")", ""})>> >>
Years3 == {y \in Years : TRUE}
SetsOfYears == << <<CS({"[", "{"}), Years3, CS({",", ".."}), Years3, CS({"]"})>> >>
Orders == << <<CS({"["}), FewMembers, L(","), FewMembers, L(","), FewMembers, L(","), FewMembers, CS({"]"})>> >>

\* long texts: there is no limit to how long they are
Rep(c, n) == [i \in 1..(n * Len(c)) |-> c[((i - 1) % Len(c)) + 1]]
Repeated(s, ns) == {Rep(C(s), n) : n \in ns}
Lengths == {17, 65, 250 - (P.few[3] % 150), 257}
Longs ==
    << <<CS({"[", "{[", "[.."}), Repeated("1985,", Lengths), CS({"1990-12", "1990-12-31..", "1990-13", ".."}), CS({"]", "}"})>>,
       <<CS({"{"}), Repeated("1985-04..", {17, 65}), CS({"1990}", "..}"})>>, <<CS({"[-0004-02-29,"}), Repeated("-0003..0004,", {17, 65}), CS({"]", "1985]"})>>,
       <<CS({"Y", "Y-", "-", ""}), Repeated("0", Lengths), CS({"1985", "1985S2", "1E3", "985E1S3", ""})>>, <<CS({"Y1985E", "1985S", "y-1E"}), Repeated("0", Lengths), CS({"", "0", "1", "3"})>>,
       <<CS({"Y", "Y-"}), Repeated("9", Lengths), CS({"", "S1", "E1", "S99"})>>, <<CS({"spring", "Winter"}), Repeated(" ", Lengths), CS({",", ""}), Maybe(Repeated(" ", {1, 64, 200})), L("1985")>>,
       <<CS({"1985", "1985-04", "1985-04-12"}), Repeated("?", Lengths)>>, <<L("1985"), Repeated("-04", Lengths)>>, <<Repeated("1985/", Lengths), L("1990")>>, <<Repeated(".", Lengths), CS({"", "/1985"})>>,
       <<CS({"1985-04-12T23:20:30"}), Repeated("0", Lengths)>>, <<CS({"19", "-1"}), Repeated("X", Lengths)>>, <<L("1985-04-12T23:20:30+"), Repeated("0", Lengths), CS({"", ":00"})>> >>

\* years with letters
Mantissas == CS({"0", "1", "5", "9", "10", "12", "99", "100", "123", "999", "1000", "1234", "9999", "10000", "99999", "00012", "0000", "17"})
Exponents == CS({"0", "1", "2", "3", "4", "5", "8", "9", "10", "11", "00", "01", "03", "99", "308", "400", "999999999", "2147483648", "9223372036854775808"})
Counts == CS({"0", "1", "2", "3", "4", "5", "6", "9", "10", "00", "01", "04", "05", "99", "4294967298", "18446744073709551618"})
Counts4 == CS({"1", "2", "3", "4"})
LetterYears(ys) ==
    << <<L("Y"), ys>>, <<L("Y"), Maybe(CS({"-"})), CS({"1", "12", "123", "0001", "01234", "10000", "12345", "170000002", "99999999999999999999", "00001", "0"})>>,
       <<CS({"Y", "y"}), Maybe(CS({"-"})), Mantissas, CS({"E", "e"}), Exponents>>,
       <<ys, L("S"), Counts>>, <<L("Y"), Few, L("S"), Counts>>,
       <<CS({"Y", "y"}), Maybe(CS({"-"})), Mantissas, CS({"E", "e"}), CS({"0", "1", "2", "3", "5"}), L("S"), CS({"0", "1", "2", "3", "4", "5"})>>,
       <<L("Y"), Maybe(CS({"-"})), CS({"1", "12", "123", "01234", "12345", "170000002"}), L("S"), CS({"1", "2", "4", "5", "10"})>> >>
Significants(ys) == << <<ys, L("S"), Counts4>> >>
SomeExponentials(ys) == << <<L("Y"), ys, CS({"E0"})>> >>

\* some of everything: many kinds of strings, a few of each
SomeOfAll ==
    Dates(Few) \o << <<Few, L("-"), CS({"04", "11"}), L("-"), CS({"01", "30", "31"})>> >>
    \o << <<Few, EdgeDays, CS({"T00:00:00", "T23:59:59", "T24:00:00"}), CS({"", "Z", "+05", "-23:59", "-11:30", "+25"})>> >>
    \o << <<PlainSides({YC(P.few[1]), YC(P.few[2])}) \cup FewQualifiedSides \cup CS({"198X", "1XXX", "1990-XX", "1990-02-3X", ".."}), L("/"),
            CS({"", "..", "1990", "-0044-03-15", "2004-06-~11", "200X-12"})>> >>
    \o OpenIntervals(Few)
    \o << <<YearMasks({YC(P.few[1])}) \cup CS({"2000", "X985", "19X5"}), CS({"", "-XX", "-0X", "-1X", "-02", "-11", "-X1", "-00"}), CS({"", "-XX", "-0X", "-2X", "-3X", "-31", "-29", "-10", "-X0"})>> >>
    \o << <<Qs, Positive(Few), Qs>>, <<Qs, L("2004"), Qs, L("-"), Qs, L("02"), Qs>>,
          <<Qs, L("2004"), L("-"), Qs, L("06"), L("-"), Qs, CS({"11", "31"}), Qs>>, <<Few, CS({"-05", "-05-31"}), Qn>> >>
    \o << <<Few, L("-"), Codes>>, <<WordForms, CS({", ", ","}), CS({"1999", "0004", "9999", "199"})>> >>
    \o << <<Open, DD2, SetMembers, DD2, Close>>, <<Open, DD2, FewMembers, CS({",", ".."}), FewMembers, DD2, Close>>,
          <<Open, FewMembers, CS({",", ".."}), FewMembers, CS({",", ".."}), CS({"1668", "-0200-01"}), CS({"]"})>> >>
    \o << <<L("Y"), Few>>, <<L("Y"), Maybe(CS({"-"})), CS({"1", "12", "0001", "12345", "170000002"})>>,
          <<CS({"Y", "y"}), Maybe(CS({"-"})), CS({"0", "1", "12", "999", "9999", "10000"}), CS({"E", "e"}), CS({"0", "1", "2", "3", "5", "10"})>>,
          <<Few, L("S"), CS({"0", "1", "2", "3", "4", "5", "10"})>>, <<L("Y"), Few, L("S"), CS({"1", "2", "5"})>>,
          <<L("Y"), Maybe(CS({"-"})), CS({"1", "12", "19"}), L("E"), CS({"0", "2", "4"}), L("S"), CS({"1", "3", "4", "7"})>> >>

\* all the numbers that a component can be given
Any2 == {Dg(n, 2) : n \in 0..99}
Numerals ==
    << <<CS({"2004", "1900", "-2004", "2003"}), L("-"), Any2>>, <<CS({"2004-02", "1900-02", "-1900-02", "2003-12", "2003-04", "2003-00", "2003-13", "2003-21"}), L("-"), Any2>>,
       <<CS({"2004-02-29T", "1985-04-12T"}), Any2, L(":00:00"), CS({"", "Z", "-05:00"})>>, <<L("1985-12-31T23:"), Any2, L(":59"), CS({"", "Z"})>>,
       <<L("1985-12-31T23:59:"), Any2, CS({"", "Z"})>>, <<CS({"1985-12-31T23:59:00", "-1985-01-01T00:00:30"}), Signs, Any2, CS({"", ":00", ":30"})>>,
       <<CS({"2004-01-01T00:00:00"}), Signs, CS({"00", "05", "23"}), L(":"), Any2>>,
       <<CS({"1950S", "Y1950S", "-1950S", "Y12E2S", "Y1E"}), Any2>>, <<CS({"1950S", "Y-1950S", "Y2E"}), {Dg(n, 1) : n \in 0..9}>>,
       <<CS({"2004-", "../2004-", "[2004-"}), Any2, CS({"", "/..", "/2005-01", "]", "..]"})>>, <<L("19"), Any2, CS({"-XX", "-XX-XX", "X"})>>,
       <<CS({"?2004-", "2004-~"}), Any2>>, <<CS({"2004-?06-", "2004-06-%"}), Any2>> >>

\* words with their letters in any case
Lower == C("springsummerfallwinterautumn")
Upper == C("SPRINGSUMMERFALLWINTERAUTUMN")
Cased(from, to) == [i \in 1..(to - from + 1) |-> {<<Lower[from + i - 1]>>, <<Upper[from + i - 1]>>}]
Rest(ys) == <<(CS({",", ", ", " , "}) \cup {<<"\\u{0009}", ",", "\\u{000a}">>}), ys>>
Spellings(ys) == << Cased(1, 6) \o Rest(ys), Cased(7, 12) \o Rest(ys), Cased(13, 16) \o Rest(ys), Cased(17, 22) \o Rest(ys), Cased(23, 28) \o Rest(ys) >>

\* sets of many members, for random walks
AnyMember == {y \o t : y \in Years, t \in CS({"", "-02", "-12", "-02-28", "-10-31"})} \cup CS({"1985-02-30", "2004-13"})
SetOf(n) == <<Open, Maybe(CS({".."}))>> \o [i \in 1..n |-> IF i % 2 = 1 THEN AnyMember ELSE CS({",", ".."})] \o <<Maybe(CS({".."})), Close>>
Listed(n) == <<Open, Maybe(CS({".."}))>> \o [i \in 1..n |-> IF i % 2 = 1 THEN AnyMember ELSE CS({","})] \o <<Maybe(CS({".."})), Close>>
Ranged(n) == <<Open>> \o [i \in 1..(4 * n - 1) |-> IF i % 2 = 1 THEN AnyMember ELSE IF i % 4 = 2 THEN CS({".."}) ELSE CS({","})] \o <<Close>>
BigSets == << Listed(7), Listed(9), Listed(15), Ranged(2), Ranged(4), SetOf(5), SetOf(7) >>

\* anywhere: every number that a component can be, for random walks (each form ends with nothing,
\* so that TLC prints one text for each walk, and not all the texts that the last slot gives)
D1 == {<<d>> : d \in Digits}
Y4 == <<D1, D1, D1, D1>>
Minus(f) == <<L("-")>> \o f
YM == Y4 \o <<L("-"), MM>>
YMD == YM \o <<L("-"), DD>>
End(fs) == [i \in DOMAIN fs |-> fs[i] \o <<None>>]
\* all of the one with all of the other
Paired(F(_, _), a, b) == [k \in 1..(Len(a) * Len(b)) |-> F(a[((k - 1) \div Len(b)) + 1], b[((k - 1) % Len(b)) + 1])]
Then(a, b) == a \o b
HH == {Dg(n, 2) : n \in 0..23}
M60 == {Dg(n, 2) : n \in 0..59}
RoamDates == <<Y4, YM, YMD, YMD, Minus(Y4), Minus(YM), Minus(YMD)>>
RoamTimes == Paired(Then, <<YMD, YMD, YMD, Minus(YMD)>>,
    <<<<L("T"), HH, L(":"), M60, L(":"), M60, CS({"", "Z"})>>, <<L("T"), HH, L(":"), M60, L(":"), M60, Signs, HH>>,
      <<L("T"), HH, L(":"), M60, L(":"), M60, Signs, HH, L(":"), M60>>>>)
X1 == L("X")
YX == <<<<D1, D1, D1, X1>>, <<D1, D1, X1, X1>>, <<D1, X1, X1, X1>>>>
XX == CS({"XX", "0X", "1X"})
RoamX == YX \o Paired(Then, <<Y4>> \o YX, <<<<L("-"), XX>>, <<L("-"), XX, L("-"), DayMasks>>, <<L("-"), MM, L("-"), CS({"XX", "0X", "1X", "2X", "3X"})>>, <<L("-"), XX, L("-"), DD>>>>)
    \o Paired(Then, YX, <<<<L("-"), MM>>, <<L("-"), MM, L("-"), DD>>>>) \o <<Minus(YM) \o <<L("-XX")>>, Minus(Y4) \o <<L("-"), XX>>, <<X1, D1, D1, D1>>, <<D1, X1, D1, D1>>>>
RoamQ == << Y4 \o <<Qn>>, YM \o <<Qn>>, YMD \o <<Qn>>, Minus(YMD) \o <<Qn>>, Y4 \o <<Qs, L("-"), MM, Qs>>, Y4 \o <<Qs, L("-"), MM, Qs, L("-"), DD, Qs>>,
    <<Qs>> \o Y4 \o <<L("-"), Qs, MM>>, <<Qs>> \o Y4 \o <<L("-"), Qs, MM, L("-"), Qs, DD>>, <<Qs>> \o Y4 \o <<Qs, L("-"), Qs, MM, Qs, L("-"), Qs, DD, Qs>> >>
PlainForms == <<Y4, YM, YMD, Minus(Y4), Minus(YMD)>>
SideForms == PlainForms \o << Y4 \o <<Qn>>, YM \o <<Qn>>, <<Qn>> \o YMD, Y4 \o <<L("-"), Qn, MM>>, <<D1, D1, D1, X1>>, <<D1, D1, X1, X1>>, YM \o <<L("-XX")>> >>
Slashed(a, b) == a \o <<L("/")>> \o b
Missing == <<<<CS({"..", ""})>>>>
RoamIntervals == Paired(Slashed, SideForms, SideForms)
RoamOpen == Paired(Slashed, SideForms, Missing) \o Paired(Slashed, Missing, SideForms)
GroupCodes == {Dg(g, 2) : g \in 21..41}
RoamSeasons == << Y4 \o <<L("-"), GroupCodes>>, Y4 \o <<L("-"), GroupCodes>>, Minus(Y4) \o <<L("-"), GroupCodes>>, <<WordForms, CS({",", ", "})>> \o Y4 >>
Comma(a, b) == a \o <<CS({",", ".."})>> \o b
InSet(f) == <<Open, DD2>> \o f \o <<DD2, Close>>
Members3 == Paired(Comma, PlainForms, Paired(Comma, PlainForms, PlainForms))
Members5 == Paired(Comma, PlainForms, Paired(Comma, Paired(Comma, PlainForms, <<Y4>>), Paired(Comma, <<YMD>>, PlainForms)))
RoamSets == [i \in 1..(Len(Members3) + Len(Members5)) |-> InSet(IF i <= Len(Members3) THEN Members3[i] ELSE Members5[i - Len(Members3)])]
Sig == <<L("S"), CS({"1", "2", "3", "4"})>>
RoamYears == << <<L("Y")>> \o Y4, <<L("Y-")>> \o Y4, Y4 \o Sig, Minus(Y4) \o Sig, <<L("Y")>> \o Y4 \o Sig, <<L("Y-")>> \o Y4 \o Sig,
    <<L("Y")>> \o Y4 \o <<L("E0")>>, <<L("Y-")>> \o Y4 \o <<L("E0")>>, <<L("Y"), Maybe(L("-")), D1, D1, D1, L("E"), CS({"0", "1", "2"})>>, <<L("Y"), Maybe(L("-")), D1, D1, L("E"), CS({"0", "1", "2", "3"})>>,
    <<L("Y"), Maybe(L("-")), D1, D1, D1, L("E"), CS({"0", "1"})>> \o Sig, <<L("Y"), Maybe(L("-"))>> \o Y4 \o <<D1>>, <<L("Y"), Maybe(L("-")), D1, D1, D1, D1, D1, D1, L("S"), D1>>, Y4 \o <<L("E0")>> \o Sig, <<L("Y")>> \o Y4 \o <<L("E0")>> \o Sig >>
Roam(what) ==
    CASE what = "dates" -> RoamDates [] what = "times" -> RoamTimes [] what = "x" -> RoamX [] what = "q" -> RoamQ [] what = "intervals" -> RoamIntervals
      [] what = "open" -> RoamOpen [] what = "seasons" -> RoamSeasons [] what = "sets" -> RoamSets [] what = "years" -> RoamYears

\* neighbours: dates that touch, overlap, contain each other, or are the same, some years long and some a second
Clustered(ys) ==
    << <<ys, CS({"", "-01", "-12", "-01-01", "-12-31", "-12-30", "-01-02", "-12-31T23:59:59Z", "-12-31T23:59:58Z", "-01-01T00:00:00Z", "-01-01T00:00:01Z",
                 "-12-31T23:59:59-01:00", "-24", "-41", "S2", "?", "-01/..", "/..", "/", "-XX"})>>,
       <<CS({"../", "/", "Y", "["}), ys>>, <<ys, L("/"), ys>>, <<L("["), ys, CS({",", ".."}), ys, CS({"]", "..]"})>>, <<CS({"..", "", "nonsense", "1985-13", "XXXX", "../.."})>> >>

\* what the calendar helpers are given
YearTexts == {<<>>} \cup Written4(Elements(P.few)) \cup CS({"0", "4", "85", "985", "9999", "10000", "-9999", "-10000", "-0", "+1985", "0000", "00004", "-4", "--4", "19x5", "99999999999999999999", "1985 "})
MonthTexts == {Dg(n, 2) : n \in 0..13} \cup CS({"", "1", "2", "012", "-1", "+2", "99", "0", "000", "x", " 2", "4294967297", "18446744073709551617"})
DayTexts == CS({"", "00", "01", "1", "28", "29", "30", "31", "32", "99", "-1", "+3", "031", "0", "x", "1 ", "4294967297"})
YMDTexts == << <<YearTexts>>, <<YearTexts, L("-"), MonthTexts>>, <<YearTexts, L("-"), MonthTexts, L("-"), DayTexts>>,
               <<CS({"1985-04-12-", "1985-04-12-01", "1985--12", "1985-", "-", "--", "---", "1985/04/12", "1985-04-12T00:00:00"})>> >>
Parts == << <<YearTexts, L("|"), MonthTexts, L("|"), DayTexts>>, <<Years, L("|"), MM, L("|"), {Dg(n, 2) : n \in 0..32}>> >>
MonthsAsText == << <<Maybe(L("-")), YearTexts, L("-"), MonthTexts>>, <<Years, L("-"), Any2>>,
                   <<CS({"", "-", "--", "1985", "198504", "1985-04-12", "-1985-04-12", "1985-04-", "-1985-04-", "1985--04", "a-b", "-a-b"})>> >>
TimeTexts == {Dg(h, 2) \o <<":">> \o Dg(m, 2) \o <<":">> \o Dg(s, 2) : h \in {0, 1, 9, 12, 23, 24, 99}, m \in {0, 30, 59, 60}, s \in {0, 1, 59, 60, 61}}
    \cup CS({"", "0:00:00", "00:00", "00:00:00Z", "00:00:00.5", " 00:00:00", "aa:bb:cc", "-1:00:00", "000:00:00", "12:34:56"})
ClockTexts == << <<Few, L("|"), CS({"1", "2", "12"}), L("|"), CS({"1", "28", "29", "31"}), L("|"), TimeTexts>>,
                 <<Years, L("|"), CS({"1", "2", "6", "12", "0", "13"}), L("|"), CS({"0", "1", "28", "29", "30", "31", "32"}), L("|"), CS({"00:00:00", "23:59:59", "24:00:00"})>>,
                 <<CS({"10000", "-10000", "99999"}), L("|1|1|00:00:00")>> >>

\* timestamps in JSON, with ' for the quote
JSONTexts ==
    << <<CS({"", "-", "+", "--"}), CS({"0", "1", "00", "007", "1985", "2147483647", "2147483648", "4294967296", "253402300799", "377705116800", "999999999999999999",
           "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999", ""}), CS({"", ".0", ".5", "e3", "E0", "x", " 1", "_0"})>>,
       <<CS({"'", ""}), CS({"", "-", "+", " "}), CS({"0", "1985", "abc", "1.5", "1e3", "true", "null", "-", "x1", "1985-04-12", "1985-04-12T00:00:00Z"}), CS({"'", ""})>>,
       <<CS({"true", "false", "{}", "[]", "[1]", "null", "{'timestamp':1}", "NaN", "Infinity", "0x10", "1_000"})>> >>

\* one of each kind, to be corrupted
Bases == CS({"1985", "-1985", "1985-04", "-1985-04", "1985-04-12", "-0044-03-15", "2000-02-29", "1985-04-12T23:20:30", "1985-04-12T23:20:30Z",
    "-1985-04-12T23:20:30+04", "1985-04-12T23:20:30-04:30", "1964/2008", "2004-06/2006-08", "-0100-02-01/2005", "2004-02-01/2005-02-08",
    "Y1985", "Y-0044", "Y170000002", "1985-21", "-1985-24", "Spring, 2019", "winter,1980", "fall , 1999", "1984?", "2004-06~", "-2004-06-11%",
    "198X", "19XX", "2004-XX", "1985-04-XX", "1985-XX-XX", "../1985", "/1985-04-12", "1985-04/..", "-1985/", "..", "",
    "Y17E2", "Y-1E3", "y9e2", "1950S2", "-1950S2", "Y1950S2", "Y19E2S1", "2001-34", "1999-41", "[1667,1668,1670..1672]", "[..1760-12-03]", "{1960,1961-12}",
    "{1760-12..}", "[-0004..0003]", "2004-06~-11", "2004?", "2004?-06-11", "2004-06-11%", "?2004-06-~11", "2004-%06", "~2004", "156X-12-25", "15XX-12-XX", "1XXX-XX",
    "XXXX-12-XX", "1985-XX-04", "2004-06-~01/2004-06-~20", "?1984/~2004-06", "198X/1990-0X", "-198X/..", "1985-0X", "2001-1X-1X"})
Edited == << <<Bases>> >>

Alphabet == Elements(P.alphabet)
Short(n) == [k \in 1..(n + 1) |-> [i \in 1..(k - 1) |-> {<<a>> : a \in Alphabet}]]

Forms ==
    CASE P.job = "dates" -> Dates(AllYears(0)) \o MonthEnds(CycleYears) \o Days(Few \cup OddYears)
      [] P.job = "alldates" -> << <<AllYears(0), L("-"), MM>>, <<AllYears(0), CS({"-01-31", "-04-30", "-04-31", "-12-31", "-11-30"})>> >>
      [] P.job = "datetimes" -> DateTimes(Years)
      [] P.job = "intervals" -> Intervals
      [] P.job = "wideintervals" -> WideIntervals
      [] P.job = "kinintervals" -> KinIntervals
      [] P.job = "openintervals" -> OpenIntervals(Years)
      [] P.job = "unspecified" -> Unspecified(Written4(Elements(P.few))) \o LeapUnspecified(Years)
      [] P.job = "allunspecified" -> Unspecified(Years) \o LeapUnspecified(CycleYears)
      [] P.job = "qualified" -> Qualified(Positive(Few)) \o << <<Qs, Few \ Positive(Few), Qs, CS({"-04", "-04-12"}), Qs>> >> \o QualifiedX \o QualifiedIntervals
      [] P.job = "seasons" -> Seasons(Years) \o WordSpellings \o Winters(CycleYears)
      [] P.job = "allseasons" -> Seasons(CycleYears) \o Winters(AllYears(0))
      [] P.job = "sets" -> Sets \o Orders
      [] P.job = "allsets" -> SetsOfYears
      [] P.job = "years" -> LetterYears(Years) \o Significants(CycleYears) \o << <<L("Y"), CycleYears>> >>
      [] P.job = "allyears" -> Significants(AllYears(0)) \o << <<L("Y"), AllYears(0)>> >>
      [] P.job = "everything" -> SomeOfAll
      [] P.job = "edited" -> Edited
      [] P.job = "numerals" -> Numerals
      [] P.job = "clustered" -> Clustered(Few)
      [] P.job = "ymdtexts" -> YMDTexts
      [] P.job = "parts" -> Parts
      [] P.job = "monthtexts" -> MonthsAsText
      [] P.job = "clocktexts" -> ClockTexts
      [] P.job = "spellings" -> Spellings(Positive(Few))
      [] P.job = "longs" -> Longs
      [] P.job = "jsontexts" -> JSONTexts
      [] P.job = "bigsets" -> BigSets
      [] P.job = "roam" -> End(Roam(P.what))
      [] P.job = "short" -> Short(P.length)

---------------------------------------------------------------------------
(* The machine *)

VARIABLES form,    \* which form is being written, 0 when it is complete
          slot,    \* how much of it has been written
          text,    \* what has been written
          edits    \* how many edits have been made
vars == <<form, slot, text, edits>>

Complete == form = 0

Start == /\ form \in DOMAIN Forms /\ slot = 0 /\ text = <<>> /\ edits = 0
         /\ Len(Forms[form]) > 0
\* a form without slots is the empty text
StartEmpty == /\ \E f \in DOMAIN Forms : Len(Forms[f]) = 0
              /\ form = 0 /\ slot = 0 /\ text = <<>> /\ edits = 0

Write == /\ ~Complete
         /\ \E x \in Forms[form][slot + 1] : text' = text \o x
         /\ IF slot + 1 = Len(Forms[form]) THEN form' = 0 /\ slot' = 0 ELSE form' = form /\ slot' = slot + 1
         /\ UNCHANGED edits

MayEdit == Complete /\ edits < P.edits
Edit(t) == text' = t /\ t # text /\ edits' = edits + 1 /\ UNCHANGED <<form, slot>>
Delete == /\ MayEdit
          /\ \E i \in DOMAIN text : Edit(Part(text, 1, i - 1) \o Part(text, i + 1, Len(text)))
Insert == /\ MayEdit
          /\ \E i \in 0..Len(text), a \in Alphabet : Edit(Part(text, 1, i) \o <<a>> \o Part(text, i + 1, Len(text)))
Replace == /\ MayEdit
           /\ \E i \in DOMAIN text, a \in Alphabet : Edit([text EXCEPT ![i] = a])
Swap == /\ MayEdit
        /\ \E i \in 1..(Len(text) - 1) : Edit([text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]])
Double == /\ MayEdit /\ text # <<>> /\ Edit(text \o text)

Init == Start \/ StartEmpty
Next == Write \/ Delete \/ Insert \/ Replace \/ Swap \/ Double
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The design: what Grammar and Meaning say about a text is consistent *)

Stripped(c) == SelectSeq(c, LAMBDA x : x \notin Qualifiers)
DesignOf(c) ==
    LET f == Feature(c)
        w == Outcome(c)
    IN /\ (f # "") = (\E i \in 1..18 : Derives(Features[i], c))
       /\ f # "" => LevelOf[f] = (IF Feature0(c) # "" THEN 0 ELSE IF Feature1(c) # "" THEN 1 ELSE 2)
       /\ ~(f # "" /\ IsKeyword(c))
       /\ w.ok => IsValidText(c)
       /\ ~w.ok => w.err # {} /\ w.err \subseteq AnyKind
       /\ ~IsValidText(c) => w.err = {"Unrecognized"}
       /\ w.ok =>
            /\ WellOrdered(w, HasSlash(c)) = ""
            \* a bound has a time and a day, or is open, or is unknown; only date-times have no days
            /\ \A n \in CornerNames :
                 LET x == w[n] IN
                 /\ (x.t # <<>>) = Written(x)
                 /\ x.d # <<>> => x.t # <<>> /\ x.d = Civil(x.t[1]) /\ DayOf(x.d) = x.t[1]
                 /\ x.t # <<>> /\ x.d = <<>> => f = "Date and Time"
                 /\ ~Written(x) => x.d = <<>> /\ x.u = 0 /\ x.a = 0 /\ x.p = 0 /\ x.i = 0
            \* qualifiers do not move dates
            /\ Stripped(c) # c => LET q == Outcome(Stripped(c)) IN
                 q.ok /\ \A n \in CornerNames : q[n].t = w[n].t /\ q[n].p = w[n].p /\ q[n].o = w[n].o /\ q[n].k = w[n].k
            \* both bounds of a side have the same marks and the same precision
            /\ f \notin {"Set representation"} =>
                 \A s \in {<<"SL", "SU">>, <<"EL", "EU">>} : w[s[1]].u = w[s[2]].u /\ w[s[1]].a = w[s[2]].a /\ w[s[1]].p = w[s[2]].p
            \* a date before another is not after it
            /\ Written(w.SL) /\ Written(w.EU) /\ ~HasSlash(c) => NotLater(w.SL.t, w.EU.t)

Design == Complete /\ P.design => DesignOf(text)
Emitted == Complete => PrintT("TEXT " \o Join(text))
=============================================================================
