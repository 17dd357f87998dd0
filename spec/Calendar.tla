------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar with a year 0, in closed form.         *)
(* Clock.tla walks it day by day and checks the closed form against the    *)
(* walk, so the two definitions guard each other.                          *)
(*                                                                         *)
(* An instant is <<day, second>>: days since 1970-01-01 (which may be      *)
(* negative) and the second of that day, 0..86399.  TLC's integers have 32 *)
(* bits, seconds since the epoch do not.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Chars

IsLeap(y) == (y % 4 = 0) /\ ((y % 100 # 0) \/ (y % 400 = 0))

MonthLength == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLength[m]

\* Days from 1970-01-01 to the given date (years start in March here, so that the
\* leap day is the last day of a year).
DayNumber(y, m, d) ==
    LET yy  == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp  == IF m > 2 THEN m - 3 ELSE m + 9
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
    IN era * 146097 + doe - 719468

\* The inverse: <<year, month, day>> of a day number.
Civil(n) ==
    LET z   == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
        y   == yoe + era * 400
        doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
        mp  == (5 * doy + 2) \div 153
        d   == doy - ((153 * mp + 2) \div 5) + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<IF m <= 2 THEN y + 1 ELSE y, m, d>>

DayOf(ymd) == DayNumber(ymd[1], ymd[2], ymd[3])

IsRealDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

\* Instants
FirstSecond(ymd) == <<DayOf(ymd), 0>>
LastSecond(ymd) == <<DayOf(ymd), 86399>>
Earlier(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2])
NotLater(s, t) == s = t \/ Earlier(s, t)
\* the instant n seconds after t (|n| small)
Plus(t, n) == LET s == t[2] + n IN <<t[1] + (s \div 86400), s % 86400>>

\* RFC 3339, in UTC
DateText(ymd) == YearText(ymd[1]) \o "-" \o Pad2(ymd[2]) \o "-" \o Pad2(ymd[3])
ClockText(s) == Pad2(s \div 3600) \o ":" \o Pad2((s \div 60) % 60) \o ":" \o Pad2(s % 60)
InstantText(t) == DateText(Civil(t[1])) \o "T" \o ClockText(t[2]) \o "Z"
=============================================================================
