------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* The calendar, walked day by day.                                        *)
(*                                                                         *)
(* Calendar.tla has the calendar in closed form, and everything else in    *)
(* the specification computes with it.  Here the same calendar is a        *)
(* machine that only knows how long a month is and what comes after its    *)
(* last day; the invariants say that the closed form agrees with it on     *)
(* every day that the machine reaches, from the first day of the year FROM *)
(* to the last day of the year TO.                                         *)
(*                                                                         *)
(* The machine is started at the first of January of every tenth year (so  *)
(* that TLC can walk the decades in parallel) and stops when it gets to    *)
(* the day on which the next one is started, where Connected says that the *)
(* two agree.  The epoch pins the numbers.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Calendar

First == atoi(IOEnv.FROM)
Last == atoi(IOEnv.TO)

VARIABLES date,      \* <<year, month, day>>
          day,       \* days since the epoch
          weekday,   \* 0 is Monday
          until      \* where to stop
vars == <<date, day, weekday, until>>

Starts == {y \in First..Last : (y - First) % 10 = 0}
Init == \E y \in Starts :
    /\ date = <<y, 1, 1>> /\ day = DayNumber(y, 1, 1) /\ weekday = (day + 3) % 7
    /\ until = (IF y + 10 > Last THEN Last + 1 ELSE y + 10)

\* how long a month is, without the closed form of IsLeap
LongYear(y) == IF y % 100 = 0 THEN (y \div 100) % 4 = 0 ELSE y % 4 = 0
Long(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF LongYear(y) THEN 29 ELSE 28) [] OTHER -> 31

NextDay == date[3] < Long(date[1], date[2]) /\ date' = <<date[1], date[2], date[3] + 1>>
NextMonth == date[3] = Long(date[1], date[2]) /\ date[2] < 12 /\ date' = <<date[1], date[2] + 1, 1>>
NextYear == date[3] = Long(date[1], date[2]) /\ date[2] = 12 /\ date' = <<date[1] + 1, 1, 1>>
Next == /\ date[1] < until
        /\ NextDay \/ NextMonth \/ NextYear
        /\ day' = day + 1 /\ weekday' = (weekday + 1) % 7 /\ UNCHANGED until
Spec == Init /\ [][Next]_vars

Agreed == DayOf(date) = day /\ Civil(day) = date
Real == IsRealDate(date[1], date[2], date[3]) /\ ~IsRealDate(date[1], date[2], DaysIn(date[1], date[2]) + 1) /\ ~IsRealDate(date[1], date[2], 0)
Weekdays == weekday = (day + 3) % 7
Lengths == DaysIn(date[1], date[2]) = Long(date[1], date[2])
\* the seconds of a day are between the last second of the day before and the first of the next
Seconds == /\ Earlier(LastSecond(Civil(day - 1)), FirstSecond(date)) /\ Earlier(FirstSecond(date), LastSecond(date))
           /\ Plus(LastSecond(date), 1) = FirstSecond(Civil(day + 1)) /\ Plus(FirstSecond(date), -1) = LastSecond(Civil(day - 1))
           /\ Plus(FirstSecond(date), 86399) = LastSecond(date)
\* years repeat after 400, in number of days too
Cycle == DayNumber(date[1] + 400, date[2], date[3]) = day + 146097
\* a year without its sign has the same calendar
Mirror == DaysIn(date[1], date[2]) = DaysIn(-date[1], date[2])
Connected == date[1] = until => date = <<until, 1, 1>> /\ day = DayNumber(until, 1, 1)

ASSUME DayNumber(1970, 1, 1) = 0 /\ DayNumber(2000, 1, 1) = 10957 /\ DayNumber(1969, 12, 31) = -1
=============================================================================
