------------------------------- MODULE Order -------------------------------
(***************************************************************************)
(* Before, after and between, as an algebra.                               *)
(*                                                                         *)
(* C15 in Laws says what a comparison of two dates answers from their      *)
(* bounds.  Here three dates with any bounds among 0..N (or open, or       *)
(* unknown) are compared with the same operators, and the theorems that a  *)
(* user relies on (strict, opposite, transitive, between) are invariants.  *)
(* AllDates are drawn one after the other, so the states are all the triples. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Laws

CONSTANT N
\* instants at different days and seconds, in order
At3(k) == <<k \div 2, 100 * (k % 2)>>

NoTimes == {-1, -2}   \* open, unknown
Ends == {<<a, b>> \in (0..N) \X (0..N) : a <= b} \cup {<<x, x>> : x \in NoTimes}
Limit(x) == IF x \in NoTimes THEN [t |-> <<>>, o |-> x = -1, k |-> x = -2] ELSE [t |-> At3(x), o |-> FALSE, k |-> FALSE]
DateOf(s, e) == [SL |-> Limit(s[1]), SU |-> Limit(s[2]), EL |-> Limit(e[1]), EU |-> Limit(e[2]),
                 edtf |-> IF s = <<-1, -1>> /\ e = s THEN ".." ELSE ""]
AllDates == {DateOf(s, e) : s \in Ends, e \in Ends}

VARIABLES dates
vars == <<dates>>
Init == dates = <<>>
Draw == Len(dates) < 3 /\ \E d \in AllDates : dates' = Append(dates, d)
Next == Draw
Spec == Init /\ [][Next]_vars

Ok(d) == [ok |-> TRUE, date |-> d]
B(x, y) == Compared(Ok(x), Ok(y), BeforeAnswer)
A(x, y) == Compared(Ok(x), Ok(y), AfterAnswer)
BetweenOf(d, i, c) ==
    LET n == B(d, i)
        f == A(d, c)
    IN IF n = "error" THEN "error" ELSE IF n = "yes" THEN "no"
       ELSE IF IsOpenDate(c) THEN "yes" ELSE IF f = "error" THEN "error" ELSE IF f = "yes" THEN "no" ELSE "yes"

X == dates[1]
YY == dates[2]
Z == dates[3]
Strict == Len(dates) >= 1 => (InOrder(X) => B(X, X) # "yes" /\ A(X, X) # "yes")
Opposite == Len(dates) >= 2 => ((B(X, YY) = "yes") => A(YY, X) = "yes") /\ ((A(X, YY) = "yes") => B(YY, X) = "yes")
NotBoth == Len(dates) >= 2 => (InOrder(X) /\ InOrder(YY) => ~(B(X, YY) = "yes" /\ A(X, YY) = "yes"))
NotEach == Len(dates) >= 2 => (InOrder(X) /\ InOrder(YY) => ~(B(X, YY) = "yes" /\ B(YY, X) = "yes"))
Transitive == Len(dates) = 3 => (InOrder(YY) /\ B(X, YY) = "yes" /\ B(YY, Z) = "yes" => B(X, Z) = "yes")
BetweenRight == Len(dates) = 3 => (BetweenOf(X, YY, Z) = "yes" => B(X, YY) # "yes" /\ (IsOpenDate(Z) \/ A(X, Z) # "yes"))
\* what touches is neither
Touching == Len(dates) >= 2 => (Written(X.EU) /\ Written(YY.SL) /\ X.EU.t = YY.SL.t => B(X, YY) # "yes")
=============================================================================
