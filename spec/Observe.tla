------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* Trace specification for the library as a whole: every line of IOEnv.OBS *)
(* is one observed operation (a string parsed, matched, compared, encoded, *)
(* ...), and each has to be an operation that the laws of the property     *)
(* IOEnv.PROP allow.  There is one action for each kind of operation.      *)
(*                                                                         *)
(* An operation that is not allowed is reported ("REJECT") and counted,    *)
(* and the trace goes on, so that what comes after it is checked as well.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Laws

Trace == ndJsonDeserialize(IOEnv.OBS)
Prop == IOEnv.PROP

VARIABLES l,         \* the operation that comes next
          rejected,  \* how many were not allowed
          borne      \* how many had any bearing on the property
vars == <<l, rejected, borne>>

Judge(o) ==
    LET why == Law(Prop, o) IN
    /\ l' = l + 1
    /\ borne' = borne + (IF Bears(Prop, o) THEN 1 ELSE 0)
    /\ rejected' = rejected + (IF why = "" THEN 0 ELSE 1)
    /\ why = "" \/ PrintT("REJECT " \o ToString(o.n) \o " " \o why)
    /\ l < Len(Trace) \/ PrintT("DONE " \o ToString(l) \o " " \o ToString(rejected') \o " " \o ToString(borne'))

Is(kinds) == l <= Len(Trace) /\ Trace[l].k \in kinds

Parse == Is({"parse", "bounds"}) /\ Judge(Trace[l])
MatchAndValidate == Is({"entry"}) /\ Judge(Trace[l])
TakeApart == Is({"sides", "quals", "set"}) /\ Judge(Trace[l])
Throw == Is({"robust"}) /\ Judge(Trace[l])
Compare == Is({"pair", "triple"}) /\ Judge(Trace[l])
DeriveRange == Is({"unix"}) /\ Judge(Trace[l])
Encode == Is({"json", "tsjson"}) /\ Judge(Trace[l])
AskFeatures == Is({"feat"}) /\ Judge(Trace[l])
MakeError == Is({"error"}) /\ Judge(Trace[l])
SetTime == Is({"settime"}) /\ Judge(Trace[l])
Flag == Is({"flags", "keyword", "constants"}) /\ Judge(Trace[l])
Calculate == Is({"months", "monthtext", "ymdtext", "ymdparts", "clock", "flip", "equal"}) /\ Judge(Trace[l])

Init == l = 1 /\ rejected = 0 /\ borne = 0
Next == Parse \/ MatchAndValidate \/ TakeApart \/ Throw \/ Compare \/ DeriveRange \/ Encode
        \/ AskFeatures \/ MakeError \/ SetTime \/ Flag \/ Calculate
Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
