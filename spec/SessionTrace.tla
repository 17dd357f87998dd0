---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Is what was recorded from the real library a behaviour of Session?      *)
(*                                                                         *)
(* IOEnv.OBS has one line for each operation, in an order that agrees with *)
(* the order in which each client did its own (operations of different     *)
(* clients commute: no answer depends on them).  The first operation that  *)
(* Session does not allow is reported and ends the trace.                  *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.OBS)

VARIABLES l, why
vars == <<known, held, l, why>>

E == Trace[l]
H == <<E.c, E.h>>
G == <<E.c, E.g>>
Questions == {"valid", "match", "unix", "span", "levels"}

Good(a) == a \notin {"panic", "slow"}
Step(e) ==
    CASE e.op = "parse" -> Parse(H, e.s, e.r, e.v)
      [] e.op \in Questions -> Ask(e.op, e.s, e.r)
      [] e.op = "between" -> Ask("between", <<e.s, e.t>>, e.r)
      [] e.op \in {"encode", "bounds", "text"} -> AskOf(e.op, H, e.r)
      [] e.op = "compare" -> Compare(H, G, e.r)
      [] e.op = "change" -> Change(H, e.v)
      [] e.op = "look" -> Look(H, e.v)
      [] e.op = "restart" -> Restart

\* the same conditions as the guards of the actions, to say why
Problem(e) ==
    LET Q(q, r) == ~Consistent(q, r) IN
    IF ~Good(e.r) THEN e.r
    ELSE CASE e.op = "parse" /\ Q(<<"parse", e.s>>, <<e.r, e.v>>) -> "the same string is parsed differently"
      [] e.op \in Questions /\ Q(<<e.op, e.s>>, e.r) -> "the same question (" \o e.op \o ") has another answer"
      [] e.op = "between" /\ Q(<<"between", <<e.s, e.t>>>>, e.r) -> "the same comparison of strings has another answer"
      [] e.op \in {"encode", "bounds", "text"} /\ Q(<<e.op \o " of", held[H].of>>, e.r) -> "the same question (" \o e.op \o ") about the same date has another answer"
      [] e.op = "compare" /\ Q(<<"compare", held[H].of, held[G].of>>, e.r) -> "the same comparison has another answer"
      [] e.op = "look" /\ held[H].is # e.v -> "a date has changed that no one changed"
      [] OTHER -> ""

TraceInit == Fresh /\ l = 1 /\ why = ""
TraceNext ==
    /\ l <= Len(Trace) /\ why = ""
    /\ LET p == Problem(E) IN
       IF p = "" THEN Step(E) /\ why' = "" /\ l' = l + 1
       ELSE why' = p /\ UNCHANGED <<known, held, l>> /\ PrintT("REJECT " \o ToString(l) \o " " \o p)
    /\ l < Len(Trace) \/ PrintT("DONE " \o ToString(l) \o " " \o ToString(IF why' = "" THEN 0 ELSE 1))
Spec == TraceInit /\ [][TraceNext]_vars

\* the whole trace is accepted, or the reason has been printed
Accepted == \/ TLCGet("stats").diameter - 1 = Len(Trace)
            \/ PrintT("STOPPED after " \o ToString(TLCGet("stats").diameter - 1))
View == <<l, why>>
=============================================================================
