------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* Clients that use the library over time.                                 *)
(*                                                                         *)
(* A client parses strings, which gives it dates to hold, asks about       *)
(* strings and about the dates it holds, and may change a date it holds.   *)
(* The library has no state of its own: what the specification remembers   *)
(* is only what was answered before,                                       *)
(*   known   the answer that was given to each question, ever, by anyone;  *)
(*   held    the value of each date that someone holds.                    *)
(* An answer has to be the one that is known, if there is one, and nothing *)
(* that happens to one date changes the value of another.                  *)
(*                                                                         *)
(* SessionWalk makes behaviours of this machine with an abstract library,  *)
(* for the driver to act out; SessionTrace checks that what was recorded   *)
(* from the real library is a behaviour of it.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES known, held
svars == <<known, held>>

Nothing == [x \in {} |-> ""]
Fresh == known = Nothing /\ held = Nothing

Consistent(q, r) == q \in DOMAIN known => known[q] = r
Learn(q, r) == known' = IF q \in DOMAIN known THEN known ELSE known @@ (q :> r)
Answered(q, r) == Consistent(q, r) /\ Learn(q, r)
Holds(h) == h \in DOMAIN held

\* a string is parsed: the outcome is r, the date v, which h holds from now on
Parse(h, s, r, v) ==
    /\ Answered(<<"parse", s>>, <<r, v>>)
    /\ held' = [x \in DOMAIN held \cup {h} |-> IF x = h THEN [of |-> s, is |-> v, own |-> TRUE] ELSE held[x]]
\* a question about strings
Ask(q, s, r) == Answered(<<q, s>>, r) /\ UNCHANGED held
\* a question about a date that has not been changed
AskOf(q, h, r) == Holds(h) /\ held[h].own /\ Answered(<<q \o " of", held[h].of>>, r) /\ UNCHANGED held
\* two such dates are compared
Compare(h, g, r) ==
    /\ Holds(h) /\ Holds(g) /\ held[h].own /\ held[g].own
    /\ Answered(<<"compare", held[h].of, held[g].of>>, r) /\ UNCHANGED held
\* a client changes a date to v
Change(h, v) == Holds(h) /\ held' = [held EXCEPT ![h].is = v, ![h].own = FALSE] /\ UNCHANGED known
\* someone looks at a date: it is what it was
Look(h, v) == Holds(h) /\ held[h].is = v /\ UNCHANGED svars
\* another process: no one holds anything, but what is known stays so
Restart == held' = Nothing /\ UNCHANGED known
=============================================================================
