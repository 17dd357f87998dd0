------------------------------- MODULE Flags -------------------------------
(***************************************************************************)
(* A precision is a set of flags.  The machine starts with some flags and  *)
(* adds, clears and toggles flags, one or several at a time; what it does  *)
(* is kept, and behaviours of IOEnv.DEPTH operations are printed for the   *)
(* driver to do on the real type.  Laws.C21 compares the values and the    *)
(* answers of the real type with the same machine after every step.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json

Depth == atoi(IOEnv.DEPTH)
Wide == IOEnv.WIDE = "yes"     \* operations on any two flags as well

\* the bits of the flags that there are (NONE has none)
Named == {1, 2, 3, 4, 5, 6, 7, 8, 9}
Single == {{b} : b \in Named}
Several == {{}, {3, 5, 6}, {1, 9}, {2, 3, 4, 5, 6, 7, 8, 9}} \cup (IF Wide THEN {{a, b} : a, b \in Named} ELSE {})
FlagSets == Single \cup Several
Starts == IF Wide THEN SUBSET Named ELSE {{}, {6}, {3, 5}, Named}

VARIABLES set,   \* the flags that are set
          done,  \* what has been done
          over
vars == <<set, done, over>>

RECURSIVE ValueOf(_)
ValueOf(s) == IF s = {} THEN 0 ELSE LET b == CHOOSE x \in s : TRUE IN 2 ^ b + ValueOf(s \ {b})
Word(op, f) == op \o ":" \o ToString(ValueOf(f))

Init == \E f \in Starts : set = f /\ done = <<Word("start", f)>> /\ over = FALSE
Add == \E f \in FlagSets : set' = set \cup f /\ done' = Append(done, Word("add", f))
Clear == \E f \in FlagSets : set' = set \ f /\ done' = Append(done, Word("clear", f))
Toggle == \E f \in FlagSets : set' = (set \ f) \cup (f \ set) /\ done' = Append(done, Word("toggle", f))
Stop == Len(done) > Depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<set, done>>
Next == \/ Len(done) <= Depth /\ (Add \/ Clear \/ Toggle) /\ UNCHANGED over
        \/ Stop
Spec == Init /\ [][Next]_vars

Flags == set \subseteq Named
\* every flag has its own bit: the value tells the set
Injective == ValueOf(set) < 1024 /\ \A b \in Named : ((ValueOf(set) \div (2 ^ b)) % 2 = 1) = (b \in set)
Printed == over => PrintT("OPS " \o ToJson(done))
=============================================================================
