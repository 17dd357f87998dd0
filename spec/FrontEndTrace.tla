--------------------------- MODULE FrontEndTrace ---------------------------
(***************************************************************************)
(* Runs of the real front ends.  A line of IOEnv.OBS is a run: the         *)
(* program, its arguments, the library's answers, and what was seen: the   *)
(* elements that were shown, whether it ended well, whether its message    *)
(* named the argument that it failed for (one entry for each argument).    *)
(* FrontEnd is run along; it has to show and end as the program did.       *)
(***************************************************************************)
EXTENDS FrontEnd, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.OBS)

VARIABLES r, why
vars == <<program, args, lib, next, shown, ended, r, why>>

Answers(run) == [s \in {run.args[i] : i \in DOMAIN run.args} |->
                    run.answers[CHOOSE i \in DOMAIN run.args : run.args[i] = s]]
Load(n) == /\ program' = Runs[n].program /\ args' = Runs[n].args /\ lib' = Answers(Runs[n])
           /\ next' = 1 /\ shown' = <<>> /\ ended' = "" /\ r' = n

Init == /\ program = Runs[1].program /\ args = Runs[1].args /\ lib = Answers(Runs[1])
        /\ next = 1 /\ shown = <<>> /\ ended = "" /\ r = 1 /\ why = ""

Matching(x, y) == x.kind = y.kind /\ IF x.kind = "error" THEN y.text = x.text \/ y.quotes ELSE y.text = x.text
\* what was seen, compared with how the machine ended
Problem ==
    LET seen == Runs[r] IN
    IF ended = "well" THEN
        IF ~seen.well THEN "it failed, but should not have"
        ELSE IF Len(seen.shown) # Len(shown) THEN "it showed " \o ToString(Len(seen.shown)) \o " things, not " \o ToString(Len(shown))
        ELSE IF \E i \in DOMAIN shown : ~Matching(shown[i], seen.shown[i])
             THEN "it showed something else for " \o args[CHOOSE i \in DOMAIN shown : ~Matching(shown[i], seen.shown[i])]
        ELSE ""
    ELSE
        IF seen.well THEN "it should have " \o ended
        ELSE IF ~seen.named[next] THEN "its message does not name the string it " \o ended
        ELSE ""

Work == ended = "" /\ FrontEndNext /\ UNCHANGED <<r, why>>
Judge == /\ ended # "" /\ r <= Len(Runs)
         /\ IF Problem = "" THEN TRUE ELSE PrintT("REJECT " \o ToString(r) \o " " \o program \o ": " \o Problem)
         /\ why' = Problem
         /\ IF r < Len(Runs) THEN Load(r + 1)
            ELSE r' = r + 1 /\ UNCHANGED <<program, args, lib, next, shown, ended>> /\ PrintT("DONE " \o ToString(r))
Next == Work \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
