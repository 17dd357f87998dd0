---------------------------- MODULE FrontEndWalk ----------------------------
(***************************************************************************)
(* Every program with every short list of arguments over a small library   *)
(* that has strings of each sort: one that parses, another, one that is    *)
(* matched but does not parse, one that is neither, and one that parses    *)
(* but is not matched (a keyword).  The lists are printed, for the runner  *)
(* to fill in with real strings of these sorts.                            *)
(***************************************************************************)
EXTENDS FrontEnd, Json, IOUtils

Longest == atoi(IOEnv.LONGEST)
Sorts == {"date", "other", "undated", "wrong", "keyword"}
A(ok, match, s) == [ok |-> ok, json |-> s, err |-> s, match |-> match, level |-> 0, feature |-> s]
Library == [s \in Sorts |-> A(s \in {"date", "other", "keyword"}, s \in {"date", "other", "undated"}, s)]
Lists == UNION {[1..n -> Sorts] : n \in 0..Longest}

Init == program \in Programs /\ args \in Lists /\ lib = Library /\ next = 1 /\ shown = <<>> /\ ended = ""
Spec == Init /\ [][FrontEndNext]_fvars /\ WF_fvars(FrontEndNext)

\* one element is shown for each argument that was taken, in order, and it is the library's answer
InOrder == /\ Len(shown) = next - 1
           /\ \A i \in DOMAIN shown : shown[i].kind = "json" => shown[i].text = lib[args[i]].json /\ lib[args[i]].ok
\* it fails exactly if there is something to fail for, and never if it tells errors
Fails == ended \notin {"", "well"} => program \in {"parse", "matches"} /\ next <= Len(args)
Complete == ended = "well" => next = Len(args) + 1
Ends == <>(ended # "")
Printed == ended # "" => PrintT("RUN " \o ToJson([program |-> program, args |-> args]))
=============================================================================
