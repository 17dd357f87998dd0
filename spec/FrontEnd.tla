------------------------------ MODULE FrontEnd ------------------------------
(***************************************************************************)
(* A front end: a program that is given arguments, asks the library about  *)
(* one after the other, and shows what the library says.                   *)
(*                                                                         *)
(*   "parse"    shows the JSON of each, stops at the first that does not   *)
(*              parse, with a message that names it                        *)
(*   "matches"  shows a line for each, stops at the first that does not    *)
(*              match, with a message that names it                        *)
(*   "wasi"     shows the JSON or the error message of each, on a line     *)
(*   "js"       is called with one string at a time: a promise that is     *)
(*              fulfilled with the JSON or rejected with the message       *)
(*   "page"     the page of the server, the same for what is typed in      *)
(*                                                                         *)
(* The library is a function from strings to answers, lib: a record        *)
(*   ok, json, err        of parsing                                       *)
(*   match, level, feature  of matching                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Programs == {"parse", "matches", "wasi", "js", "page"}

VARIABLES program, args, lib,
          next,      \* the argument that comes next
          shown,     \* what has been shown, one element for each argument
          ended      \* "" while it runs, "well", or the argument that it failed for
fvars == <<program, args, lib, next, shown, ended>>

MatchLine(s, a) == s \o " level " \o ToString(a.level) \o " (" \o a.feature \o ")"
Running == ended = "" /\ next <= Len(args)
Arg == args[next]
Answer == lib[Arg]

Show(x) == shown' = Append(shown, x) /\ next' = next + 1 /\ UNCHANGED <<program, args, lib, ended>>
Fail == ended' = "failed for " \o Arg /\ UNCHANGED <<program, args, lib, next, shown>>

ParseOne == Running /\ program = "parse" /\ IF Answer.ok THEN Show([kind |-> "json", text |-> Answer.json]) ELSE Fail
MatchOne == Running /\ program = "matches" /\ IF Answer.match THEN Show([kind |-> "line", text |-> MatchLine(Arg, Answer)]) ELSE Fail
TellOne == Running /\ program \in {"wasi", "js", "page"}
           /\ Show(IF Answer.ok THEN [kind |-> "json", text |-> Answer.json] ELSE [kind |-> "error", text |-> Answer.err])
EndWell == ended = "" /\ next > Len(args) /\ ended' = "well" /\ UNCHANGED <<program, args, lib, next, shown>>
FrontEndNext == ParseOne \/ MatchOne \/ TellOne \/ EndWell
=============================================================================
