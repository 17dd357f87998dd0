---------------------------- MODULE SessionWalk ----------------------------
(***************************************************************************)
(* Behaviours of Session with an abstract library, to be acted out: the    *)
(* library's answer to a question is the question.  The operations are     *)
(* kept in done and printed at the end; what Session promises is checked   *)
(* along the way.                                                          *)
(***************************************************************************)
EXTENDS Session, Json, IOUtils

P == JsonDeserialize(IOEnv.PARAMS)
Handles == 1..P.handles
Texts == 1..P.texts
Depth == P.depth

VARIABLES done, over
vars == <<known, held, done, over>>

Op(op, h, g, s, t) == [op |-> op, h |-> h, g |-> g, s |-> s, t |-> t]
Did(o) == Len(done) < Depth /\ done' = Append(done, o) /\ UNCHANGED over

Own(h) == Holds(h) /\ held[h].own
Init == Fresh /\ done = <<>> /\ over = FALSE
DoParse == \E h \in Handles, s \in Texts : Parse(h, s, s, <<"date", s>>) /\ Did(Op("parse", h, 0, s, 0))
DoAsk == \E q \in {"valid", "match", "unix", "span", "levels"}, s \in Texts : Ask(q, s, <<q, s>>) /\ Did(Op(q, 0, 0, s, 0))
DoAskTwo == \E s, t \in Texts : Ask("between", <<s, t>>, <<s, t>>) /\ Did(Op("between", 0, 0, s, t))
DoAskOf == \E q \in {"encode", "bounds", "text"}, h \in Handles : Own(h) /\ AskOf(q, h, held[h].of) /\ Did(Op(q, h, 0, 0, 0))
DoCompare == \E h, g \in Handles : Own(h) /\ Own(g) /\ Compare(h, g, <<held[h].of, held[g].of>>) /\ Did(Op("compare", h, g, 0, 0))
DoChange == \E h \in Handles : Own(h) /\ Change(h, <<"changed", h>>) /\ Did(Op("change", h, 0, 0, 0))
Stop == Len(done) = Depth /\ ~over /\ over' = TRUE /\ UNCHANGED <<known, held, done>>
Next == DoParse \/ DoAsk \/ DoAskTwo \/ DoAskOf \/ DoCompare \/ DoChange \/ Stop
Spec == Init /\ [][Next]_vars

\* a date that its holder has not changed is what parsing its string gives, always
Isolated == \A h \in DOMAIN held : held[h].own => <<"parse", held[h].of>> \in DOMAIN known /\ known[<<"parse", held[h].of>>][2] = held[h].is
\* what is known never changes
Stable == [][\A q \in DOMAIN known : q \in DOMAIN known' /\ known'[q] = known[q]]_vars
\* a step changes one date at most
Alone == [][\E h \in Handles : \A g \in DOMAIN held : g # h => g \in DOMAIN held' /\ held'[g] = held[g]]_vars
Printed == over => PrintT("OPS " \o ToJson(done))
View == <<known, held, Len(done), over>>
=============================================================================
