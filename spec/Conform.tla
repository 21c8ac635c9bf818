------------------------------ MODULE Conform ------------------------------
(* Conformance of recorded observations of the implementation.

   Every line of the trace is one call (or group of related calls) observed
   on the real code, with all numbers exact.  A line is explained by the
   specification iff Violated(line) = {}; otherwise the set names the clauses
   it breaks.  The verdict is total: every line is judged, and printed, so
   the harness can tell "all judged" from "stopped early".  Lines that depend
   on one another carry their history themselves (see CheckC01, CheckC13),
   hence judging is one transition per line and lines are independent. *)
EXTENDS Num, Json, IOUtils

CONSTANT Violated(_)

Events == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES line_, phase, bad
vars == <<line_, phase, bad>>

Init == line_ \in 1..Len(Events) /\ phase = "observed" /\ bad = {}

Judge == /\ phase = "observed"
         /\ phase' = "judged"
         /\ line_' = line_
         /\ bad' = IF Events[line_].exc # "" /\ ~("expect_exc" \in DOMAIN Events[line_])
                   THEN {"raised an exception"}
                   ELSE Violated(Events[line_])
         /\ PrintT("V " \o ToString(line_) \o " " \o ToString(bad'))

Next == Judge
Spec == Init /\ [][Next]_vars
Conforms == bad = {}

Clause(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================
