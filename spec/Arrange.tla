------------------------------- MODULE Arrange -------------------------------
(* Arrangements of a computation (property C03): one call evaluates a family of
   (parameter, point) cells at once - several query points in one array or
   mapped with vmap, several parameter sets mapped with vmap, all of it
   possibly compiled - or a run of calls covers the cells one by one.

   The points asked for may be accompanied by others (fill), before or after.
   A cell's value must depend on its parameter and its point only. The
   implementation is abstracted by how a value can be contaminated:
     Coupling   values depend on the other points of the same call
     Sharing    what is computed for the first parameter set of a batch is
                reused for the others
     Static     a compiled call is reused for other parameters *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Points, Pars, Coupling, Sharing, Static, MaxCalls, Emit

Lists == UNION {[1..n -> Points] : n \in 1..3}
ParLists == {<<p>> : p \in Pars} \cup {s \in [1..2 -> Pars] : s[1] # s[2]}
Arrangements == {[pts |-> l, pmode |-> m, pars |-> q, batch |-> b, jit |-> j, fill |-> x] :
                   l \in Lists, m \in {"array", "vmap"}, q \in ParLists, b \in BOOLEAN, j \in {"none", "outer", "inner"},
                   x \in {"none", "few before", "many before", "many after"}}
Valid(c) == Len(c.pars) = 2 => c.batch

VARIABLES calls, results, compiled
vars == <<calls, results, compiled>>
Init == calls = <<>> /\ results = {} /\ compiled = {}

(* value of cell (q, i) of call c: parameter, point and what contaminated it *)
Value(c, q, i) ==
  LET par == IF Sharing /\ c.batch THEN c.pars[1]
             ELSE IF Static /\ c.jit # "none" /\ compiled # {} THEN (CHOOSE z \in compiled : TRUE)
             ELSE c.pars[q]
      ctx == IF Coupling /\ c.pmode = "array" THEN {c.pts[j] : j \in 1..Len(c.pts)} \cup (IF c.fill = "none" THEN {} ELSE {0}) ELSE {c.pts[i]}
  IN [par |-> par, ctx |-> ctx]
Call(c) ==
  /\ Len(calls) < MaxCalls /\ Valid(c)
  /\ calls' = Append(calls, c)
  /\ results' = results \cup {[par |-> c.pars[q], pt |-> c.pts[i], v |-> Value(c, q, i)] : q \in 1..Len(c.pars), i \in 1..Len(c.pts)}
  /\ compiled' = IF c.jit # "none" /\ compiled = {} THEN {c.pars[1]} ELSE compiled
Next == \E c \in Arrangements : Call(c)
Spec == Init /\ [][Next]_vars
View == <<Len(calls), results, compiled>>
Pure == \A r \in results : r.v = [par |-> r.par, ctx |-> {r.pt}]
Functional == \A r, s \in results : (r.par = s.par /\ r.pt = s.pt) => r.v = s.v
EmitCall == (Emit /\ Len(calls) = MaxCalls) => PrintT(ToJson(calls))
=============================================================================
