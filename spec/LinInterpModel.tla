--------------------------- MODULE LinInterpModel ---------------------------
(* Every strictly monotonic integer table over 0..MaxX with 3..MaxN nodes is a
   state (grown node by node); with Emit the tables are printed and the
   harness replays each on the implementation. *)
EXTENDS LinInterp, Json
CONSTANTS MaxX, MaxN, SideFix, Emit
VARIABLES nodes, up, done
vars == <<nodes, up, done>>
Init == nodes = <<>> /\ up \in BOOLEAN /\ done = FALSE
Add == /\ ~done /\ Len(nodes) < MaxN
       /\ \E v \in 0..MaxX : (IF nodes = <<>> THEN TRUE ELSE IF up THEN v > nodes[Len(nodes)] ELSE v < nodes[Len(nodes)])
                             /\ nodes' = Append(nodes, v)
       /\ UNCHANGED <<up, done>>
Finish == /\ ~done /\ Len(nodes) >= 3 /\ done' = TRUE /\ UNCHANGED <<nodes, up>>
          /\ (Emit => PrintT("T " \o ToJson(nodes)))
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
Xp == [j \in 1..Len(nodes) |-> NInt(nodes[j])]
Fp == [j \in 1..Len(nodes) |-> NInt(((j * j * 5 + 3 * j) % 11) - 4)]
Queries == {NDivI(NInt(q), 2) : q \in (-3)..(2*MaxX+3)}
AlgorithmIsInterpolant == done => \A x \in Queries : NClose(Algorithm(x, Xp, Fp, SideFix), Interpolant(x, Xp, Fp), Zero, Dec(1,-35))
HitsNodes == done => \A j \in 1..Len(nodes) : NClose(Interpolant(Xp[j], Xp, Fp), Fp[j], Zero, Dec(1,-35))
=============================================================================
