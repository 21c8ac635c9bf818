------------------------------- MODULE Pytree -------------------------------
(* Parameter objects as pytrees (property C02).

   An object is built from named traced parameters and a static
   configuration. Flattening lists its leaves; rebuilding makes an object of
   leaves and configuration. Every step below flattens and rebuilds - plainly
   (rebuild, map), at the boundaries of a transformation (jit, vmap, grad,
   scan, cond), or with other leaves (set one, transplant all).

   What must hold: after any history the object is the one the constructor
   gives for the current parameter values and the original configuration.

   The implementation is abstracted by its layout:
     Order   the parameter stored at each leaf position
     Assign  the parameter each position is given to when rebuilding
     Flag    how the presence of the optional parameter is known when
             rebuilding: "kept" in the configuration, or "recomputed" from the
             truth of its value
     Raw     rebuilding accepts any leaves (batched ones, placeholders) *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Params,      \* sequence of parameter names, the last one optional
          Order, Assign, Flag, Raw, MaxSteps, Emit

Steps == {"rebuild", "map", "jit", "vmap", "grad", "scan", "cond", "set", "transplant"}
N == Len(Params)
VARIABLES obj, want, batched, hist
vars == <<obj, want, batched, hist>>

Val == 0..2      \* 0 is a legitimate value of every parameter
Make(f) == [p |-> f, flag |-> TRUE, ok |-> TRUE]
Init == \E f \in [1..N -> Val] : obj = Make(f) /\ want = f /\ batched = FALSE /\ hist = <<>>

Leaves(o) == [i \in 1..N |-> o.p[Order[i]]]
(* rebuild from leaves l with the configuration of o; batch: leaves are batched *)
Build(o, l, batch) ==
  LET p == [q \in 1..N |-> LET i == CHOOSE j \in 1..N : Assign[j] = q IN l[i]]
  IN [p |-> p,
      flag |-> IF Flag = "kept" THEN o.flag ELSE o.flag /\ p[N] # 0,
      ok |-> o.ok /\ (Raw \/ ~batch)]
Step(s) ==
  /\ Len(hist) < MaxSteps
  /\ hist' = Append(hist, s)
  /\ batched' = FALSE
  /\ CASE s = "set" -> \E i \in 1..N, v \in Val :
            LET k == CHOOSE j \in 1..N : Order[j] = i
            IN obj' = Build(obj, [Leaves(obj) EXCEPT ![k] = v], FALSE) /\ want' = [want EXCEPT ![i] = v]
       [] s = "transplant" -> \E f \in [1..N -> Val] :
            obj' = Build(obj, Leaves(Make(f)), FALSE) /\ want' = f
       [] s = "vmap" -> obj' = Build(Build(obj, Leaves(obj), TRUE), Leaves(Build(obj, Leaves(obj), TRUE)), FALSE) /\ want' = want
       [] OTHER -> obj' = Build(obj, Leaves(obj), FALSE) /\ want' = want
Next == \E s \in Steps : Step(s)
Spec == Init /\ [][Next]_vars

SameParameters == obj.p = want
SameConfig == obj.flag
Rebuildable == obj.ok
(* histories, one per sequence of steps (values are chosen by the harness) *)
View == <<hist>>
EmitHist == (Emit /\ Len(hist) >= 1) => PrintT(ToJson(hist))
=============================================================================
