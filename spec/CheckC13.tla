------------------------------ MODULE CheckC13 ------------------------------
(* A recorded integration (t_1,y_1),...,(t_n,y_n) is explained iff y_1 is the
   initial value and every consecutive pair is an RK4Step of Quad: the trace
   is a behaviour of the step relation. *)
EXTENDS Quad, Conform
tol == Dec(1, -11)
VScale(y) == NAdd(NMaxAbs(y), Dec(1, -20))
StepOK(e, k) == LET w == RK4Step(e.r, e.y[k], e.t[k], e.t[k+1])
                IN SeqClose(e.y[k+1], w, Zero, NMul(tol, NMax(VScale(w), VScale(e.y[k]))))
V(e) ==
  Clause("one state per time", e.shape = e.wantshape /\ Len(e.y) = Len(e.t)) \cup
  (IF Len(e.y) # Len(e.t) \/ e.shape # e.wantshape THEN {} ELSE
   Clause("starts with the initial value", SeqClose(e.y[1], e.y0, Zero, Zero)) \cup
   Clause("each step is one RK4 step", \A k \in 1..(Len(e.t)-1) : StepOK(e, k)) \cup
   Clause("a prefix of the grid gives a prefix of the solution",
          Len(e.prefix) <= Len(e.y) /\ \A k \in 1..Len(e.prefix) : SeqClose(e.prefix[k], e.y[k], Zero, NMul(tol, VScale(e.y[k])))) \cup
   Clause("cubic solutions are exact", e.r.kind = "time" /\ Len(e.r.c) <= 4 =>
          \A k \in 1..Len(e.t) : NClose(e.y[k][1], NAdd(e.y0[1], PolyInt(e.r.c, e.t[1], e.t[k])), Zero,
                                        NMul(tol, NAdd(One, NMul(NMaxAbs([j \in 1..Len(e.t) |-> Poly(e.r.c, e.t[j])]), NMaxAbs(e.t)))))))
=============================================================================
