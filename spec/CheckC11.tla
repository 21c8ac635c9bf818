------------------------------ MODULE CheckC11 ------------------------------
EXTENDS LinInterp, Conform
tol == Dec(1, -11)
(* round-off of a*x+b: relative to |f| and to slope * |x| *)
Scale(e, x) == LET n == Len(e.xp)
                   sl == NMaxAbs([j \in 1..(n-1) |-> NDiv(NSub(e.fp[j+1], e.fp[j]), NSub(e.xp[j+1], e.xp[j]))])
               IN NAdd(NMaxAbs(e.fp), NMul(sl, NMax(NAbs(x), NMaxAbs(e.xp))))
V(e) ==
  Clause("one value per query", e.shape = <<Len(e.x)>>) \cup
  (IF e.shape # <<Len(e.x)>> THEN {} ELSE
   LET Inside(q) == LET n == Len(e.xp) IN
          NLe(NMin(e.xp[1], e.xp[n]), e.x[q]) /\ NLe(e.x[q], NMax(e.xp[1], e.xp[n]))
       OK(q) == NClose(e.res[q], Interpolant(e.x[q], e.xp, e.fp), Zero, NMul(e.tol, Scale(e, e.x[q])))
   IN Clause("interpolant inside the table", \A q \in 1..Len(e.x) : Inside(q) => OK(q)) \cup
      Clause("linear continuation outside", \A q \in 1..Len(e.x) : ~Inside(q) => OK(q)))
=============================================================================
