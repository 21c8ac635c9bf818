------------------------------ MODULE LinInterp ------------------------------
(* Piecewise-linear interpolation of a strictly monotonic table. *)
EXTENDS Num

Increasing(xp) == \A j \in 1..(Len(xp)-1) : NLt(xp[j], xp[j+1])
Decreasing(xp) == \A j \in 1..(Len(xp)-1) : NLt(xp[j+1], xp[j])

Line(x, xp, fp, j) == \* through nodes j and j+1
  NAdd(fp[j], NDiv(NMul(NSub(fp[j+1], fp[j]), NSub(x, xp[j])), NSub(xp[j+1], xp[j])))

(* the definition: the segment that contains x; end segments continue outside *)
Interpolant(x, xp, fp) ==
  LET n == Len(xp)
      up == NLt(xp[1], xp[2])
      le(a, b) == IF up THEN NLe(a, b) ELSE NLe(b, a)
      j == IF le(x, xp[2]) THEN 1 ELSE IF le(xp[n-1], x) THEN n-1
           ELSE CHOOSE q \in 2..(n-2) : le(xp[q], x) /\ le(x, xp[q+1])
  IN Line(x, xp, fp, j)

(* the algorithm of the implementation (nearest node, then one side of it),
   modelled to show why it computes Interpolant *)
Nearest(x, xp) == CHOOSE j \in 1..Len(xp) :
                     /\ \A q \in 1..Len(xp) : NLe(NAbs(NSub(x, xp[j])), NAbs(NSub(x, xp[q])))
                     /\ \A q \in 1..(j-1) : NLt(NAbs(NSub(x, xp[j])), NAbs(NSub(x, xp[q])))
ClipI(j, lo, hi) == IF j < lo THEN lo ELSE IF j > hi THEN hi ELSE j
Algorithm(x, xp, fp, sidefix) ==
  LET j == ClipI(Nearest(x, xp), 2, Len(xp) - 1)
      d == NSub(x, xp[j])
      right == IF sidefix THEN NSgn(d) * NSgn(NSub(xp[j+1], xp[j])) >= 0 ELSE NSgn(d) >= 0
  IN IF right THEN Line(x, xp, fp, j) ELSE Line(x, xp, fp, j-1)
=============================================================================
