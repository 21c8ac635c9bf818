------------------------------ MODULE CheckC12 ------------------------------
(* Observed calls of simps / romb against Quad. One event holds the results
   of a (possibly vector-valued) integral: component j has its own
   coefficients and bounds. *)
EXTENDS Quad, Conform
tol == Dec(1, -11)
Close(x, y, sc) == NClose(x, y, Zero, NAdd(NMul(tol, sc), Dec(1,-30)))
Comp(e) == 1..Len(e.c)
SimpsV(e) ==
  Clause("shape of the result", e.shape = e.wantshape) \cup
  (IF Len(e.res) # Len(e.c) THEN {"one value per component"} ELSE
   Clause("composite Simpson sum", \A j \in Comp(e) :
      Close(e.res[j], Simpson(e.kind, e.c[j], e.a[j], e.b[j], e.N), QScale(e.kind, e.c[j], e.a[j], e.b[j], e.N)))
   \cup
   Clause("exact for cubics", e.kind = "poly" => \A j \in Comp(e) : Len(e.c[j]) <= 4 =>
      Close(e.res[j], PolyInt(e.c[j], e.a[j], e.b[j]), QScale(e.kind, e.c[j], e.a[j], e.b[j], e.N)))
   \cup
   Clause("swapping the bounds flips the sign", \A j \in Comp(e) :
      Close(e.swapped[j], NNeg(e.res[j]), QScale(e.kind, e.c[j], e.a[j], e.b[j], e.N)))
   \cup
   Clause("linear in the integrand", \A j \in Comp(e) :   \* combined = s*f + t*1
      Close(e.combined[j], NAdd(NMul(e.s, e.res[j]), NMul(e.t, NSub(e.b[j], e.a[j]))),
            NAdd(QScale(e.kind, e.c[j], e.a[j], e.b[j], e.N), NMul(NAbs(e.t), NAbs(NSub(e.b[j], e.a[j])))))))
RombV(e) ==
  LET sc == QScale(e.kind, e.c, e.a, e.b, 8)
      row == TLCEval(RombRow(e.kind, e.c, e.a, e.b, e.m))
      prev == TLCEval(RombRow(e.kind, e.c, e.a, e.b, e.m - 1))
  IN Clause("shape of the result", e.shape = <<>>) \cup
     Clause("Romberg extrapolation of depth m", Close(e.res, row[e.m + 1], sc)) \cup
     Clause("exact for polynomials up to degree 2m+1", e.kind = "poly" /\ Len(e.c) <= 2*e.m + 2 =>
        Close(e.res, PolyInt(e.c, e.a, e.b), sc)) \cup
     Clause("swapping the bounds flips the sign", Close(e.swapped, NNeg(e.res), sc)) \cup
     Clause("extra arguments are passed on", Close(e.withargs, e.res, sc)) \cup
     Clause("same value with return_error", Close(e.res2, e.res, sc)) \cup
     Clause("error estimate", Close(e.err, NAbs(NSub(row[e.m + 1], prev[e.m])), sc))
V(e) == CASE e.op = "simps" -> SimpsV(e) [] e.op = "romb" -> RombV(e)
=============================================================================
