------------------------------ MODULE CheckC10 ------------------------------
EXTENDS Splines, Conform
V(e) ==
  LET S == TLCEval(SplineOf(e.k, e.ends, e.x, e.y))
      ysc == NMax(NMaxAbs(e.y), NMaxAbs([q \in 1..Len(e.q) |-> Value(S, e.q[q])]))
      hmin == FoldLeft(NMin, S.h[1], S.h)
      tol(r) == NMul(Dec(1, -9), NDiv(ysc, NPowI(hmin, r)))
      span == NAdd(NSub(e.x[Len(e.x)], e.x[1]), NMaxAbs([q \in 1..Len(e.ia) |-> NSub(e.ib[q], e.ia[q])]))
      itol == NMul(NMul(Dec(1, -9), ysc), span)
      isc == NMax(itol, NMul(Dec(1, -10), NMaxAbs([q \in 1..Len(e.ia) |-> Integral(S, e.ia[q], e.ib[q])])))
      n == Len(e.x)
      Out(x) == NLt(x, e.x[1]) \/ NLt(e.x[n], x)
  IN Clause("passes through the data", Len(e.atdata) = n /\ \A j \in 1..n : NClose(e.atdata[j], e.y[j], Zero, tol(0))) \cup
     Clause("value on a piece", Len(e.res) = Len(e.q) /\ \A j \in 1..Len(e.q) : Out(e.q[j]) \/ NClose(e.res[j], Value(S, e.q[j]), Zero, tol(0))) \cup
     Clause("extrapolates with the end pieces", \A j \in 1..Len(e.q) : Out(e.q[j]) => NClose(e.res[j], Value(S, e.q[j]), Zero, tol(0))) \cup
     Clause("derivatives", /\ Len(e.der) = e.k + 1
                           /\ \A r \in 0..e.k : \A j \in 1..Len(e.q) :
                                NClose(e.der[r+1][j], Deriv(S, r, e.q[j]), Zero, tol(r))) \cup
     Clause("derivatives at the data points", \* continuous ones only
        \A r \in 0..(e.k-1) : \A j \in 1..n : NClose(e.derdata[r+1][j], Deriv(S, r, e.x[j]), Zero, tol(r))) \cup
     Clause("end conditions", e.k = 3 /\ e.ends = "natural" =>
        NClose(e.derdata[3][1], Zero, Zero, tol(2)) /\ NClose(e.derdata[3][n], Zero, Zero, tol(2))) \cup
     Clause("definite integrals, either order of the bounds", Len(e.integral) = Len(e.ia) /\
        \A j \in 1..Len(e.ia) : NClose(e.integral[j], Integral(S, e.ia[j], e.ib[j]), Zero, isc)) \cup
     Clause("antiderivative", \A j \in 1..Len(e.ia) :
        NClose(NSub(e.adb[j], e.ada[j]), Integral(S, e.ia[j], e.ib[j]), Zero, isc))
=============================================================================
