------------------------------ MODULE CheckC16 ------------------------------
(* Growth observed at a = 10^(-3 + 3 j/N), j = N, N-2, ..., 0 (descending in a)
   against the Riccati form of the growth equation (Cosmo!RateODE) or the
   growth-index form, and its integral.
   Tolerance: tables of 128 log-spaced nodes read by linear interpolation, as
   in CheckC15: delta^2/8 times the second derivative, with a margin of 1.6. *)
EXTENDS Cosmo, Conform
N == 256
Delta2 == LET d == NDivI(NMulI(Ln10, 3), 127) IN NDivI(NSq(d), 5)
V(e) ==
  LET c == e.c
      m == (N \div 2) + 1
      f == Rate(c, N)
      lnD == LnDBack(f, N)
      hx == NDivI(NMulI(Ln10, 3), N)
      J(q) == N + 1 - 2*(q-1)
      J2(q) == IF J(q) = 1 THEN 2 ELSE IF J(q) = N+1 THEN N ELSE J(q)     \* centre of difference stencils
      fx(q) == NDiv(NSub(f[J2(q)+1], f[J2(q)-1]), NMulI(hx, 2))
      fxx(q) == NDiv(NAdd(NSub(f[J2(q)+1], NMulI(f[J2(q)], 2)), f[J2(q)-1]), NSq(hx))
      tolf(q) == IF c.hasgamma THEN Dec(1, -9)
                 ELSE NAdd(NMul(Delta2, NAdd(NAdd(NAbs(fx(q)), NAbs(fxx(q))), Dec(5, -2))), Dec(1, -5))
      tolD(q) == NAdd(NMul(Delta2, NAdd(NAdd(NMul(f[J(q)], NAbs(NSub(One, f[J(q)]))), NAbs(fx(q))), Dec(5, -2))), Dec(1, -6))
      D(q) == NExp(lnD[q])
  IN Clause("one value per scale factor", Len(e.D) = m /\ Len(e.f) = m) \cup
     Clause("growth is 1 today", NClose(e.D[1], One, Zero, Dec(1, -9))) \cup
     Clause("growth in (0,1] and increasing with time", \A q \in 1..m : NSgn(e.D[q]) > 0 /\ NLe(e.D[q], NAdd(One, Dec(1,-12)))
             /\ (q < m => NLt(e.D[q+1], e.D[q]))) \cup
     Clause(IF c.hasgamma THEN "rate is Omega_m(a)^gamma" ELSE "rate solves the growth equation",
            \A q \in 1..m : NClose(e.f[q], f[J(q)], Zero, tolf(q))) \cup
     Clause("growth is the integral of the rate", \A q \in 1..m : NClose(e.D[q], D(q), tolD(q), Zero)) \cup
     Clause("same values one at a time", e.single)
=============================================================================
