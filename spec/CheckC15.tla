------------------------------ MODULE CheckC15 ------------------------------
(* Tolerance: a table of n log-spaced nodes read by linear interpolation is off
   by at most delta^2/8 |chi''| a^2 (delta: step in ln a), where
   chi'' a^2 = RH/(a E) |2 + dlnE/dlna|; 1.6 times that is allowed, so finer
   tables are held to proportionally less. *)
EXTENDS Cosmo, Conform
TabErr(c, a, decades, steps) ==
  LET delta == NDivI(NMul(Ln10, NInt(decades)), steps - 1)
      k == NMul(NDiv(RH, NMul(a, NSqrt(E2(c, a)))), NAdd(NAbs(NAdd(Two, DLnH(c, a, NLn(a)))), Dec(1,-2)))
  IN NAdd(NMul(NDivI(NSq(delta), 5), k), Dec(1, -5))
V(e) ==
  LET c == e.c
      n == Len(e.a)
      NI == 160
      ref == TLCEval([j \in 1..n |-> IF NEq(e.a[j], One) THEN Zero ELSE Chi(c, e.a[j], NI)])
      OKd(x, j, dec, steps) == NClose(x, ref[j], Dec(1, -7), TabErr(c, e.a[j], dec, steps))
  IN Clause("one value per scale factor", Len(e.chi) = n /\ Len(e.tr) = n /\ Len(e.da) = n /\ Len(e.dc) = n /\ Len(e.back) = n /\ Len(e.one) = 1) \cup
     Clause("radial distance is the integral of c/(a^2 H)", \A j \in 1..n : OKd(e.chi[j], j, 3, 256)) \cup
     Clause("finer tables converge to the integral", \A j \in 1..n : OKd(e.fine[j], j, 3, 2048)) \cup
     Clause("tables starting later give the same distances", Len(e.sub) = Len(e.suba) /\ \A q \in 1..Len(e.suba) :
        \E j \in 1..n : NEq(e.a[j], e.suba[q]) /\ OKd(e.sub[q], j, 1, 1024)) \cup
     Clause("zero today", \A j \in 1..n : NEq(e.a[j], One) => NClose(e.chi[j], Zero, Zero, Dec(1, -6))) \cup
     Clause("strictly decreasing in a", \A j \in 1..(n-1) : NLt(e.a[j], e.a[j+1]) => NLt(e.chi[j+1], e.chi[j])) \cup
     Clause("a(chi(a)) = a", \A j \in 1..n : NClose(e.back[j], e.a[j], Dec(1, -7), Zero)) \cup
     Clause("derivative of the distance", \A j \in 1..n : NClose(e.dc[j], DChiDa(c, e.a[j]), Dec(1, -10), Zero)) \cup
     Clause("transverse distance is the curvature image", \A j \in 1..n : NClose(e.tr[j], Transverse(c, e.chi[j]), Dec(1, -8), Dec(1, -9))) \cup
     Clause("transverse distance is the curvature image, weakly curved", Len(e.weak) = Len(e.weakok) /\ \A j \in 1..Len(e.weak) :
        NClose(e.weak[j], Transverse([c EXCEPT !.Omega_k = e.weakok[j]], e.weakchi[j]), Dec(1, -9), Zero)) \cup
     Clause("angular diameter distance", \A j \in 1..n : NClose(e.da[j], NMul(e.a[j], e.tr[j]), Dec(1, -10), Dec(1, -10))) \cup
     Clause("same value for one point", NClose(e.one[1], e.chi[5], Dec(1, -10), Dec(1, -9))) \cup
     Clause("continuous across flatness", LET m == 5 IN \* nearok[5] = 0
        \A j \in 1..Len(e.near) : NClose(NSub(e.near[j], e.near[m]), NMul(NDiv(e.nearok[j], Dec(2, -4)), NSub(e.near[Len(e.near)], e.near[m])),
                                  Zero, NMul(e.near[m], Dec(1, -8))))
=============================================================================
