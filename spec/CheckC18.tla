------------------------------ MODULE CheckC18 ------------------------------
(* "nl": pairs (k, a) at one cosmology; P0 the linear spectrum today at
   log-spaced wavenumbers from 1e-4 to 1e4; PL linear and PN non-linear power
   at the pairs. The implementation may show a witness for the non-linear
   wavenumber (kw); it is used only if the variance there is one within the
   resolution of its search grid, otherwise the equation is solved here.
   "wrap": observed results of the wrapper and of the function it wraps. *)
EXTENDS Halofit, Conform
WTol == Dec(3, -3)
V(e) ==
  IF e.op = "wrap" THEN Clause("wrapper returns what the chosen function returns", Len(e.x) = Len(e.y) /\ \A j \in 1..Len(e.x) : IsNum(e.x[j]) /\ NEq(e.x[j], e.y[j])) ELSE
  LET c == e.c
      n == Len(e.P0) - 1
      h == NDivI(NMulI(Ln10, 8), n)
      ks == TLCEval([j \in 1..(n+1) |-> NExp(NAdd(LnMin, NMulI(h, j-1)))])
      g == Weigh(ks, e.P0, h)
      valid(j) == e.kw # <<>> /\ NSgn(e.kw[j]) > 0 /\ NClose(SigG(ks, g, e.D[j], NDiv(One, e.kw[j])), One, WTol, Zero)
      one(j) ==
        LET wit == valid(j)
            inr == NLt(One, SigG(ks, g, e.D[j], Dec(12, -5)))       \* non-linear scale inside the search range
            R == TLCEval(IF wit THEN NDiv(One, e.kw[j]) ELSE RNL(ks, g, e.D[j]))
            nn == TLCEval(Neff(ks, g, e.D[j], R))
            C == TLCEval(Curv(ks, g, e.D[j], R))
            ref == PNL(e.presc, c, e.a[j], e.k[j], e.PL[j], R, nn, C)
        IN IF ~inr THEN {}
           ELSE Clause(e.presc \o (IF wit THEN " formula" ELSE " formula with non-linear scale where the variance is one"),
                  NClose(e.PN[j], ref, IF wit THEN Dec(2, -3) ELSE Dec(1, -2), Zero)) \cup
                Clause("non-linear tends to linear on large scales", NLt(e.k[j], Dec(1, -3)) => NClose(e.PN[j], e.PL[j], Dec(2, -2), Zero))
  IN Clause("one value per pair", Len(e.PN) = Len(e.k)) \cup UNION {one(j) : j \in 1..Len(e.k)}
=============================================================================
