------------------------------ MODULE Derivative ------------------------------
(* Central differences on nine equally spaced samples F[1..9] = f(x + (j-5) h),
   and when they can be trusted: the eighth- and sixth-order formulas must agree
   with each other and with the fourth-order one on the doubled step, otherwise
   the sampled function is not smooth there (a breakpoint of a table lies
   inside the stencil) and the derivative is left undecided. *)
EXTENDS Num, Sequences
Diff(F, j) == NSub(F[5+j], F[5-j])
D8(F, h) == NDiv(NAdd(NSub(NMulI(Diff(F,1), 672), NMulI(Diff(F,2), 168)), NSub(NMulI(Diff(F,3), 32), NMulI(Diff(F,4), 3))), NMulI(h, 840))
D6(F, h) == NDiv(NAdd(NSub(NMulI(Diff(F,1), 45), NMulI(Diff(F,2), 9)), Diff(F,3)), NMulI(h, 60))
D4w(F, h) == NDiv(NSub(NMulI(Diff(F,2), 8), Diff(F,4)), NMulI(h, 24))
(* one-sided derivatives, from the right (s = 1) and from the left (s = -1):
   they differ where the function has a kink at the point itself, which the
   central formulas cannot see *)
Side(F, h, s) == LET P(j) == F[5 + s*j]
  IN NDiv(NMulI(NAdd(NSub(NMulI(P(1), 48), NMulI(P(2), 36)), NSub(NSub(NMulI(P(3), 16), NMulI(P(4), 3)), NMulI(P(0), 25))), s), NMulI(h, 12))
Gap(F, h) == NAbs(NSub(Side(F, h, 1), Side(F, h, -1)))
(* rounding of the samples *)
NoiseOf(F, h, s) == NDiv(NMul(s, Dec(2,-13)), h)
Resolved(F, h, s) ==
  LET d == D8(F, h)
      t == NAdd(NMul(NAbs(d), Dec(1,-4)), NAdd(NMul(s, Dec(1,-5)), NoiseOf(F, h, s)))
  IN NLe(NAbs(NSub(d, D6(F, h))), t) /\ NLe(NAbs(NSub(d, D4w(F, h))), NMulI(t, 10)) /\ NLe(Gap(F, h), NMulI(t, 100))
(* a corner at the point itself: the two one-sided derivatives are far apart *)
Kinked(F, h, s) == LET d == D8(F, h)
                       t == NAdd(NMul(NAbs(d), Dec(1,-4)), NAdd(NMul(s, Dec(1,-5)), NoiseOf(F, h, s)))
                   IN NLt(NMulI(t, 1000), Gap(F, h))
(* tables: the value goes through the piecewise linear tables of halofit (one
   search per scale factor), whose many small kinks the samples straddle *)
Tol(F, h, s, tables) == LET d == D8(F, h) IN
  NAdd(NAdd(NMul(NAbs(d), Dec(1,-6)), NAdd(NMulI(NAbs(NSub(d, D6(F, h))), 3), Gap(F, h))),
       NAdd(NMul(s, IF tables THEN Dec(1,-3) ELSE Dec(1,-8)), NMulI(NoiseOf(F, h, s), 4)))
===============================================================================
