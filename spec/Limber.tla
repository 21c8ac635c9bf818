-------------------------------- MODULE Limber --------------------------------
(* Angular spectra: C_ij(l) = 1/c^2 int_{a(zmax)}^1 K_i K_j P(k, a) (dchi/da) / chi^2 da
   with k = (l + 1/2)/chi; chi is kept away from zero (1 Mpc/h) at a = 1. *)
EXTENDS Cosmo, Tracers
LNodes(zmax, n) == LET a0 == NDiv(One, NAdd(One, zmax))
                       d == NSub(One, a0)
                   IN TLCEval([j \in 1..(n+1) |-> NAdd(a0, NDivI(NMulI(d, j-1), n))])
Chi1(x) == NMax(x, One)
WaveNumber(l, chi) == NDiv(NAdd(l, Dec(5, -1)), Chi1(chi))
SWt(j, n) == IF j = 1 \/ j = n+1 THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2
(* weight of node j in the integral: everything but kernels and power *)
LWeights(c, as, chis) ==
  LET n == Len(as) - 1
      d == NSub(as[n+1], as[1])
  IN TLCEval([j \in 1..(n+1) |-> NDiv(NDivI(NMulI(NMul(d, DChiDa(c, as[j])), SWt(j, n)), 3*n), NMul(NSq(CLight), Chi1(NSq(chis[j]))))])
LimberSum(ws, ps, k1, k2) == FoldLeft(LAMBDA acc, j : NAdd(acc, NMul(NMul(ws[j], ps[j]), NMul(k1[j], k2[j]))), Zero, [j \in 1..Len(ws) |-> j])
=============================================================================
