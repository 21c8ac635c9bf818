----------------------------- MODULE ProbesModel -----------------------------
(* Design-level checks of Probes.tla *)
EXTENDS Probes
VARIABLES x, q
Init == x \in 1..6 /\ q = "new"
Next == q = "new" /\ q' \in {"rayleigh", "kde", "shift", "ell", "eff", "sr", "bias"} /\ x' = x
Spec == Init /\ [][Next]_<<x, q>>
Sm(a, b) == [kind |-> "smail", p |-> <<NInt(a), NInt(b), Dec(x, -1)>>, zmax |-> NInt(x), n |-> One]
Kd == [kind |-> "kde", zc |-> <<One, Two>>, w |-> <<NInt(x), One>>, bw |-> Dec(1, -1), zmax |-> NInt(4), n |-> One]
Sh(b) == [kind |-> "shift", parent |-> Kd, bias |-> b, zmax |-> NInt(4), n |-> One]
Good ==
  CASE q = "rayleigh" -> \* int z exp(-(z/z0)^2) = z0^2/2;  int z^2 exp(-z/z0) = 2 z0^3
         NClose(PzInt(Sm(1, 2), 256), NDivI(NSq(Dec(x, -1)), 2), Dec(1, -6), Zero)
         /\ NClose(PzInt(Sm(2, 1), 512), NMulI(NPowI(Dec(x, -1), 3), 2), Dec(5, -3), Zero)
    [] q = "kde" -> NClose(PzInt(Kd, 256), One, Dec(1, -9), Zero)
         /\ NClose(NDiv(Pz(Kd, One), Pz(Kd, Two)), NInt(x), Dec(1, -9), Zero)
    [] q = "shift" -> NEq(Pz(Sh(Dec(x, -1)), NAdd(One, Dec(x, -1))), Pz(Kd, One)) /\ NEq(Pz(Sh(Zero), One), Pz(Kd, One))
         /\ NEq(Pz([kind |-> "shift", parent |-> Sh(Dec(x, -2)), bias |-> Dec(x, -2), zmax |-> One, n |-> One], One), Pz(Sh(Dec(2*x, -2)), One))
    [] q = "ell" -> NLt(EllFactor(NPowI(NInt(10), x)), One) /\ NClose(EllFactor(NPowI(NInt(10), x)), One, NPowI(NInt(10), -(2*x-1)), Zero)
         /\ NClose(EllFactor(Two), NDiv(NSqrt(NInt(24)), Dec(625, -2)), Dec(1, -30), Zero)
    [] q = "eff" -> NEq(Efficiency(NInt(x), NInt(x)), Zero) /\ NEq(Efficiency(NInt(x), NInt(2*x)), Dec(5, -1)) /\ NEq(Efficiency(NInt(x), One), Zero)
    [] q = "sr" -> NClose(Arcmin2PerSr, NMul(NDiv(NInt(180), Pi), NMul(NDiv(NInt(180), Pi), NInt(3600))), Dec(1, -30), Zero)
    [] q = "bias" -> NClose(Bias([kind |-> "des", p |-> <<Two, NInt(x), One>>], One, One), Two, Dec(1, -30), Zero)
         /\ NClose(Bias([kind |-> "des", p |-> <<One, Two, Zero>>], NInt(x), One), NInt((x+1)*(x+1)), Dec(1, -20), Zero)
         /\ NEq(Bias([kind |-> "invgrowth", p |-> <<NInt(x)>>], One, Dec(5, -1)), NInt(2*x))
    [] OTHER -> TRUE
=============================================================================
