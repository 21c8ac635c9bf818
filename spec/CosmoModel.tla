----------------------------- MODULE CosmoModel -----------------------------
(* Design level: on a lattice of cosmologies and scale factors the reference
   semantics satisfies its defining physics (closed forms, limits). *)
EXTENDS Cosmo
VARIABLES c, a
P(om, ok, w, wa, g) == [Omega_c |-> NSub(om, Dec(5,-2)), Omega_b |-> Dec(5,-2), h |-> Dec(7,-1), n_s |-> One, sigma8 |-> One,
                     Omega_k |-> ok, w0 |-> w, wa |-> wa, hasgamma |-> g # 9, gamma |-> NRat(g, 2)]
Init == /\ c \in {P(NRat(om,10), NRat(ok,10), NRat(w,3), NRat(wa,3), g) :
                    om \in {1,3,10}, ok \in {-2,0,2,7}, w \in {-4,-3,-2}, wa \in {-1,0,1}, g \in {0,1,9}}
        /\ a \in {NRat(1,1)}
Next == \E q \in {2, 3, 5, 10} : NLe(NRat(1,10), NDivI(a, q)) /\ a' = NDivI(a, q) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, a>>
eps == Dec(1, -30)
Physical == NSgn(E2(c, a)) > 0
Normalised == NClose(E2(c, One), One, Zero, eps)
Budget == Physical => NClose(NAdd(NAdd(OmMA(c, a), OmDEA(c, a)), OmKA(c, a)), One, Zero, eps)
(* d ln(a^3 rho_m)/dlna = 0 by form; dark energy: d ln rho/dlna = -3(1+w(a)), by a symmetric difference *)
d == Dec(1, -6)
Conservation == LET up == NMul(a, NAdd(One, d))  dn == NMul(a, NSub(One, d))
                    slope == NDiv(NSub(FdeL(c, up, NLn(up)), FdeL(c, dn, NLn(dn))), NSub(NLn(up), NLn(dn)))
                IN NClose(slope, NMulI(NAdd(One, W(c, a)), -3), Zero, Dec(1, -10))
(* dlnH/dlna is the derivative of ln H *)
SlopeOfH == Physical => LET up == NMul(a, NAdd(One, d))  dn == NMul(a, NSub(One, d))
            IN NClose(NDiv(NSub(NLn(E2(c, up)), NLn(E2(c, dn))), NMulI(NSub(NLn(up), NLn(dn)), 2)), DLnH(c, a, NLn(a)), Zero, Dec(1, -9))
(* the friction term of the growth equation in its usual form: 2 + dlnH/dlna = 2 - (Om + (1+3w) Ode)/2 - 1 ... *)
Friction == Physical => NClose(NAdd(Two, DLnH(c, a, NLn(a))),
               NSub(One, NDivI(NAdd(OmMA(c, a), NMul(NAdd(One, NMulI(W(c, a), 3)), OmDEA(c, a))), 2)), Zero, eps)
(* Einstein-de Sitter: chi = 2 RH (1 - sqrt a), D = a *)
EdS == NEq(OmM(c), One) /\ NSgn(c.Omega_k) = 0
EdSDistance == EdS => NClose(Chi(c, a, 64), NMulI(NMul(RH, NSub(One, NSqrt(a))), 2), Dec(1,-7), Dec(1,-7))
EdSGrowth == EdS => Riccati(c, NLn(a), One)[1] = 0 \/ NClose(Riccati(c, NLn(a), One), Zero, Zero, eps)
(* continuity of the curvature branches *)
Flatness == LET cp == [c EXCEPT !.Omega_k = Dec(11, -7)]  cm == [c EXCEPT !.Omega_k = Dec(-11, -7)]  chi == NInt(3000)
                s(cc) == NDiv(NMul(cc.Omega_k, NSq(NDiv(chi, RH))), One)
            IN /\ NClose(Transverse(cp, chi), NMul(chi, NAdd(One, NDivI(s(cp), 6))), Dec(1,-12), Zero)
               /\ NClose(Transverse(cm, chi), NMul(chi, NAdd(One, NDivI(s(cm), 6))), Dec(1,-12), Zero)
DistanceDecreases == Physical /\ NLt(a, One) => NSgn(Chi(c, a, 8)) > 0 /\ NSgn(DChiDa(c, a)) > 0
=============================================================================
