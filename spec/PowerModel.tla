----------------------------- MODULE PowerModel -----------------------------
(* Design-level checks of Power.tla on a lattice of cosmologies. *)
EXTENDS Power
VARIABLES c, q
Cos(oc, ob, h) == [Omega_c |-> Dec(oc, -2), Omega_b |-> Dec(ob, -2), h |-> Dec(h, -2), n_s |-> Dec(96, -2), sigma8 |-> Dec(8, -1),
                   Omega_k |-> Zero, w0 |-> NNeg(One), wa |-> Zero, hasgamma |-> FALSE, gamma |-> Zero]
Init == /\ \E oc \in {20, 25, 35}, ob \in {2, 5}, h \in {60, 75} : c = Cos(oc, ob, h)
        /\ q = "new"
Next == q = "new" /\ q' \in {"large scales", "small scales", "peak", "window", "horizon", "variance"} /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, q>>
p == EHPars(c)
Between(x, lo, hi) == NLt(lo, x) /\ NLt(x, hi)
K(e) == Dec(1, e)
(* T -> 1; T falls like ln k / k^2; both types agree without baryon effects on
   both ends; sound horizon 90..125 Mpc/h; k_eq about 0.01; top-hat W(0)=1 *)
Good ==
  CASE q = "large scales" -> NClose(TOsc(p, K(-7)), One, Dec(1,-4), Zero) /\ NClose(TNoWiggle(p, K(-7)), One, Dec(1,-4), Zero)
    [] q = "small scales" -> \A e \in 1..3 : Between(NDiv(TNoWiggle(p, K(e)), TOsc(p, K(e))), Dec(8,-1), Dec(12,-1))
                              /\ Between(NDiv(TNoWiggle(p, K(e)), TNoWiggle(p, K(e-1))), Dec(1,-2), Dec(3,-2))
    [] q = "peak" -> \A e \in {-4, -3, -2, -1} : Between(TOsc(p, K(e+1)), Zero, TOsc(p, K(e))) /\ NLe(TOsc(p, K(e)), One)
    [] q = "window" -> NClose(TopHat(Dec(1,-6)), One, Dec(1,-12), Zero) /\ NClose(TopHat(Pi), NDiv(NInt(3), NSq(Pi)), Dec(1,-30), Zero)
    [] q = "horizon" -> Between(p.s, NInt(80), NInt(150)) /\ Between(p.keq, Dec(5,-3), Dec(3,-2)) /\ NLt(p.alphac, One) /\ Between(p.betac, Dec(5,-1), Dec(15,-1))
    [] q = "variance" -> NClose(SigmaSq("osc", c, p, NInt(8), LnMin, LnMax, 256), SigmaSq("osc", c, p, NInt(8), LnMin, LnMax, 512), Dec(1,-4), Zero)
    [] OTHER -> TRUE
=============================================================================
