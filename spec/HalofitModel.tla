---------------------------- MODULE HalofitModel ----------------------------
(* Power-law spectra P = A k^n: sigma^2(R) = A Gamma((n+3)/2)/(4 pi^2) R^-(n+3),
   hence at sigma = 1 the effective index is n and the curvature 0; the formula
   tends to the linear spectrum for small k and grows where it is non-linear. *)
EXTENDS Halofit
VARIABLES n2, amp, presc, q      \* n = -n2/2
N == 400
h == NDivI(NMulI(Ln10, 8), N)
Ks == [j \in 1..(N+1) |-> NExp(NAdd(LnMin, NMulI(h, j-1)))]
c == [Omega_c |-> Dec(25, -2), Omega_b |-> Dec(5, -2), h |-> Dec(7, -1), n_s |-> Dec(96, -2), sigma8 |-> Dec(8, -1),
      Omega_k |-> Zero, w0 |-> NNeg(One), wa |-> Zero, hasgamma |-> FALSE, gamma |-> Zero]
Init == n2 \in {2, 3} /\ amp \in {10, 100} /\ presc \in {"smith2003", "takahashi2012"} /\ q = "new"
Next == q = "new" /\ q' \in {"index", "linear", "eds", "unit"} /\ UNCHANGED <<n2, amp, presc>>
Spec == Init /\ [][Next]_<<n2, amp, presc, q>>
Plaw(k) == NMul(NInt(amp), NPow(k, NDivI(NInt(-n2), 2)))
Good ==
  LET ks == TLCEval(Ks)
      g == Weigh(ks, [j \in 1..(N+1) |-> Plaw(ks[j])], h)
      R == TLCEval(RNL(ks, g, One))
      n == TLCEval(Neff(ks, g, One, R))
      C == TLCEval(Curv(ks, g, One, R))
      kl == NDiv(Dec(1, -3), R)
      at(k) == PNL(presc, c, One, k, Plaw(k), R, n, C)
  IN CASE q = "index" -> NClose(n, NDivI(NInt(-n2), 2), Zero, Dec(1, -3)) /\ NClose(C, Zero, Zero, Dec(1, -3))
       [] q = "unit" -> NClose(SigG(ks, g, One, R), One, Dec(1, -5), Zero)
       [] q = "linear" -> NClose(at(kl), Plaw(kl), Dec(1, -2), Zero)
       [] q = "eds" -> NClose(FExp(presc, c, Dec(1, -2))[1], One, Dec(1, -4), Zero)   \* all models are EdS early
       [] OTHER -> TRUE
=============================================================================
