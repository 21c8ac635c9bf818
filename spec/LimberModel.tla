----------------------------- MODULE LimberModel -----------------------------
(* Design-level: algebra of the Limber sum on a small lattice of kernels, and
   the closed form for P = 1, K = z-independent in a matter-only universe. *)
EXTENDS Limber
VARIABLES k1, k2, s, q
Init == k1 \in [1..3 -> {-1, 0, 2}] /\ k2 \in [1..3 -> {0, 1}] /\ s \in {-2, 3} /\ q = "new"
Next == q = "new" /\ q' \in {"bilinear", "symmetric", "linear", "closed"} /\ UNCHANGED <<k1, k2, s>>
Spec == Init /\ [][Next]_<<k1, k2, s, q>>
c == [Omega_c |-> Dec(95, -2), Omega_b |-> Dec(5, -2), h |-> Dec(7, -1), n_s |-> One, sigma8 |-> One, Omega_k |-> Zero,
      w0 |-> NNeg(One), wa |-> Zero, hasgamma |-> FALSE, gamma |-> Zero]
N(f) == [j \in 1..3 |-> NInt(f[j])]
as == LNodes(One, 2)
ws == LWeights(c, as, [j \in 1..3 |-> NInt(1000)])
ps == <<One, Two, NInt(5)>>
L(x, y) == LimberSum(ws, ps, x, y)
Eps == Dec(1, -30)
EQ(x, y) == NClose(x, y, Eps, Eps)
Good ==
  CASE q = "bilinear" -> EQ(L([j \in 1..3 |-> NAdd(NMulI(N(k1)[j], s), N(k2)[j])], N(k2)), NAdd(NMulI(L(N(k1), N(k2)), s), L(N(k2), N(k2))))
    [] q = "symmetric" -> EQ(L(N(k1), N(k2)), L(N(k2), N(k1))) /\ NSgn(L(N(k1), N(k1))) >= 0
    [] q = "linear" -> EQ(LimberSum(ws, [j \in 1..3 |-> NMulI(ps[j], s)], N(k1), N(k2)), NMulI(L(N(k1), N(k2)), s))
    [] q = "closed" -> \* E^2 = a^-3: dchi/da = RH a^(-1/2); with chi = 1: c^2 sum -> 2 RH (1 - sqrt(1/2)) K1 K2
       LET as2 == LNodes(One, 64)
           w2 == LWeights(c, as2, [j \in 1..65 |-> Zero])
           one == [j \in 1..65 |-> One]
       IN NClose(NMul(LimberSum(w2, one, one, one), NSq(CLight)), NMul(NMulI(RH, 2), NSub(One, NSqrt(Dec(5, -1)))), Dec(1, -8), Zero)
    [] OTHER -> TRUE
=============================================================================
