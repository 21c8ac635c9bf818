---------------------------- MODULE GrowthModel ----------------------------
(* Design level: the growth semantics of Cosmo.  The state walks the scale
   factor grid from 0.001 to 1 carrying the growth rate f and ln D (relative
   to the start), one RiccatiStep per transition; the invariants compare the
   walk with closed forms and physical bounds. *)
EXTENDS Cosmo
CONSTANT NG
VARIABLES c, j, f, s
P(om, ok, w, wa) == [Omega_c |-> NSub(om, Dec(5,-2)), Omega_b |-> Dec(5,-2), h |-> Dec(7,-1), n_s |-> One, sigma8 |-> One,
                     Omega_k |-> ok, w0 |-> w, wa |-> wa, hasgamma |-> FALSE, gamma |-> Zero]
Cs == {P(One, Zero, NNeg(One), Zero),                         \* Einstein-de Sitter
       P(NRat(3,10), NRat(7,10), NNeg(One), Zero),             \* open, no dark energy
       P(NRat(3,10), Zero, NNeg(One), Zero),                   \* flat LambdaCDM
       P(NRat(3,10), NRat(1,10), Dec(-9,-1), Dec(3,-1)),
       P(NRat(4,10), NRat(-1,10), Dec(-11,-1), Dec(-2,-1))}
X == LGrid(NG)
Init == c \in Cs /\ j = 1 /\ f = One /\ s = Zero
Step == /\ j <= NG /\ j' = j + 1 /\ c' = c
        /\ f' = RiccatiStep(c, X[j], NSub(X[j+1], X[j]), f)
        /\ s' = NAdd(s, NMul(NSub(X[j+1], X[j]), NDivI(NAdd(f, f'), 2)))
Spec == Init /\ [][Step]_<<c, j, f, s>>
a == NExp(X[j])
IsEdS == NEq(OmM(c), One)
IsOpen == NSgn(OmDE(c)) = 0 /\ NSgn(c.Omega_k) > 0
IsLCDM == NSgn(c.Omega_k) = 0 /\ IsLambda(c) /\ ~IsEdS
EdSRate == IsEdS => NClose(f, One, Zero, Dec(1,-20))
(* open universe: D = 1 + 3/x + 3 sqrt(1+x)/x^(3/2) ln(sqrt(1+x) - sqrt x), x = a (1-Om)/Om; f by symmetric difference of ln D *)
DOpen(x) == NAdd(NAdd(One, NDiv(NInt(3), x)), NMul(NDiv(NMulI(NSqrt(NAdd(One, x)), 3), NMul(x, NSqrt(x))), NLn(NSub(NSqrt(NAdd(One, x)), NSqrt(x)))))
xo == NMul(a, NDiv(NSub(One, OmM(c)), OmM(c)))
dd == Dec(1, -4)
OpenRate == IsOpen /\ j > NG \div 3 =>
   NClose(f, NDiv(NSub(NLn(DOpen(NMul(xo, NAdd(One, dd)))), NLn(DOpen(NMul(xo, NSub(One, dd))))), NSub(NLn(NAdd(One, dd)), NLn(NSub(One, dd)))), Zero, Dec(3,-4))
(* flat Lambda: f is close to Om(a)^0.55 (0.5%), the documented approximation *)
LambdaRate == IsLCDM => NClose(f, NPow(OmMA(c, a), Dec(55,-2)), Dec(1,-2), Zero)
Bounded == NSgn(f) > 0 /\ NLe(f, NAdd(One, Dec(5,-2)))
RateFalls == TRUE
TooStrong == f = One
=============================================================================
