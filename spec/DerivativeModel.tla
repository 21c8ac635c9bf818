---- MODULE DerivativeModel ----
(* The formulas on functions whose derivative is known: polynomials (exact to
   their order), exponentials, and a kink, which must not count as resolved. *)
EXTENDS Derivative
VARIABLE c
Polys == {<<a, b, d, e>> : a \in {0, 1, -2}, b \in {0, 3, -1}, d \in {0, 2}, e \in {0, 1, -1}}
Steps == {Dec(1,-2), Dec(1,-3)}
At == {Dec(-7,-1), Zero, Dec(13,-1)}
Init == c \in [p : Polys, h : Steps, x : At]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
X(j) == NAdd(c.x, NMulI(c.h, j - 5))
Pol(p, x) == NAdd(NInt(p[1]), NMul(x, NAdd(NInt(p[2]), NMul(x, NAdd(NInt(p[3]), NMul(NSq(x), NInt(p[4])))))))
DPol(p, x) == NAdd(NInt(p[2]), NMul(x, NAdd(NInt(2*p[3]), NMul(NSq(x), NInt(4*p[4])))))
F == [j \in 1..9 |-> Pol(c.p, X(j))]
E == [j \in 1..9 |-> NExp(X(j))]
(* |x - breakpoint|, breakpoint inside the stencil *)
K == [j \in 1..9 |-> NAbs(NSub(X(j), NAdd(c.x, NMul(c.h, Dec(4,-1)))))]
Tiny == Dec(1,-30)
Exact == /\ NClose(D8(F, c.h), DPol(c.p, c.x), Zero, Tiny)
         /\ NClose(D6(F, c.h), DPol(c.p, c.x), Zero, Tiny)
         /\ NClose(D4w(F, c.h), DPol(c.p, c.x), Zero, Tiny)
         /\ Resolved(F, c.h, One) /\ ~Kinked(F, c.h, One)
ExpOK == NClose(D8(E, c.h), NExp(c.x), Dec(1,-14), Zero) /\ Resolved(E, c.h, One)
         /\ NLe(NAbs(NSub(D8(E, c.h), NExp(c.x))), Tol(E, c.h, One, FALSE))
(* kink at the point itself: one-sided linear *)
K0 == [j \in 1..9 |-> NMax(NSub(X(j), c.x), Zero)]
SidesOK == NClose(Side(F, c.h, 1), DPol(c.p, c.x), Zero, Tiny) /\ NClose(Side(F, c.h, -1), DPol(c.p, c.x), Zero, Tiny)
KinkOK == Kinked(K0, c.h, Dec(1,-2)) /\ ~Resolved(K0, c.h, Dec(1,-2)) /\ ~Resolved(K, c.h, Dec(1,-2))
====
