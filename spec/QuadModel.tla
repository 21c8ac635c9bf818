----------------------------- MODULE QuadModel -----------------------------
(* Design-level model of the quadrature and ODE rules: every state is one
   problem (coefficients, bounds, depth) and the invariants are the exactness
   statements of C12 and C13, about the operators of Quad that the
   implementation is then compared with. *)
EXTENDS Quad
CONSTANTS MaxC, MaxDeg
VARIABLES c, ab, n
vars == <<c, ab, n>>
eps == Dec(1, -33)
Bounds == {<<NInt(0), NInt(1)>>, <<NInt(1), NInt(-2)>>, <<NRat(-1,3), NRat(5,2)>>, <<NInt(2), NInt(2)>>}
Init == c = <<>> /\ ab \in Bounds /\ n \in 1..3
Grow == /\ Len(c) <= MaxDeg
        /\ \E v \in (-MaxC)..MaxC : c' = Append(c, NInt(v))
        /\ UNCHANGED <<ab, n>>
Next == Grow
Spec == Init /\ [][Next]_vars
Exact == PolyInt(c, ab[1], ab[2])
SimpsonExactCubic == Len(c) \in 1..4 => NClose(Simpson("poly", c, ab[1], ab[2], 2*n), Exact, Zero, eps)
SimpsonExactQuartic == Len(c) \in 1..5 => NClose(Simpson("poly", c, ab[1], ab[2], 2*n), Exact, Zero, eps)
RombergExact == Len(c) \in 1..(2*n+2) => NClose(Romberg("poly", c, ab[1], ab[2], n), Exact, Zero, eps)
RombergTooGood == Len(c) \in 1..(2*n+3) => NClose(Romberg("poly", c, ab[1], ab[2], n), Exact, Zero, eps)
Romberg1IsSimpson == n = 1 /\ Len(c) > 0 => NClose(Romberg("poly", c, ab[1], ab[2], 1), Simpson("poly", c, ab[1], ab[2], 2), Zero, eps)
SwapSign == Len(c) > 0 => /\ NClose(Simpson("poly", c, ab[1], ab[2], 2*n), NNeg(Simpson("poly", c, ab[2], ab[1], 2*n)), Zero, eps)
                          /\ NClose(Romberg("poly", c, ab[1], ab[2], n), NNeg(Romberg("poly", c, ab[2], ab[1], n)), Zero, eps)
(* y' = p(t): one RK4 step integrates cubic solutions exactly and is Simpson's rule *)
RK4IsSimpson == Len(c) > 0 => NClose(RK4Step([kind |-> "time", c |-> c], <<Zero>>, ab[1], ab[2])[1],
                                     Simpson("poly", c, ab[1], ab[2], 2), Zero, eps)
=============================================================================
