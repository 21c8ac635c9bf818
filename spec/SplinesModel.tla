---------------------------- MODULE SplinesModel ----------------------------
(* Design level: on every integer grid (grown point by point) the defining
   conditions are as many as the unknowns, have a unique solution, and that
   solution reproduces polynomials (up to the order for k<3 or not-a-knot, up
   to degree 1 for natural ends), passes through the data and is smooth. *)
EXTENDS Splines
CONSTANTS MaxX, MaxN
VARIABLES g, k, ends
vars == <<g, k, ends>>
Init == g = <<0>> /\ k \in 1..3 /\ ends \in {"natural", "not-a-knot"} /\ (ends = "natural" => k = 3)
Next == /\ Len(g) < MaxN /\ \E v \in (g[Len(g)]+1)..MaxX : g' = Append(g, v)
        /\ UNCHANGED <<k, ends>>
Spec == Init /\ [][Next]_vars
X == [j \in 1..Len(g) |-> NInt(g[j])]
Y == [j \in 1..Len(g) |-> NInt(((j*j*5) % 7) - 3)]
Enough == Len(g) > k
eps == Dec(1, -25)
Deg == IF ends = "natural" THEN 1 ELSE k
SquareSystem == Enough => Square(k, ends, X)
Interpolates == Enough => LET S == SplineOf(k, ends, X, Y) IN \A j \in 1..Len(g) : NClose(Value(S, X[j]), Y[j], Zero, eps)
Reproduces == Enough => \A d \in 0..Deg :
                LET S == SplineOf(k, ends, X, TLCEval([j \in 1..Len(g) |-> NPowI(X[j], d)]))
                IN \A q \in (-1)..(2*MaxX+2) : LET x == NDivI(NInt(q), 2) IN
                     /\ NClose(Value(S, x), NPowI(x, d), Zero, eps)
                     /\ NClose(Integral(S, Zero, x), NDivI(NPowI(x, d+1), d+1), Zero, eps)
                     /\ NClose(Deriv(S, 1, x), IF d = 0 THEN Zero ELSE NMulI(NPowI(x, d-1), d), Zero, eps)
TooStrong == Enough => \A d \in 0..2 : \* natural ends do not reproduce parabolas (non-vacuity)
                LET S == SplineOf(k, ends, X, TLCEval([j \in 1..Len(g) |-> NPowI(X[j], d)]))
                IN NClose(Value(S, NRat(1,2)), NPowI(NRat(1,2), d), Zero, eps)
=============================================================================
