----------------------------- MODULE GaussModel -----------------------------
(* Design level: on all small integer residuals and a family of positive
   definite integer matrices, the elimination-based log-likelihood satisfies
   the algebraic identities that characterise it. *)
EXTENDS Gauss
CONSTANTS MaxV
VARIABLES n, r, m
Init == n \in 1..3 /\ r = <<>> /\ m \in 0..5
Next == Len(r) < n /\ \E v \in (-MaxV)..MaxV : r' = Append(r, v) /\ UNCHANGED <<n, m>>
Spec == Init /\ [][Next]_<<n, r, m>>
B == [a \in 1..n |-> [b \in 1..n |-> NInt(((a*a*(m+1) + 3*b*m + a*b) % 5) - 2)]]
C == LET M == MatMul(B, Transpose(B)) IN [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN NAdd(M[a][b], NInt(1)) ELSE M[a][b]]]
R == [j \in 1..n |-> NInt(r[j])]
Z == [j \in 1..n |-> Zero]
eps == Dec(1, -25)
Full == Len(r) = n
Ctimes4 == [a \in 1..n |-> [b \in 1..n |-> NMulI(C[a][b], 4)]]
Twice == [j \in 1..n |-> NMulI(R[j], 2)]
Positive == Full => NSgn(LogLike(R, C).quad) >= 0
PeakAtZero == Full => NLe(LogLike(R, C).full, LogLike(Z, C).full)
ScaleInvariant == Full => NClose(LogLike(Twice, Ctimes4).quad, LogLike(R, C).quad, Zero, eps)
DetScales == Full => NClose(NSub(LogLike(R, Ctimes4).logdet, LogLike(R, C).logdet), NMulI(NLn(NInt(4)), n), Zero, eps)
DetIsCofactor == Full => NClose(NExp(LogLike(R, C).logdet), CofDet(C), Dec(1,-25), eps)
WrongSign == Full => NLe(LogLike(R, Ctimes4).logdet, LogLike(R, C).logdet) \* must fail
=============================================================================
