---------------------------- MODULE BlocksModel ----------------------------
(* The block-sparse algebra agrees with the dense one: every shape up to Max
   x Max blocks of Max diagonal elements, entries from Vals chosen one at a
   time (each state extends the entries).  The last entries of a state are
   determined by a fixed pattern so every state is a full matrix. *)
EXTENDS Blocks
CONSTANTS MaxDim, MaxFree
VARIABLES shp, free
vars == <<shp, free>>
Init == shp \in (1..MaxDim) \X (1..MaxDim) \X (1..MaxDim) \X (1..MaxDim) /\ free = <<>>
Next == Len(free) < MaxFree /\ \E v \in {-1, 0, 2} : free' = Append(free, v) /\ UNCHANGED shp
Spec == Init /\ [][Next]_vars
Entry(k) == IF k <= Len(free) THEN NInt(free[k]) ELSE NInt(((k * k * 3 + k) % 7) - 3)
Mat(a, b, d, off) == TLCEval([i \in 1..a |-> [j \in 1..b |-> [q \in 1..d |-> Entry(off + ((i-1)*b + (j-1))*d + q)]]])
S == Mat(shp[1], shp[2], shp[4], 0)
T == Mat(shp[2], shp[3], shp[4], 3)
Q == Mat(shp[1], shp[1], shp[4], 0)
vec == [r \in 1..(shp[2]*shp[4]) |-> NInt(((r * 5) % 4) - 2)]
ProductAgrees == Dense(SDot(S, T)) = MatMul(Dense(S), Dense(T))
VectorAgrees == SDotVec(S, vec) = MatVec(Dense(S), vec)
eps == Dec(1, -28)
DetAgrees == LET a == SLogDetS(Q)  b == SLogDet(Dense(Q))
             IN a.sign = b.sign /\ (a.sign # 0 => NClose(a.logdet, b.logdet, Zero, eps))
CofAgrees == shp[1]*shp[4] <= 4 => LET a == SLogDetS(Q)  c == CofDet(Dense(Q))
             IN (NSgn(c) = a.sign) /\ (a.sign # 0 => NClose(NLn(NAbs(c)), a.logdet, Zero, eps))
SolveAgrees == LET D == Dense(Q)  b == [r \in 1..Rows(D) |-> NInt(r)]
               IN SLogDetS(Q).sign # 0 => SeqClose(MatVec(D, Solve(D, b)), b, Zero, eps)
=============================================================================
