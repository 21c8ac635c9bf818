------------------------------- MODULE Blocks -------------------------------
(* Block-diagonal-sparse matrices: a sparse matrix is s[a][b][d], the d-th
   diagonal element of block (a, b).  Its meaning is the dense matrix *)
EXTENDS Lin
Ny(s) == Len(s)
Nx(s) == Len(s[1])
Nd(s) == Len(s[1][1])
Dense(s) ==
  LET nd == Nd(s)
  IN TLCEval([r \in 1..(Ny(s)*nd) |-> [c \in 1..(Nx(s)*nd) |->
       IF ((r-1) % nd) = ((c-1) % nd) THEN s[((r-1) \div nd) + 1][((c-1) \div nd) + 1][((r-1) % nd) + 1] ELSE Zero]])
(* the d-th "frequency" of s: the small dense matrix that d sees *)
Slice(s, d) == TLCEval([a \in 1..Ny(s) |-> [b \in 1..Nx(s) |-> s[a][b][d]]])
(* the algebra on the compact representation, as the implementation does it;
   BlocksModel shows that each agrees with the dense meaning *)
SDot(s, t) == TLCEval([a \in 1..Ny(s) |-> [b \in 1..Nx(t) |-> [d \in 1..Nd(s) |->
               NSum([k \in 1..Nx(s) |-> NMul(s[a][k][d], t[k][b][d])])]]])
SDotVec(s, v) == LET nd == Nd(s) IN TLCEval([r \in 1..(Ny(s)*nd) |->
               NSum([k \in 1..Nx(s) |-> NMul(s[((r-1) \div nd) + 1][k][((r-1) % nd) + 1], v[(k-1)*nd + ((r-1) % nd) + 1])])])
SLogDetS(s) == FoldLeft(LAMBDA acc, d : LET q == SLogDet(Slice(s, d))
                                       IN [sign |-> acc.sign * q.sign, logdet |-> NAdd(acc.logdet, q.logdet)],
                        [sign |-> 1, logdet |-> Zero], [d \in 1..Nd(s) |-> d])
=============================================================================
