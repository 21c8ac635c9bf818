-------------------------------- MODULE Lin --------------------------------
(* Dense linear algebra over Nums: matrices are sequences of rows. *)
EXTENDS Num

Rows(M) == Len(M)
Cols(M) == Len(M[1])
Transpose(M) == TLCEval([j \in 1..Cols(M) |-> [r \in 1..Rows(M) |-> M[r][j]]])
Column(M, j) == TLCEval([r \in 1..Rows(M) |-> M[r][j]])
MatMul(A, B) ==
  LET BT == Transpose(B)
  IN TLCEval([r \in 1..Rows(A) |-> [j \in 1..Len(BT) |-> NDot(A[r], BT[j])]])
MatVec(A, v) == TLCEval([r \in 1..Rows(A) |-> NDot(A[r], v)])
VecMat(v, A) == MatVec(Transpose(A), v)
Identity(n) == [r \in 1..n |-> [j \in 1..n |-> IF r = j THEN One ELSE Zero]]
MaxAbs(M) == FoldLeft(LAMBDA m, row : NMax(m, NMaxAbs(row)), Zero, M)
AllNumM(M) == \A r \in 1..Len(M) : AllNum(M[r])
MatClose(A, B, tolabs) ==
  /\ Len(A) = Len(B)
  /\ \A r \in 1..Len(A) : Len(A[r]) = Len(B[r]) /\ \A j \in 1..Len(A[r]) : NClose(A[r][j], B[r][j], Zero, tolabs)

(* Gaussian elimination with partial pivoting on an augmented matrix of n
   rows; returns [rows, sign, piv] with unit-free upper-triangular rows *)
PivotRow(M, k) == CHOOSE r \in k..Len(M) : \A q \in k..Len(M) : NLe(NAbs(M[q][k]), NAbs(M[r][k]))
Swap(M, a, b) == [M EXCEPT ![a] = M[b], ![b] = M[a]]
ElimStep(S, k) ==
  LET p == PivotRow(S.rows, k)
      M == TLCEval(Swap(S.rows, k, p))
      d == IF NLt(NAbs(M[k][k]), Dec(1, -30)) THEN Zero ELSE M[k][k]   \* rounding residue of a singular matrix
  IN [rows |-> TLCEval([r \in 1..Len(M) |->
                 IF r <= k \/ NSgn(d) = 0 THEN M[r]
                 ELSE LET f == NDiv(M[r][k], d)
                      IN [j \in 1..Len(M[r]) |-> IF j <= k THEN Zero ELSE NSub(M[r][j], NMul(f, M[k][j]))]]),
      sign |-> (IF p = k THEN 1 ELSE -1) * S.sign * NSgn(d),
      logdet |-> IF NSgn(d) = 0 THEN S.logdet ELSE NAdd(S.logdet, NLn(NAbs(d)))]
Eliminate(M) == FoldLeft(LAMBDA S, k : ElimStep(S, k), [rows |-> M, sign |-> 1, logdet |-> Zero], [k \in 1..Len(M) |-> k])
SLogDet(M) == LET S == TLCEval(Eliminate(M)) IN [sign |-> S.sign, logdet |-> S.logdet]
(* solution of M x = b *)
BackSub(R, n) ==
  FoldLeft(LAMBDA x, q :
     LET r == n + 1 - q
         s == NSub(R[r][n+1], NSum([j \in 1..(n-r) |-> NMul(R[r][r+j], x[j])]))
     IN <<NDiv(s, R[r][r])>> \o x, <<>>, [q \in 1..n |-> q])
Solve(M, b) ==
  LET n == Len(M)
      S == TLCEval(Eliminate([r \in 1..n |-> Append(M[r], b[r])]))
  IN TLCEval(BackSub(S.rows, n))
(* determinant of an integer-valued matrix by Leibniz/cofactors (small n):
   used to cross-check Eliminate in LinModel *)
Minor(M, j) == [r \in 1..(Len(M)-1) |-> [q \in 1..(Len(M)-1) |-> M[r+1][IF q < j THEN q ELSE q+1]]]
RECURSIVE CofDet(_)
CofDet(M) == IF Len(M) = 0 THEN One
             ELSE FoldLeft(LAMBDA acc, j :
                    LET t == NMul(M[1][j], CofDet(TLCEval(Minor(M, j))))
                    IN IF j % 2 = 1 THEN NAdd(acc, t) ELSE NSub(acc, t), Zero, [j \in 1..Len(M) |-> j])
=============================================================================
