------------------------------- MODULE Splines -------------------------------
(* Interpolating splines of order k through (x_i, y_i), by their defining
   conditions.  A spline is a sequence of knots and, on each piece, a
   polynomial p_j in the local variable s = (x - knot_j)/h_j. *)
EXTENDS Lin

Knots(k, x) ==
  LET n == Len(x)
  IN IF k # 2 THEN x
     ELSE TLCEval(<<NSub(x[1], NDivI(NSub(x[2], x[1]), 2))>>
          \o [j \in 1..(n-1) |-> NDivI(NAdd(x[j], x[j+1]), 2)]
          \o <<NAdd(x[n], NDivI(NSub(x[n], x[n-1]), 2))>>)
Hs(K) == TLCEval([j \in 1..(Len(K)-1) |-> NSub(K[j+1], K[j])])

(* falling factorial m (m-1) ... (m-r+1) *)
RECURSIVE Fall(_, _)
Fall(m, r) == IF r = 0 THEN 1 ELSE m * Fall(m-1, r-1)
(* row over all unknowns (piece-major, degree 0..k): r-th derivative in s of piece j at s, times f *)
DerRow(k, P, j, r, s, f) ==
  [q \in 1..(P*(k+1)) |->
     LET pj == ((q-1) \div (k+1)) + 1  m == (q-1) % (k+1)
     IN IF pj # j \/ m < r THEN Zero ELSE NMul(f, NMulI(NPowI(s, m-r), Fall(m, r)))]
RowSub(a, b) == [q \in 1..Len(a) |-> NSub(a[q], b[q])]

(* the defining conditions, as linear equations [row, rhs] *)
Conditions(k, ends, x, y) ==
  LET K == Knots(k, x)
      h == Hs(K)
      P == Len(h)
      n == Len(x)
      Interp == IF k = 2
                THEN [j \in 1..n |-> [row |-> DerRow(k, P, j, 0, NDiv(NSub(x[j], K[j]), h[j]), One), rhs |-> y[j]]]
                ELSE [j \in 1..P |-> [row |-> DerRow(k, P, j, 0, Zero, One), rhs |-> y[j]]]
                     \o [j \in 1..P |-> [row |-> DerRow(k, P, j, 0, One, One), rhs |-> y[j+1]]]
      rs == IF k = 2 THEN <<0, 1>> ELSE [r \in 1..(k-1) |-> r]
      Smooth == FoldLeft(LAMBDA acc, r : acc \o [j \in 1..(P-1) |->
                   [row |-> RowSub(DerRow(k, P, j, r, One, One), DerRow(k, P, j+1, r, Zero, NPowI(NDiv(h[j], h[j+1]), r))), rhs |-> Zero]],
                   <<>>, rs)
      NotAKnot(j) == [row |-> RowSub(DerRow(k, P, j, k, One, One), DerRow(k, P, j+1, k, Zero, NPowI(NDiv(h[j], h[j+1]), k))), rhs |-> Zero]
      End == IF k = 1 THEN <<>>
             ELSE IF ends = "natural" THEN <<[row |-> DerRow(k, P, 1, 2, Zero, One), rhs |-> Zero], [row |-> DerRow(k, P, P, 2, One, One), rhs |-> Zero]>>
             ELSE <<NotAKnot(1), NotAKnot(P-1)>>
  IN Interp \o Smooth \o End

(* when two not-a-knot conditions coincide with P = 2 pieces they would be the
   same equation; the minimal sizes of the implementation exclude that *)
SplineOf(k, ends, x, y) ==
  LET C == TLCEval(Conditions(k, ends, x, y))
      K == Knots(k, x)
      P == Len(K) - 1
      z == Solve(TLCEval([r \in 1..Len(C) |-> C[r].row]), TLCEval([r \in 1..Len(C) |-> C[r].rhs]))
  IN [k |-> k, knots |-> K, h |-> Hs(K), p |-> TLCEval([j \in 1..P |-> SubSeq(z, (j-1)*(k+1) + 1, j*(k+1))])]

Square(k, ends, x) == LET C == Conditions(k, ends, x, x) IN Len(C) = Len(C[1].row)

Piece(S, x) == LET P == Len(S.h)
               IN IF NLt(x, S.knots[2]) THEN 1
                  ELSE IF NLe(S.knots[P], x) THEN P
                  ELSE CHOOSE j \in 2..(P-1) : NLe(S.knots[j], x) /\ NLt(x, S.knots[j+1])
PolyD(c, r, s) == NSum([m \in 1..(Len(c)-r) |-> NMul(c[m+r], NMulI(NPowI(s, m-1), Fall(m+r-1, r)))])
PolyI(c, s) == NSum([m \in 1..Len(c) |-> NDivI(NMul(c[m], NPowI(s, m)), m)])
Local(S, j, x) == NDiv(NSub(x, S.knots[j]), S.h[j])
Deriv(S, r, x) == LET j == Piece(S, x) IN NDiv(PolyD(S.p[j], r, Local(S, j, x)), NPowI(S.h[j], r))
Value(S, x) == Deriv(S, 0, x)
Prim(S, x) == LET j == Piece(S, x)  \* integral from the first knot
              IN NAdd(NSum([q \in 1..(j-1) |-> NMul(S.h[q], PolyI(S.p[q], One))]), NMul(S.h[j], PolyI(S.p[j], Local(S, j, x))))
Integral(S, a, b) == NSub(Prim(S, b), Prim(S, a))
=============================================================================
