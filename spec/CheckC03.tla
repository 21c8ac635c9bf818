------------------------------ MODULE CheckC03 ------------------------------
(* One arrangement (Arrange!Arrangements) of a computation put to the real code:
   table[q][i] is what it returned for its q-th parameter set and i-th point,
   ref[p][j] the value of parameter p at point j, computed eagerly, alone. *)
EXTENDS Conform, Sequences
Scale(e) == FoldLeft(LAMBDA m, r : FoldLeft(LAMBDA m2, c : FoldLeft(LAMBDA m3, x : NMax(m3, NAbs(x)), m2, c), m, r), Zero, e.ref)
SameCell(x, y, s) == Len(x) = Len(y) /\ \A n \in 1..Len(x) : NClose(x[n], y[n], Dec(2,-9), NMul(s, Dec(1,-11)))
V(e) ==
  LET s == Scale(e)
  IN Clause("one value per parameter set and point", e.filled /\ Len(e.table) = Len(e.arr.pars) /\ \A q \in 1..Len(e.table) : Len(e.table[q]) = Len(e.arr.pts)) \cup
     Clause("values are numbers", \A p \in 1..Len(e.ref) : \A i \in 1..Len(e.ref[p]) : \A n \in 1..Len(e.ref[p][i]) : e.ref[p][i][n] # <<2>>) \cup
     Clause("value of " \o e.op \o " depends on its parameters and point only",
            \A q \in 1..Len(e.table) : \A i \in 1..Len(e.table[q]) : SameCell(e.table[q][i], e.ref[e.arr.pars[q]][e.arr.pts[i]], s))
=============================================================================
