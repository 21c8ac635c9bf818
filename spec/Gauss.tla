-------------------------------- MODULE Gauss --------------------------------
(* Gaussian log-likelihood by exact elimination. *)
EXTENDS Blocks
(* C is scaled by its largest entry so that any unit system is resolved *)
LogLike(r, C) ==
  LET n == Len(C)
      s == MaxAbs(C)
      Cs == TLCEval([a \in 1..n |-> [b \in 1..n |-> NDiv(C[a][b], s)]])
      rs == NMaxAbs(r)
      ru == IF NSgn(rs) = 0 THEN r ELSE TLCEval([a \in 1..n |-> NDiv(r[a], rs)])
      z == Solve(Cs, ru)
      q == NMul(NDot(ru, z), NDiv(NSq(rs), s))
      ld == NAdd(SLogDet(Cs).logdet, NMulI(NLn(s), n))
  IN [quad |-> q, logdet |-> ld, full |-> NNeg(NDivI(NAdd(q, ld), 2)), chi |-> NNeg(NDivI(q, 2))]
=============================================================================
