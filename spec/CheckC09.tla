------------------------------ MODULE CheckC09 ------------------------------
(* Observed results of jax_cosmo.sparse against Blocks. *)
EXTENDS Blocks, Conform
exact == Dec(1, -12)      \* integer entries: products are exact in binary64
Sh2(M) == <<Len(M), IF Len(M) = 0 THEN 0 ELSE Len(M[1])>>
M1(name, got, want) == Clause(name, Len(got) = Len(want) /\ SeqClose(got, want, Zero, exact))
M2(name, got, want) == Clause(name, MatClose(got, want, exact))
ProdV(e) ==
  LET DS == Dense(e.S)  DT == Dense(e.T)
      ST == MatMul(DS, DT)
  IN Clause("shape of to_dense", e.sh.dense = Sh2(DS)) \cup
     Clause("shape of a product", /\ e.sh.ss = <<Len(e.S), Len(e.T[1]), Len(e.S[1][1])>>
                                  /\ e.sh.sv = <<Len(DS)>> /\ e.sh.vs = <<Len(DS[1])>>
                                  /\ e.sh.sd = <<Len(DS), Len(e.R[1])>> /\ e.sh.ds = <<Len(e.L), Len(DS[1])>>
                                  /\ e.sh.dsd = <<Len(e.L), Len(e.R[1])>>) \cup
     (IF /\ e.sh.dense = Sh2(DS) /\ e.sh.ss = <<Len(e.S), Len(e.T[1]), Len(e.S[1][1])>>
         /\ e.sh.sv = <<Len(DS)>> /\ e.sh.vs = <<Len(DS[1])>> /\ e.sh.sd = <<Len(DS), Len(e.R[1])>>
         /\ e.sh.ds = <<Len(e.L), Len(DS[1])>> /\ e.sh.dsd = <<Len(e.L), Len(e.R[1])>> THEN
        M2("to_dense", e.dense, DS) \cup
        M2("sparse @ sparse", Dense(e.ss), ST) \cup
        M1("sparse @ vector", e.sv, MatVec(DS, e.v)) \cup
        M1("vector @ sparse", e.vs, VecMat(e.u, DS)) \cup
        M2("sparse @ dense", e.sd, MatMul(DS, e.R)) \cup
        M2("dense @ sparse", e.ds, MatMul(e.L, DS)) \cup
        M2("dense @ sparse @ dense", e.dsd, MatMul(MatMul(e.L, DS), e.R)) \cup
        Clause("operands of any array-like form", e.forms)
      ELSE {})
tolr == Dec(1, -8)
SquareV(e) ==
  LET D == Dense(e.S)
      n == Len(D)
      q == SLogDet(D)
      dd == NMulI(NExp(q.logdet), q.sign)
  IN Clause("shapes of inverse and determinants", e.sh.inv = <<Len(e.S), Len(e.S), Len(e.S[1][1])>> /\ e.sh.det = <<>> /\ e.sh.sld = <<>>) \cup
     (IF e.sh.inv # <<Len(e.S), Len(e.S), Len(e.S[1][1])>> THEN {} ELSE
       Clause("inverse", LET I == TLCEval(Dense(e.inv)) IN
          AllNumM(I) /\ MatClose(MatMul(D, I), Identity(n), NMul(tolr, NAdd(One, NMul(MaxAbs(D), MaxAbs(I)))))
                     /\ MatClose(MatMul(I, D), Identity(n), NMul(tolr, NAdd(One, NMul(MaxAbs(D), MaxAbs(I)))))) \cup
       Clause("sign of the determinant", NClose(e.sign, NInt(q.sign), Zero, exact)) \cup
       Clause("log of the determinant", NClose(e.logdet, NAdd(q.logdet, NMulI(NMulI(Ln2, e.ce), n)), tolr, tolr)) \cup
       Clause("determinant", NClose(e.det, dd, tolr, tolr)))
SingularV(e) == Clause("determinant of a singular matrix", NClose(e.det, Zero, Zero, NMul(exact, e.scale)))
V(e) == CASE e.op = "products" -> ProdV(e) [] e.op = "square" -> SquareV(e) [] e.op = "singular" -> SingularV(e)
=============================================================================
