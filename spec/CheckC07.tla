------------------------------ MODULE CheckC07 ------------------------------
(* "cov": n tracers; signal s and noise t (rows x multipoles), ell, f_sky;
   observed sparse and dense covariance. "mean": one call giving mean and
   covariance; cl and noise observed separately. *)
EXTENDS Tracers, Conform
Grad(ell) == LET L == Len(ell) IN TLCEval([j \in 1..L |->
   IF j = 1 THEN NSub(ell[2], ell[1]) ELSE IF j = L THEN NSub(ell[L], ell[L-1]) ELSE NDivI(NSub(ell[j+1], ell[j-1]), 2)])
Knox(n, C, ell, f) ==
  LET np == NPairs(n)
      gr == Grad(ell)
      norm == TLCEval([l \in 1..Len(ell) |-> NMul(NMul(NAdd(NMulI(ell[l], 2), One), gr[l]), f)])
  IN TLCEval([p \in 1..np |-> TLCEval([q \in 1..np |-> LET b == Block(n, p, q) IN TLCEval([l \in 1..Len(ell) |->
       NDiv(NAdd(NMul(C[b[1]][l], C[b[2]][l]), NMul(C[b[3]][l], C[b[4]][l])), norm[l])])])])
V(e) ==
  LET n == e.n
      np == NPairs(n)
      nl == Len(e.ell)
      C == TLCEval([r \in 1..np |-> TLCEval([l \in 1..nl |-> NAdd(e.s[r][l], e.t[r][l])])])
      K == Knox(n, C, e.ell, e.fsky)
      top == NMaxAbs([r \in 1..np |-> NMaxAbs([l \in 1..nl |-> K[r][r][l]])])
      cl(x, y) == NClose(x, y, Dec(1, -11), NMul(Dec(1, -25), top))
      sp == e.sparse
      de == e.dense
      spok == Len(sp) = np /\ \A p \in 1..np : Len(sp[p]) = np /\ \A q \in 1..np : Len(sp[p][q]) = nl
      deok == Len(de) = np*nl /\ \A x \in 1..(np*nl) : Len(de[x]) = np*nl
      at(p, l) == (p-1)*nl + l
  IN Clause("sparse covariance has one vector per pair of rows", sp # <<>> => spok) \cup
     Clause("dense covariance is square over rows and multipoles", de # <<>> => deok) \cup
     Clause("Knox formula", (sp # <<>> /\ spok) => \A p, q \in 1..np : \A l \in 1..nl : cl(sp[p][q][l], K[p][q][l])) \cup
     Clause("Knox formula (dense), zero between multipoles", (de # <<>> /\ deok) => \A p, q \in 1..np : \A l, m \in 1..nl :
          LET x == de[at(p, l)][at(q, m)] IN IF l = m THEN cl(x, K[p][q][l]) ELSE IsNum(x) /\ NSgn(x) = 0) \cup
     Clause("symmetric", ((sp # <<>> /\ spok) => \A p, q \in 1..np : p < q => \A l \in 1..nl : cl(sp[p][q][l], sp[q][p][l]))) \cup
     (IF e.op # "mean" THEN {} ELSE
        Clause("mean is the flattened signal", Len(e.mean) = np*nl /\ \A r \in 1..np, l \in 1..nl : NClose(e.mean[at(r, l)], e.s[r][l], Dec(1, -9), Zero)) \cup
        Clause("noise of the probes given", \A t \in 1..n : \A l \in 1..nl : NClose(e.t[Row(n, t, t)][l], e.own[t], Dec(1, -12), Zero)))
=============================================================================
