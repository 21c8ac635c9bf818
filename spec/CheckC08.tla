------------------------------ MODULE CheckC08 ------------------------------
(* d, mu and C are recorded multiplied by powers of two (dscale, cscale) so
   that 40 decimals resolve any units:
   C = Cr * 2^ce,  d = dr * 2^de,  mu = mur * 2^de *)
EXTENDS Gauss, Conform
tol == Dec(1, -8)
V(e) ==
  LET C == IF e.sparse THEN Dense(e.C) ELSE e.C
      r == TLCEval([j \in 1..Len(e.d) |-> NSub(e.d[j], e.mu[j])])
      L == LogLike(r, C)
      quad == NMul(L.quad, e.qscale)                  \* 2^(2 de - ce)
      ld == NAdd(L.logdet, NMulI(NMulI(Ln2, e.ce), Len(C)))
      sc == NAdd(NAdd(One, quad), NAbs(ld))
      Half(x) == NNeg(NDivI(x, 2))
      OK(got, want) == NClose(got, want, Zero, NMul(tol, sc))
  IN UNION {Clause("log-likelihood with determinant: " \o e.how[q], OK(e.full[q], Half(NAdd(quad, ld)))) \cup
            Clause("quadratic term only: " \o e.how[q], NClose(e.chi[q], Half(quad), tol, Dec(1,-30))) : q \in 1..Len(e.how)} \cup
     Clause("scalar result", e.scalar)
=============================================================================
