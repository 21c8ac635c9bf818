------------------------------ MODULE CheckC17 ------------------------------
(* Transfer functions against EH98; shape, growth scaling and normalisation of
   the linear power. "lin" events: k, a paired, observed P, D (growth), and
   kind of transfer; "sig" events: sigmasqr(R). *)
EXTENDS Power, Conform
Norm(e, s2) == NDiv(NSq(e.c.sigma8), s2)
Tol == Dec(8, -4)   \* measured quadrature error of the documented 2^7-interval Romberg rule: up to 2.6e-4
V(e) ==
  LET c == e.c
      p == EHPars(c)
      n == Len(e.k)
  IN CASE e.op = "transfer" ->
       Clause("one value per wavenumber", Len(e.osc) = n /\ Len(e.now) = n) \cup
       Clause("Eisenstein-Hu transfer function", \A j \in 1..n : NClose(e.osc[j], TOsc(p, e.k[j]), Dec(1, -9), Dec(1, -12))) \cup
       Clause("Eisenstein-Hu transfer function without oscillations", \A j \in 1..n : NClose(e.now[j], TNoWiggle(p, e.k[j]), Dec(1, -9), Dec(1, -12))) \cup
       Clause("default type has the oscillations", e.def = e.osc) \cup
       Clause("one on large scales", \A j \in 1..n : NLt(e.k[j], Dec(1, -5)) => NClose(e.osc[j], One, Dec(2, -3), Zero) /\ NClose(e.now[j], One, Dec(2, -3), Zero))
     [] e.op = "lin" ->
       LET T(k) == Transfer(e.kind, c, p, k)
           shape == TLCEval([j \in 1..n |-> NMul(NMul(NPow(e.k[j], c.n_s), NSq(T(e.k[j]))), NSq(e.D[j]))])
           ratio == TLCEval([j \in 1..n |-> NDiv(e.P[j], shape[j])])
           known == TLCEval(Norm(e, SigmaSq(e.kind, c, p, NInt(8), NInt(-4), NInt(3), e.n)))
           true == TLCEval(Norm(e, SigmaSq(e.kind, c, p, NInt(8), LnMin, LnMax, 2 * e.n)))
       IN Clause("one value per wavenumber", Len(e.P) = n) \cup
          Clause("P(k,a) proportional to k^ns T^2 D^2", \A j \in 1..n : NClose(ratio[j], ratio[1], Dec(1, -9), Zero)) \cup
          (IF NClose(ratio[1], true, Tol, Zero) THEN {}
           ELSE IF NClose(ratio[1], known, Tol, Zero) THEN {"known:sigma8 normalised over k in [e^-4, e^3]"}
           ELSE {"rms fluctuation in 8 Mpc/h spheres is sigma8"})
     [] e.op = "sig" ->
       LET p1 == TLCEval([j \in 1..n |-> SigmaSq(e.kind, c, p, e.k[j], NInt(-4), NInt(3), e.n)])
           p2 == TLCEval([j \in 1..n |-> SigmaSq(e.kind, c, p, e.k[j], LnMin, LnMax, 2 * e.n)])
       IN IF \A j \in 1..n : NClose(e.s[j], p2[j], Tol, Zero) THEN {}
          ELSE IF \A j \in 1..n : NClose(e.s[j], p1[j], Tol, Zero) THEN {"known:sigma8 normalised over k in [e^-4, e^3]"}
          ELSE {"variance in spheres of radius R"}
     [] OTHER -> {"unknown event"}
=============================================================================
