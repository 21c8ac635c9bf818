------------------------------ MODULE CheckC20 ------------------------------
(* "wl": for every queried redshift z[q] the nodes zp (257 equally spaced from
   z[q] to the largest redshift of the probe) carry chi and each bin's n(z);
   single-plane bins carry chi at their redshift.
   Kernels: plain (no options), full (with m and, if enabled, alignments).  *)
EXTENDS Probes, Conform
QTol == Dec(1, -3)
Bins(e) == 1..Len(e.bins)
(* scalar or per bin *)
Per(s, j) == IF Len(s) = 1 THEN s[1] ELSE s[j]
V(e) ==
  LET c == e.c
      nz == Len(e.z)
      nb == Len(e.bins)
      q(b, i) == IF e.bins[b].delta THEN Efficiency(e.chi[i], e.bins[b].chi0)
                 ELSE LET ys == [j \in 1..Len(e.chip[i]) |-> NMul(e.dn[b][i][j], Efficiency(e.chi[i], e.chip[i][j]))]
                      IN SimpsonInt0(ys, NSub(e.zmax, e.z[i]))
      shapes(k) == Len(k) = nb /\ \A b \in 1..nb : Len(k[b]) = nz /\ AllNum(k[b])
  IN CASE e.op = "wl" ->
       (IF ~shapes(e.plain) \/ ~shapes(e.full) THEN {"kernels have shape (bins, redshifts)"} ELSE
        LET ref == TLCEval([b \in 1..nb |-> [i \in 1..nz |-> LensKernel(c, e.ell, e.z[i], e.chi[i], q(b, i))]])
            top(b) == NMaxAbs(ref[b])
            ia(b, i) == IF ~e.ia THEN Zero ELSE NLAKernel(c, e.ell, e.z[i], Bias(Per(e.bias, b), e.z[i], e.D[i]), e.nz[b][i], e.D[i])
        IN Clause("lensing kernel", \A b \in 1..nb, i \in 1..nz : NClose(e.plain[b][i], ref[b][i], QTol, NMul(Dec(1, -4), top(b)))) \cup
           Clause("lensing kernel of single-plane bins", \A b \in 1..nb, i \in 1..nz : e.bins[b].delta => NClose(e.plain[b][i], ref[b][i], Dec(1, -9), Dec(1, -12))) \cup
           Clause("alignments and multiplicative bias", \A b \in 1..nb, i \in 1..nz :
             LET a == ia(b, i)
             IN NClose(e.full[b][i], NMul(NAdd(e.plain[b][i], a), NAdd(One, Per(e.m, b))), Dec(1, -8), NMul(Dec(1, -9), NAdd(NAbs(a), NAbs(e.plain[b][i]))))) \cup
           Clause("noise is sigma_e^2 / n", Len(e.noise) = nb /\ \A b \in 1..nb :
             NClose(e.noise[b], NDiv(NSq(Per(e.sige, b)), NMul(e.bins[b].n, Arcmin2PerSr)), Dec(1, -10), Zero)) \cup
           Clause("number of tracers and maximum redshift", e.ntr = nb /\ NEq(e.pzmax, e.zmax)))
     [] e.op = "nc" ->
       (IF ~shapes(e.full) THEN {"kernels have shape (bins, redshifts)"} ELSE
        Clause("clustering kernel is b n H", \A b \in 1..nb, i \in 1..nz :
             NClose(e.full[b][i], DensKernel(c, e.z[i], Bias(Per(e.bias, b), e.z[i], e.D[i]), e.nz[b][i]), Dec(1, -9), Dec(1, -14))) \cup
        Clause("noise is 1 / n", Len(e.noise) = nb /\ \A b \in 1..nb : NClose(e.noise[b], NDiv(One, NMul(e.bins[b].n, Arcmin2PerSr)), Dec(1, -10), Zero)) \cup
        Clause("number of tracers and maximum redshift", e.ntr = nb /\ NEq(e.pzmax, e.zmax)))
     [] e.op = "bias" ->
        Clause("redshift dependence of the bias", Len(e.b) = nz /\ \A i \in 1..nz : NClose(e.b[i], Bias(e.bias[1], e.z[i], e.D[i]), Dec(1, -10), Zero))
=============================================================================
