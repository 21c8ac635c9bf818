------------------------------ MODULE CheckC19 ------------------------------
EXTENDS Probes, Conform
(* the quadrature behind the normalisation is resolved to this accuracy *)
NTol == Dec(3, -4)
V(e) ==
  LET d == e.d
      n == Len(e.z)
  IN Clause("densities per steradian and per square arcminute", NClose(e.sr, NMul(d.n, Arcmin2PerSr), Dec(1, -12), Zero) /\ NClose(e.arc, d.n, Dec(1, -15), Zero)) \cup
     Clause("maximum redshift as given", NClose(e.zm, d.zmax, Dec(1, -15), Zero)) \cup
     (IF d.kind = "delta" THEN
        Clause("single plane: non-zero only at its redshift", Len(e.nz) = n /\ \A j \in 1..n : IsNum(e.nz[j]) /\ (NSgn(e.nz[j]) # 0 <=> NEq(e.z[j], d.z0)))
      ELSE
        LET p == TLCEval([j \in 1..n |-> Pz(d, e.z[j])])
            m == CHOOSE j \in 1..n : \A i \in 1..n : NLe(p[i], p[j])
            I == PzInt(d, 512)
            N == Len(e.grid) - 1
        IN IF Len(e.nz) # n \/ ~AllNum(e.nz) THEN {"one value per redshift"} ELSE
           Clause("proportional to the documented shape", \A j \in 1..n : NClose(NMul(e.nz[j], p[m]), NMul(e.nz[m], p[j]), Dec(1, -8), NMul(Dec(1, -12), NSq(p[m])))) \cup
           Clause("normalised", NClose(NMul(e.nz[m], I), p[m], NTol, Zero)) \cup
           Clause("integrates to one over 0..zmax", NClose(SimpsonInt0(e.grid, d.zmax), One, NTol, Zero)) \cup
           Clause("same values one at a time", \A j \in 1..n : NClose(e.one[j], e.nz[j], Dec(1, -10), Dec(1, -14))))
=============================================================================
