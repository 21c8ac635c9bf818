------------------------------ MODULE CheckC06 ------------------------------
(* "duck": kernels A z^2 exp(-z/s)(1 + v l) and power amp a^g T(k)^2 with
   T(k) = 1/(1 + k/k0), all evaluated here; chi observed at the nodes.
   "real": library probes; kernels and power observed at the nodes through
   the public functions, for the same transfer and non-linear functions. *)
EXTENDS Limber, Conform
V(e) ==
  LET c == e.c
      n == Len(e.chi) - 1
      as == LNodes(e.zmax, n)
      ws == LWeights(c, as, e.chi)
      T == e.nt
      pr == Pairs(T)
      nl == Len(e.ell)
      zs(j) == NSub(NDiv(One, as[j]), One)
      base == IF e.op = "duck" THEN TLCEval([t \in 1..T |-> [j \in 1..(n+1) |-> NMul(NMul(e.A[t], NSq(zs(j))), NExp(NNeg(NDiv(zs(j), e.s[t]))))]]) ELSE <<>>
      kern == IF e.op = "duck"
              THEN TLCEval([l \in 1..nl |-> [t \in 1..T |-> [j \in 1..(n+1) |-> NMul(base[t][j], NAdd(One, NMul(e.v[t], e.ell[l])))]]])
              ELSE e.kern
      pk == IF e.op = "duck"
            THEN TLCEval([l \in 1..nl |-> [j \in 1..(n+1) |-> NMul(NMul(e.amp, NPowI(as[j], e.g)),
                     NSq(NDiv(One, NAdd(One, NDiv(WaveNumber(e.ell[l], e.chi[j]), e.k0)))))]])
            ELSE e.pk
      ref == TLCEval([r \in 1..Len(pr) |-> [l \in 1..nl |-> LimberSum(ws, pk[l], kern[l][pr[r][1]], kern[l][pr[r][2]])]])
      auto(i, l) == NAbs(ref[Row(T, i, i)][l])
      scale(r, l) == NSqrt(NMul(NMul(auto(pr[r][1], l), auto(pr[r][2], l)), NInt(1)))
      rt == IF e.op = "duck" THEN Dec(1, -5) ELSE Dec(1, -3)
      at == IF e.op = "duck" THEN Dec(1, -6) ELSE Dec(1, -3)
      knodes == e.op # "real" \/ \A l \in 1..nl : \A j \in 1..(n+1) : NClose(e.k[l][j], WaveNumber(e.ell[l], e.chi[j]), Dec(1, -9), Zero)
  IN Clause("one row per pair of tracers, one column per multipole", Len(e.cl) = Len(pr) /\ \A r \in 1..Len(e.cl) : Len(e.cl[r]) = nl) \cup
     Clause("recorded wavenumbers", knodes) \cup
     Clause("Limber integral", Len(e.cl) = Len(pr) /\ \A r \in 1..Len(pr), l \in 1..nl : NClose(e.cl[r][l], ref[r][l], rt, NMul(at, scale(r, l))))
=============================================================================
