------------------------------ MODULE CheckC05 ------------------------------
(* "spectra": groups = the probe list as sequences of tracer ids; cl observed
   rows (or <<>>), noise observed rows, ref[s][t] the cross-spectrum of s and t
   in a call with nothing else in it (ids in increasing order), sn[t] each
   tracer's own noise. *)
EXTENDS Tracers, Conform
V(e) ==
  LET f == Flat(e.groups)
      n == Len(f)
      pr == Pairs(n)
      nl == e.nl
      lo(a, b) == IF a <= b THEN a ELSE b
      hi(a, b) == IF a <= b THEN b ELSE a
      want(r) == LET a == f[pr[r][1]]
                     b == f[pr[r][2]]
                 IN e.ref[lo(a, b)][hi(a, b)]
      scale(r, l) == NSqrt(NAbs(NMul(e.ref[f[pr[r][1]]][f[pr[r][1]]][l], e.ref[f[pr[r][2]]][f[pr[r][2]]][l])))
  IN Clause("one row per unordered pair of tracers", Len(e.cl) = Len(pr) /\ \A r \in 1..Len(e.cl) : Len(e.cl[r]) = nl) \cup
     Clause("rows are the cross-spectra of their pairs, in row-major order", Len(e.cl) = Len(pr) => \A r \in 1..Len(pr) : \A l \in 1..nl :
        NClose(e.cl[r][l], want(r)[l], Dec(1, -8), NMul(Dec(1, -9), scale(r, l)))) \cup
     Clause("noise rows follow the same order, non-zero only on auto-pairs", Len(e.noise) = Len(pr) /\ \A r \in 1..Len(e.noise) : Len(e.noise[r]) = nl /\ \A l \in 1..nl :
        IF pr[r][1] = pr[r][2] THEN NClose(e.noise[r][l], e.sn[f[pr[r][1]]], Dec(1, -12), Zero) ELSE IsNum(e.noise[r][l]) /\ NSgn(e.noise[r][l]) = 0)
=============================================================================
