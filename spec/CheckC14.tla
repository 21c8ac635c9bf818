------------------------------ MODULE CheckC14 ------------------------------
EXTENDS Cosmo, Conform
tol == Dec(1, -10)
OKs(s, f(_), e) == Len(s) = Len(e.a) /\ \A j \in 1..Len(e.a) : NClose(s[j], f(e.a[j]), tol, tol)
BackV(e) ==
  LET c == e.c IN
  Clause("equation of state", OKs(e.w, LAMBDA a : W(c, a), e)) \cup
  Clause("dark-energy exponent", OKs(e.fde, LAMBDA a : FdeL(c, a, NLn(a)), e)) \cup
  Clause("Friedmann equation", OKs(e.E2, LAMBDA a : E2(c, a), e)) \cup
  Clause("Hubble rate", OKs(e.H, LAMBDA a : Hubble(c, a), e)) \cup
  Clause("matter fraction", OKs(e.Om, LAMBDA a : OmMA(c, a), e)) \cup
  Clause("dark-energy fraction", OKs(e.Ode, LAMBDA a : OmDEA(c, a), e)) \cup
  Clause("fractions sum to one", \A j \in 1..Len(e.a) :
     NClose(NAdd(NAdd(e.Om[j], e.Ode[j]), NDiv(NMul(c.Omega_k, Inv2(e.a[j])), e.E2[j])), One, tol, tol)) \cup
  Clause("H(1) = 100", NClose(e.H1, H0, tol, Zero)) \cup
  Clause("scalar in, same value out", e.scalars)
PropV(e) ==
  LET c == e.c
      EQ(x, y) == NClose(x, y, Dec(1,-13), Dec(1,-13))
  IN Clause("primary parameters are returned as given",
       \A f \in {"Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"} : EQ(e.p[f], c[f])) \cup
     Clause("matter is baryons plus dark matter", EQ(e.p.Omega_m, OmM(c))) \cup
     Clause("total density", EQ(e.p.Omega, OmTot(c))) \cup
     Clause("dark energy closes the budget", EQ(e.p.Omega_de, OmDE(c))) \cup
     Clause("curvature sign", NEq(e.p.k, NInt(KSign(c)))) \cup
     Clause("root of the curvature", EQ(e.p.sqrtk, SqrtK(c))) \cup
     Clause("growth index", e.p.hasgamma = c.hasgamma /\ (c.hasgamma => EQ(e.p.gamma, c.gamma)))
(* Planck 2015 paper XIII, table 4, last column, as documented *)
Planck == [Omega_c |-> Dec(2589, -4), Omega_b |-> Dec(486, -4), Omega_k |-> Zero, h |-> Dec(6774, -4),
           n_s |-> Dec(9667, -4), sigma8 |-> Dec(8159, -4), w0 |-> NNeg(One), wa |-> Zero]
PlanckV(e) ==
  Clause("predefined cosmology with overrides",
    \A f \in DOMAIN Planck : NClose(e.p[f], IF f \in DOMAIN e.over THEN e.over[f] ELSE Planck[f], Dec(1,-14), Dec(1,-14))) \cup
  Clause("growth index of the predefined cosmology", e.p.hasgamma = ("gamma" \in DOMAIN e.over)
         /\ ("gamma" \in DOMAIN e.over => NClose(e.p.gamma, e.over.gamma, Dec(1,-14), Dec(1,-14)))) \cup
  Clause("same expansion as the cosmology built with those values", SeqClose(e.H, e.Hbuilt, tol, tol))
ZV(e) == Clause("a(z) = 1/(1+z)", \A j \in 1..Len(e.z) : NClose(e.a[j], NDiv(One, NAdd(One, e.z[j])), Dec(1,-13), Dec(1,-15))) \cup
         Clause("z(a) = 1/a - 1", \A j \in 1..Len(e.z) : NClose(e.zz[j], NSub(NDiv(One, e.a[j]), One), Dec(1,-12), Dec(1,-12)))
V(e) == CASE e.op = "background" -> BackV(e) [] e.op = "properties" -> PropV(e) [] e.op = "planck" -> PlanckV(e) [] e.op = "redshift" -> ZV(e)
=============================================================================
