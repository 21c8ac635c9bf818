-------------------------------- MODULE Cosmo --------------------------------
(* Reference semantics of the cosmological model: background expansion,
   distances and growth.  A cosmology is a record with fields
   Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa (Nums), hasgamma, gamma. *)
EXTENDS Num

RH == Dec(299792458, -5)                      \* Hubble radius c/H0, Mpc/h
CLight == Dec(299792458, -3)                  \* km/s
H0 == NInt(100)

OmM(c) == NAdd(c.Omega_b, c.Omega_c)
OmTot(c) == NSub(One, c.Omega_k)
OmDE(c) == NSub(OmTot(c), OmM(c))
KSign(c) == -NSgn(c.Omega_k)
SqrtK(c) == NSqrt(NAbs(c.Omega_k))

W(c, a) == NAdd(c.w0, NMul(NSub(One, a), c.wa))
(* exponent of the dark energy density; la = ln a *)
FdeL(c, a, la) == NAdd(NMulI(NMul(NAdd(One, NAdd(c.w0, c.wa)), la), -3), NMulI(NMul(c.wa, NSub(a, One)), 3))
IsLambda(c) == NEq(c.w0, NNeg(One)) /\ NSgn(c.wa) = 0
RhoDE(c, a, la) == IF IsLambda(c) THEN One ELSE NExp(FdeL(c, a, la))
Inv2(a) == NDiv(One, NSq(a))
Inv3(a) == NDiv(One, NMul(NSq(a), a))
E2L(c, a, la) == NAdd(NAdd(NMul(OmM(c), Inv3(a)), NMul(c.Omega_k, Inv2(a))), NMul(OmDE(c), RhoDE(c, a, la)))
LnA(c, a) == IF IsLambda(c) THEN Zero ELSE NLn(a)   \* only needed by RhoDE
E2(c, a) == E2L(c, a, LnA(c, a))
Hubble(c, a) == NMul(H0, NSqrt(E2(c, a)))
OmMA(c, a) == NDiv(NMul(OmM(c), Inv3(a)), E2(c, a))
OmDEA(c, a) == NDiv(NMul(OmDE(c), RhoDE(c, a, LnA(c, a))), E2(c, a))
OmKA(c, a) == NDiv(NMul(c.Omega_k, Inv2(a)), E2(c, a))

(* ---------------- distances ---------------- *)
DChiDa(c, a) == NDiv(RH, NMul(NSq(a), NSqrt(E2(c, a))))
(* chi(a) = int_{ln a}^0 RH/(a E) dln a: composite Simpson on n (even) cells *)
SimpsonInt(f(_), lo, hi, n) ==
  LET d == NSub(hi, lo)
      s == FoldLeft(LAMBDA acc, j : NAdd(acc, NMulI(f(NAdd(lo, NDivI(NMulI(d, j), n))),
                      IF j = 0 \/ j = n THEN 1 ELSE IF j % 2 = 1 THEN 4 ELSE 2)), Zero, [q \in 1..(n+1) |-> q-1])
  IN NDivI(NMul(d, s), 3*n)
ChiIntegrand(c, x) == LET a == NExp(x) IN NDiv(RH, NMul(a, NSqrt(E2L(c, a, x))))
Chi(c, a, n) == SimpsonInt(LAMBDA x : ChiIntegrand(c, x), NLn(a), Zero, n)
(* image of a radial distance under curvature *)
Transverse(c, chi) ==
  LET s == SqrtK(c)
      x == NDiv(NMul(s, chi), RH)
      x2 == NDiv(NMul(c.Omega_k, NSq(NDiv(chi, RH))), One)
  IN IF NLt(NAbs(c.Omega_k), Dec(1, -6))
     THEN NMul(chi, NAdd(One, NAdd(NDivI(x2, 6), NDivI(NSq(x2), 120))))      \* common expansion of both branches
     ELSE IF NSgn(c.Omega_k) > 0 THEN NMul(NDiv(RH, s), NSinh(x)) ELSE NMul(NDiv(RH, s), NSin(x))

(* ---------------- growth ---------------- *)
(* f = dlnD/dlna of the growing solution of D'' + (2 + dlnH/dlna) D' = 3/2 Om(a) D
   (primes: d/dlna), i.e. f' = 3/2 Om(a) - f^2 - (2 + dlnH/dlna) f,
   where 2 + dlnH/dlna = 2 - 1/2 (Om(a) + (1+3w) Ode(a)) - ... written out below *)
DLnH(c, a, la) == \* dlnH/dlna = (a/2) (dE2/da) / E2
  LET e == E2L(c, a, la)
      m == NMul(OmM(c), Inv3(a))
      k == NMul(c.Omega_k, Inv2(a))
      d == NMul(OmDE(c), RhoDE(c, a, la))
  IN NDivI(NDiv(NAdd(NAdd(NMulI(m, -3), NMulI(k, -2)), NMulI(NMul(NAdd(One, W(c, a)), d), -3)), e), 2)
Riccati(c, x, f) ==
  LET a == NExp(x)
      m == NDiv(NMul(OmM(c), Inv3(a)), E2L(c, a, x))
  IN NSub(NSub(NDivI(NMulI(m, 3), 2), NSq(f)), NMul(NAdd(Two, DLnH(c, a, x)), f))
RiccatiStep(c, x, h, f) ==
  LET hh == NDivI(h, 2)
      k1 == Riccati(c, x, f)
      k2 == Riccati(c, NAdd(x, hh), NAdd(f, NMul(hh, k1)))
      k3 == Riccati(c, NAdd(x, hh), NAdd(f, NMul(hh, k2)))
      k4 == Riccati(c, NAdd(x, h), NAdd(f, NMul(h, k3)))
  IN TLCEval(NAdd(f, NDivI(NMul(h, NAdd(NAdd(k1, k4), NMulI(NAdd(k2, k3), 2))), 6)))
Ln10 == NLn(NInt(10))
LGrid(n) == TLCEval([j \in 1..(n+1) |-> NNeg(NDivI(NMulI(NMul(Ln10, NInt(3)), n+1-j), n))])  \* ln a from ln 10^-3 to 0
(* growth rate on the grid LGrid(n), started in matter domination (f = 1) *)
RateODE(c, n) ==
  LET x == LGrid(n)
      h == NDivI(NMulI(Ln10, 3), n)
  IN TLCEval(FoldLeft(LAMBDA fs, j : Append(fs, RiccatiStep(c, x[j], h, fs[j])), <<One>>, [j \in 1..n |-> j]))
RateGamma(c, n) ==
  LET x == LGrid(n)
  IN TLCEval([j \in 1..(n+1) |-> LET a == NExp(x[j]) IN NPow(NDiv(NMul(OmM(c), Inv3(a)), E2L(c, a, x[j])), c.gamma)])
Rate(c, n) == IF c.hasgamma THEN RateGamma(c, n) ELSE RateODE(c, n)
(* ln D at every second grid point, by Simpson's rule from the right end:
   element q is ln D at grid point n+1-2(q-1) *)
LnDBack(f, n) ==
  LET h == NDivI(NMulI(Ln10, 3), n)
  IN TLCEval(FoldLeft(LAMBDA acc, q :
        LET j == n + 1 - 2*q
        IN Append(acc, NSub(acc[q], NDivI(NMul(h, NAdd(NAdd(f[j], f[j+2]), NMulI(f[j+1], 4))), 3))),
        <<Zero>>, [q \in 1..(n \div 2) |-> q]))
=============================================================================
