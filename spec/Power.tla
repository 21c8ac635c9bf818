-------------------------------- MODULE Power --------------------------------
(* Linear and non-linear matter power: Eisenstein & Hu (1998) transfer
   functions, normalisation by the variance in 8 Mpc/h spheres, and halofit
   (Smith et al. 2003, Takahashi et al. 2012). Wavenumbers in h/Mpc. *)
EXTENDS Cosmo

E1 == NExp(One)
Theta2 == NSq(NDiv(Dec(2726, -3), Dec(27, -1)))       \* (T_cmb / 2.7 K)^2
P(x, m, e) == NPow(x, Dec(m, e))
NA(a, b) == NAdd(a, b)

(* derived quantities of EH98 for a cosmology; equation numbers of the paper *)
EHPars(c) ==
  LET wm == TLCEval(NMul(OmM(c), NSq(c.h)))
      wb == TLCEval(NMul(c.Omega_b, NSq(c.h)))
      fb == TLCEval(NDiv(c.Omega_b, OmM(c)))
      fc == NDiv(c.Omega_c, OmM(c))
      keq == TLCEval(NDiv(NDiv(NMul(Dec(746, -4), wm), Theta2), c.h))                               \* 3
      zeq == TLCEval(NDiv(NMul(NInt(25000), wm), NSq(Theta2)))                                      \* 2
      b1d == NMul(NMul(Dec(313, -3), P(wm, -419, -3)), NA(One, NMul(Dec(607, -3), P(wm, 674, -3))))  \* 4
      b2d == NMul(Dec(238, -3), P(wm, 223, -3))
      zd == TLCEval(NMul(NDiv(NMul(NInt(1291), P(wm, 251, -3)), NA(One, NMul(Dec(659, -3), P(wm, 828, -3)))), NA(One, NMul(b1d, NPow(wb, b2d)))))
      R(z) == NDiv(NMul(NDiv(NMul(Dec(315, -1), wb), NSq(Theta2)), NInt(1000)), z)                  \* 5
      Rd == TLCEval(R(zd))
      Req == TLCEval(R(zeq))
      s == TLCEval(NMul(NMul(NDiv(Two, NMulI(keq, 3)), NSqrt(NDiv(NInt(6), Req))),
             NLn(NDiv(NA(NSqrt(NA(One, Rd)), NSqrt(NA(Req, Rd))), NA(One, NSqrt(Req))))))           \* 6
      ksilk == NDiv(NMul(NMul(NMul(Dec(16, -1), P(wb, 52, -2)), P(wm, 73, -2)), NA(One, P(NMul(Dec(104, -1), wm), -95, -2))), c.h)  \* 7
      a1 == NMul(P(NMul(Dec(469, -1), wm), 670, -3), NA(One, P(NMul(Dec(321, -1), wm), -532, -3)))  \* 11
      a2 == NMul(P(NMul(Dec(120, -1), wm), 424, -3), NA(One, P(NMul(Dec(450, -1), wm), -582, -3)))
      alphac == NMul(NPow(a1, NNeg(fb)), NPow(a2, NNeg(NMul(fb, NSq(fb)))))
      b1c == NDiv(Dec(944, -3), NA(One, P(NMul(NInt(458), wm), -708, -3)))                          \* 12
      b2c == P(NMul(Dec(395, -3), wm), -266, -4)
      betac == NDiv(One, NA(One, NMul(b1c, NSub(NPow(fc, b2c), One))))
      y == TLCEval(NDiv(NA(One, zeq), NA(One, zd)))
      x == TLCEval(NSqrt(NA(One, y)))
      G == NMul(y, NA(NMulI(x, -6), NMul(NA(Two, NMulI(y, 3)), NLn(NDiv(NA(x, One), NSub(x, One)))))) \* 15
      alphab == NMul(NMul(NMul(NMul(Dec(207, -2), keq), s), P(NA(One, Rd), -75, -2)), G)            \* 14
      bnode == NMul(Dec(841, -2), P(wm, 435, -3))                                                   \* 23
      betab == NA(NA(Dec(5, -1), fb), NMul(NSub(NInt(3), NMulI(fb, 2)), NSqrt(NA(NSq(NMul(Dec(172, -1), wm)), One)))) \* 24
      alphag == NA(NSub(One, NMul(NMul(Dec(328, -3), NLn(NMul(NInt(431), wm))), fb)),
                   NMul(NMul(Dec(38, -2), NLn(NMul(Dec(223, -1), wm))), NSq(fb)))                   \* 31
  IN TLCEval([fb |-> fb, fc |-> fc, keq |-> keq, s |-> s, ksilk |-> ksilk, alphac |-> alphac, betac |-> betac,
              alphab |-> alphab, betab |-> betab, bnode |-> bnode, alphag |-> alphag, gh |-> NMul(OmM(c), c.h)])

(* 10, 19, 20 *)
TTilde(p, k, alpha, beta) ==
  LET q == NDiv(k, NMul(Dec(1341, -2), p.keq))
      L == NLn(NA(E1, NMul(NMul(Dec(18, -1), beta), q)))
      C == NA(NDiv(Dec(142, -1), alpha), NDiv(NInt(386), NA(One, NMul(Dec(699, -1), P(q, 108, -2)))))
  IN NDiv(L, NA(L, NMul(C, NSq(q))))
NSinc(x) == IF NSgn(x) = 0 THEN One ELSE NDiv(NSin(x), x)
TOsc(p, k) ==
  LET ks == TLCEval(NMul(k, p.s))
      f == NDiv(One, NA(One, NPowI(NDiv(ks, Dec(54, -1)), 4)))                                      \* 18
      Tc == NA(NMul(f, TTilde(p, k, One, p.betac)), NMul(NSub(One, f), TTilde(p, k, p.alphac, p.betac))) \* 17
      st == NDiv(p.s, NPow(NA(One, NPowI(NDiv(p.bnode, ks), 3)), NRat(1, 3)))                       \* 22
      Tb == NMul(NA(NDiv(TTilde(p, k, One, One), NA(One, NSq(NDiv(ks, Dec(52, -1))))),
                    NMul(NDiv(p.alphab, NA(One, NPowI(NDiv(p.betab, ks), 3))), NExp(NNeg(P(NDiv(k, p.ksilk), 14, -1))))),
                 NSinc(NMul(k, st)))                                                                 \* 21
  IN NA(NMul(p.fb, Tb), NMul(p.fc, Tc))                                                              \* 16
TNoWiggle(p, k) ==
  LET g == NMul(p.gh, NA(p.alphag, NDiv(NSub(One, p.alphag), NA(One, NPowI(NMul(NMul(Dec(43, -2), k), p.s), 4))))) \* 30
      q == NDiv(NMul(k, Theta2), g)                                                                  \* 28
      L == NLn(NA(NMulI(E1, 2), NMul(Dec(18, -1), q)))                                               \* 29
      C == NA(Dec(142, -1), NDiv(NInt(731), NA(One, NMul(Dec(625, -1), q))))
  IN NDiv(L, NA(L, NMul(C, NSq(q))))
(* what a caller may supply: any function of cosmology and k; here BBKS-like
   shapes with parameters, evaluated by the same expression in the harness *)
TUser(c, k) == NDiv(One, NA(One, NMul(NDivI(k, 1), NA(NInt(5), NDiv(k, NMul(Dec(2, -2), NMul(OmM(c), c.h)))))))
Transfer(kind, c, p, k) == IF kind = "osc" THEN TOsc(p, k) ELSE IF kind = "nowiggle" THEN TNoWiggle(p, k) ELSE TUser(c, k)

(* variance in spheres of radius R (Mpc/h): int dlnk k^3 P W^2 / 2 pi^2, P = k^n_s T^2 *)
TopHat(x) == NDiv(NMulI(NSub(NSin(x), NMul(x, NCos(x))), 3), NMul(NSq(x), x))
TwoPi2 == NMulI(NSq(Pi), 2)
SigIntegrand(kind, c, p, R, lk) ==
  LET k == NExp(lk)
  IN NMul(NMul(NExp(NMul(NA(c.n_s, NInt(3)), lk)), NSq(Transfer(kind, c, p, k))), NSq(TopHat(NMul(k, R))))
SigmaSq(kind, c, p, R, lo, hi, n) == NDiv(SimpsonInt(LAMBDA lk : SigIntegrand(kind, c, p, R, lk), lo, hi, n), TwoPi2)
LnMin == NMulI(Ln10, -4)
LnMax == NMulI(Ln10, 3)
=============================================================================
