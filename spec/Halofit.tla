------------------------------- MODULE Halofit -------------------------------
(* halofit: a tabulated linear spectrum today is a sequence g of Simpson
   weights times k^3 P(k)/2 pi^2 at wavenumbers ks (log-spaced); D is growth. *)
EXTENDS Power

(* n even intervals of width h in ln k *)
Weigh(ks, ps, h) ==
  LET n == Len(ks) - 1
      w(j) == IF j = 1 \/ j = n+1 THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2
  IN TLCEval([j \in 1..(n+1) |-> NDiv(NDivI(NMulI(NMul(h, NMul(NPowI(ks[j], 3), ps[j])), w(j)), 3), TwoPi2)])
(* sum_j g_j exp(-k_j^2 R^2) m(k_j^2 R^2); the exponential vanishes for y > 100 *)
Moment(ks, g, R, m(_)) ==
  FoldLeft(LAMBDA acc, j : LET y == NSq(NMul(ks[j], R))
                           IN IF NLt(NInt(100), y) THEN acc ELSE NAdd(acc, NMul(NMul(g[j], NExp(NNeg(y))), m(y))),
           Zero, [j \in 1..Len(ks) |-> j])
SigG(ks, g, D, R) == NMul(NSq(D), Moment(ks, g, R, LAMBDA y : One))
(* -dln sigma^2/dln R - 3 and -d^2 ln sigma^2 / dln R^2 where sigma = 1 *)
Neff(ks, g, D, R) == NSub(NMul(NSq(D), Moment(ks, g, R, LAMBDA y : NMulI(y, 2))), NInt(3))
Curv(ks, g, D, R) == NAdd(NSq(NAdd(Neff(ks, g, D, R), NInt(3))),
                          NMul(NSq(D), Moment(ks, g, R, LAMBDA y : NMulI(NSub(y, NSq(y)), 4))))
(* sigma is decreasing in R: bisection in ln R *)
RECURSIVE Bisect(_, _, _, _, _, _)
Bisect(ks, g, D, lo, hi, fuel) ==
  LET mid == NDivI(NAdd(lo, hi), 2)
  IN IF fuel = 0 THEN NExp(mid)
     ELSE IF NLt(One, SigG(ks, g, D, NExp(mid))) THEN Bisect(ks, g, D, mid, hi, fuel-1) ELSE Bisect(ks, g, D, lo, mid, fuel-1)
RNL(ks, g, D) == Bisect(ks, g, D, NMulI(Ln10, -4), Ln10, 24)

T10(x) == NExp(NMul(Ln10, x))
PolyN(cs, n) == FoldLeft(LAMBDA acc, x : NAdd(NMul(acc, n), Dec(x, -4)), Zero, Reverse(cs))
Coeffs(presc, n, C, omde, w) ==
  LET C1(x) == NMul(Dec(x, -4), C)
      W1(x) == NMul(NMul(Dec(x, -4), omde), NAdd(One, w))
  IN IF presc = "smith2003" THEN
       [a |-> T10(NAdd(PolyN(<<14861, 18369, 16762, 7940, 1670>>, n), C1(-6206))),
        b |-> T10(NAdd(PolyN(<<9463, 9466, 3084>>, n), C1(-9400))),
        c |-> T10(NAdd(PolyN(<<-2807, 6669, 3214>>, n), C1(-793))),
        gamma |-> NAdd(PolyN(<<8649, 2989>>, n), C1(1631)),
        alpha |-> PolyN(<<13884, 3700, -1452>>, n),
        beta |-> PolyN(<<8291, 9854, 3401>>, n),
        mu |-> T10(PolyN(<<-35442, 1908>>, n)),
        nu |-> T10(PolyN(<<9585, 12857>>, n))]
     ELSE
       [a |-> T10(NAdd(NAdd(PolyN(<<15222, 28553, 23706, 9903, 2250>>, n), C1(-6038)), W1(1749))),
        b |-> T10(NAdd(NAdd(PolyN(<<-5642, 5864, 5716>>, n), C1(-15474)), W1(2279))),
        c |-> T10(NAdd(PolyN(<<3698, 20404, 8161>>, n), C1(5869))),
        gamma |-> NAdd(PolyN(<<1971, -843>>, n), C1(8460)),
        alpha |-> NAbs(NAdd(PolyN(<<60835, 13373, -1959>>, n), C1(-55274))),
        beta |-> NAdd(PolyN(<<20379, -7354, 3157, 12490, 3980>>, n), C1(-1682)),
        mu |-> Zero,
        nu |-> T10(PolyN(<<52105, 36902>>, n))]
FExp(presc, c, a) ==
  LET m == OmMA(c, a)
      frac == NDiv(OmDEA(c, a), NSub(One, m))
      mix(x, y) == NAdd(NMul(frac, NPow(m, Dec(y, -4))), NMul(NSub(One, frac), NPow(m, Dec(x, -4))))
  IN IF presc = "smith2003" THEN <<mix(-732, -307), mix(-1423, -585), mix(725, 743)>>
     ELSE <<NPow(m, Dec(-307, -4)), NPow(m, Dec(-585, -4)), NPow(m, Dec(743, -4))>>
(* non-linear power at k, from the linear power pl there, the non-linear
   radius R and the index n and curvature C of the variance *)
PNL(presc, c, a, k, pl, R, n, C) ==
  LET q == Coeffs(presc, n, C, OmDEA(c, a), W(c, a))
      f == FExp(presc, c, a)
      y == NMul(k, R)
      d2l == NDiv(NMul(NPowI(k, 3), pl), TwoPi2)
      fy == NAdd(NDivI(y, 4), NDivI(NSq(y), 8))
      d2q == NMul(NMul(d2l, NDiv(NPow(NAdd(One, d2l), q.beta), NAdd(One, NMul(q.alpha, d2l)))), NExp(NNeg(fy)))
      d2hp == NDiv(NMul(q.a, NPow(y, NMulI(f[1], 3))),
                   NAdd(NAdd(One, NMul(q.b, NPow(y, f[2]))), NPow(NMul(NMul(q.c, f[3]), y), NSub(NInt(3), q.gamma))))
      d2h == NDiv(d2hp, NAdd(NAdd(One, NDiv(q.mu, y)), NDiv(q.nu, NSq(y))))
  IN NDiv(NMul(TwoPi2, NAdd(d2q, d2h)), NPowI(k, 3))
=============================================================================
