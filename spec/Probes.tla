-------------------------------- MODULE Probes --------------------------------
(* Redshift distributions, galaxy bias, probe kernels and noise.
   A distribution is a record: kind, and
     smail: p = <<a, b, z0>>     kde: zc, w (sequences), bw
     shift: parent, bias         delta: z0        all: zmax, n (per arcmin^2)  *)
EXTENDS Cosmo

RECURSIVE Pz(_, _)
Pz(d, z) ==
  CASE d.kind = "smail" -> IF NSgn(z) <= 0 THEN Zero ELSE NMul(NPow(z, d.p[1]), NExp(NNeg(NPow(NDiv(z, d.p[3]), d.p[2]))))
    [] d.kind = "kde" -> LET g(i) == NExp(NNeg(NDivI(NSq(NDiv(NSub(z, d.zc[i]), d.bw)), 2)))
                         IN NDiv(NDot(d.w, [i \in 1..Len(d.zc) |-> g(i)]), NMul(NMul(NSum(d.w), d.bw), NSqrt(TwoPi)))
    [] d.kind = "shift" -> Pz(d.parent, NMax(NSub(z, d.bias), Zero))
PzInt(d, n) == SimpsonInt(LAMBDA z : Pz(d, z), Zero, d.zmax, n)
(* integral over 0..b of values tabulated on an even number of equal cells *)
SimpsonInt0(ys, b) ==
  LET N == Len(ys) - 1
  IN NDivI(NMul(b, FoldLeft(LAMBDA acc, j : NAdd(acc, NMulI(ys[j], IF j = 1 \/ j = N+1 THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2)), Zero, [j \in 1..(N+1) |-> j])), 3*N)
Arcmin2PerSr == NSq(NDiv(NInt(10800), Pi))

(* bias: kind const <<b>>, invgrowth <<b>>, des <<A, eta, z0>>; D = growth at z *)
Bias(b, z, D) == CASE b.kind = "const" -> b.p[1]
                   [] b.kind = "invgrowth" -> NDiv(b.p[1], D)
                   [] b.kind = "des" -> NMul(b.p[1], NPow(NDiv(NAdd(One, z), NAdd(One, b.p[3])), b.p[2]))
(* sqrt((l+2)!/(l-2)!)/(l+1/2)^2 *)
EllFactor(l) == NDiv(NSqrt(NMul(NMul(NSub(l, One), l), NMul(NAdd(l, One), NAdd(l, Two)))), NSq(NAdd(l, Dec(5, -1))))
LensConst(c) == NDiv(NMulI(NMul(NSq(H0), OmM(c)), 3), NMulI(CLight, 2))
(* q: mean lensing efficiency of the sources *)
LensKernel(c, l, z, chi, q) == NMul(NMul(LensConst(c), EllFactor(l)), NMul(NMul(NAdd(One, z), chi), q))
Efficiency(chi, chip) == IF NLe(chip, chi) THEN Zero ELSE NSub(One, NDiv(chi, chip))
DensKernel(c, z, b, nz) == NMul(NMul(b, nz), Hubble(c, NDiv(One, NAdd(One, z))))
RhoCrit == NMul(Dec(2775, -3), NPowI(NInt(10), 11))
NLAKernel(c, l, z, b, nz, D) ==
  NNeg(NMul(NMul(NMul(NMul(Dec(5, -14), RhoCrit), OmM(c)), EllFactor(l)), NDiv(DensKernel(c, z, b, nz), D)))
=============================================================================
