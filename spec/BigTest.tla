------------------------------ MODULE BigTest ------------------------------
(* Self-test of the arithmetic.  Run twice by checks/run.py selftest: once
   with and once without the Java overrides; the printed values must agree,
   and agree with the algebraic identities asserted here. *)
EXTENDS Num
vals == << BInt(0), BInt(1), BInt(-1), BInt(9999), BInt(10000), BInt(-10001), BInt(123456789),
           <<1,9999,9999,9999,9999,9999>>, <<-1,1,0,0,0,0,1>>, <<1,0,0,0,5>>, <<-1,5678,1234,9,9999,1>>, <<2>> >>
I == 1..Len(vals)
ASSUME \A i, j \in I :
  LET a == vals[i]  b == vals[j]
  IN /\ BAdd(a,b) = BAdd(b,a)
     /\ IsNum(a) => BSub(BAdd(a,b),b) = a
     /\ BMul(a,b) = BMul(b,a)
     /\ BCmp(a,b) = -BCmp(b,a)
     /\ BSign(b) # 0 => LET q == BDiv(a,b) r == BSub(a, BMul(q,b))
                        IN BCmp(BAbs(r), BAbs(b)) < 0 /\ (BSign(r) = 0 \/ BSign(r) = BSign(a))
ASSUME \A i, j \in I : PrintT(<<"B", i, j, BAdd(vals[i],vals[j]), BSub(vals[i],vals[j]), BMul(vals[i],vals[j]), BDiv(vals[i],vals[j]), BCmp(vals[i],vals[j])>>)
(* elementary functions: identities to 36 digits *)
tol == Dec(1,-36)
xs == << NRat(1,3), NRat(-7,5), NRat(5,2), NRat(12,1), NRat(1,100000) >>
ASSUME \A i \in 1..Len(xs) : LET x == xs[i] IN
  /\ NClose(NLn(NExp(x)), x, tol, tol)
  /\ NClose(NMul(NExp(x), NExp(NNeg(x))), One, tol, tol)
  /\ NClose(NAdd(NSq(NSin(x)), NSq(NCos(x))), One, tol, tol)
  /\ NClose(NSin(NMulI(x,2)), NMulI(NMul(NSin(x),NCos(x)),2), tol, tol)
  /\ NClose(NSq(NSqrt(NAbs(x))), NAbs(x), tol, tol)
  /\ NClose(NSin(NAdd(x, NMulI(Pi,2))), NSin(x), tol, tol)
ASSUME NClose(NSin(NDivI(Pi,6)), NRat(1,2), tol, tol)
ASSUME NClose(NPow(NInt(2), NRat(1,2)), NSqrt(NInt(2)), tol, tol)
ASSUME NClose(NExp(One), Dec(271828182, -8), Dec(1,-8), Zero)
ASSUME \A i \in 1..Len(xs) : PrintT(<<"F", i, NExp(xs[i]), NLn(NAbs(xs[i])), NSin(xs[i]), NCos(xs[i]), NPow(NAbs(xs[i]), xs[2]), NLn(NExp(xs[i])), NSin(NMulI(xs[i], 1000)), NSqrt(NAbs(xs[i])), NMul(xs[i],xs[1]), NDiv(xs[i],xs[2])>>)
ASSUME PrintT(<<"D", NDot(<<NRat(1,3),NRat(-2,7)>>, <<NInt(5), NRat(1,9)>>), NRat(-1,3), UnShift(BMul(NRat(1,3),NRat(-1,3)),FL)>>)
=============================================================================
