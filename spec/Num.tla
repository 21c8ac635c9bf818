-------------------------------- MODULE Num --------------------------------
(* Real numbers to 40 decimal places: a Num is a Big integer in units of
   10^-40 (ten limbs).  Products and quotients round towards zero; the
   elementary functions are defined here, from their series, so that the
   physics in this specification does not rest on any library outside it.
   java/Num.java overrides the arithmetic and elementary operators with the
   same algorithms in java.math (BigTest.tla compares them digit by digit). *)
EXTENDS Big, FiniteSets, TLC, SequencesExt

FL == 10                                        \* fractional limbs
Shift(a, k) == IF BSign(a) = 0 THEN <<0>>       \* a * BASE^k
               ELSE <<a[1]>> \o [i \in 1..k |-> 0] \o Tail(a)
UnShift(a, k) == IF Len(a) - 1 <= k THEN <<0>>  \* a / BASE^k towards zero
                 ELSE <<a[1]>> \o SubSeq(a, k + 2, Len(a))

Zero == <<0>>
NInt(i) == Shift(BInt(i), FL)
One == NInt(1)
Two == NInt(2)

NAdd(a, b) == BAdd(a, b)
NSub(a, b) == BSub(a, b)
NNeg(a) == BNeg(a)
NAbs(a) == BAbs(a)
NMul(a, b) == UnShift(BMul(a, b), FL)
NDiv(a, b) == BDiv(Shift(a, FL), b)
NCmp(a, b) == BCmp(a, b)
NLt(a, b) == BCmp(a, b) < 0
NLe(a, b) == BCmp(a, b) <= 0
NEq(a, b) == BCmp(a, b) = 0
NMax(a, b) == IF NLt(a, b) THEN b ELSE a
NMin(a, b) == IF NLt(a, b) THEN a ELSE b
NSgn(a) == BSign(a)

RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN BInt(1) ELSE BMul(BInt(10), Pow10(e-1))
(* the decimal m * 10^e *)
Dec(m, e) == IF e >= 0 THEN BMul(NInt(m), Pow10(e)) ELSE BDiv(NInt(m), Pow10(-e))
NRat(p, q) == BDiv(NInt(p), BInt(q))
NMulI(a, i) == BMul(a, BInt(i))                 \* times a small integer
NDivI(a, i) == BDiv(a, BInt(i))
NSq(a) == NMul(a, a)

NSum(s) == FoldLeft(NAdd, Zero, s)
DotFrom(s, t) == FoldLeft(LAMBDA acc, i : BAdd(acc, BMul(s[i], t[i])), Zero, [i \in 1..Len(s) |-> i])
(* sum_i s_i t_i, rounded once *)
NDot(s, t) == UnShift(DotFrom(s, t), FL)

(* |x - y| <= atol + rtol |y|, both finite *)
NClose(x, y, rtol, atol) ==
  /\ IsNum(x) /\ IsNum(y)
  /\ NLe(NAbs(NSub(x, y)), NAdd(atol, NMul(rtol, NAbs(y))))
AllNum(s) == \A i \in 1..Len(s) : IsNum(s[i])
SeqClose(s, t, rtol, atol) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s) : NClose(s[i], t[i], rtol, atol)
NMaxAbs(s) == FoldLeft(LAMBDA m, x : NMax(m, NAbs(x)), Zero, s)

RECURSIVE NPowI(_, _)
NPowI(a, n) == IF n = 0 THEN One                \* integer powers, n may be negative
               ELSE IF n < 0 THEN NDiv(One, NPowI(a, -n))
               ELSE LET h == NPowI(a, n \div 2)
                    IN IF n % 2 = 0 THEN NMul(h, h) ELSE NMul(NMul(h, h), a)

(* ---- square root: Newton on integers, from a power-of-base guess ---- *)
RECURSIVE ISqrtIt(_, _, _)
ISqrtIt(n, x, fuel) == LET y == BDiv(BAdd(x, BDiv(n, x)), BInt(2))
                       IN IF fuel = 0 \/ BCmp(y, x) >= 0 THEN x ELSE ISqrtIt(n, y, fuel-1)
NSqrt(a) == IF NSgn(a) <= 0 THEN Zero
            ELSE LET n == Shift(a, FL)
                     g == <<1>> \o [i \in 1..((Len(n) \div 2) + 1) |-> 0] \o <<1>>
                 IN ISqrtIt(n, g, 200)

(* ---- exponential: halve the argument 12 times, Taylor, square back ---- *)
RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(x, n, t, acc) == IF BSign(t) = 0 THEN acc
                          ELSE ExpTerms(x, n+1, NDivI(NMul(t, x), n), BAdd(acc, t))
RECURSIVE SqTimes(_, _)
SqTimes(y, n) == IF n = 0 THEN y ELSE SqTimes(NMul(y, y), n-1)
ExpRed(x, h) == SqTimes(ExpTerms(NDivI(x, 2^h), 1, One, Zero), h)
(* large negative arguments through the reciprocal keep relative accuracy *)
NExp(x) == IF NSgn(x) < 0 THEN NDiv(One, ExpRed(NNeg(x), 8)) ELSE ExpRed(x, 8)

(* ---- logarithm: x = m 2^k, then 2 artanh((m-1)/(m+1)) ---- *)
RECURSIVE AtanhTerms(_, _, _, _)
AtanhTerms(y2, n, t, acc) == IF BSign(t) = 0 THEN acc
                             ELSE AtanhTerms(y2, n+2, NMul(t, y2), BAdd(acc, NDivI(t, n)))
LnNear(m) == LET y == NDiv(NSub(m, One), NAdd(m, One))
             IN NMulI(AtanhTerms(NSq(y), 1, y, Zero), 2)
Ln2 == LnNear(Two)
RECURSIVE LnRed(_, _)
LnRed(x, k) == IF NLt(NRat(4,3), x) THEN LnRed(NDivI(x, 2), k+1)
               ELSE IF NLt(x, NRat(2,3)) THEN LnRed(NMulI(x, 2), k-1)
               ELSE NAdd(LnNear(x), NMulI(Ln2, k))
NLn(x) == IF NSgn(x) <= 0 THEN Zero ELSE LnRed(x, 0)      \* total
NPow(x, y) == IF NSgn(y) = 0 THEN One ELSE IF NSgn(x) <= 0 THEN Zero ELSE NExp(NMul(y, NLn(x)))

(* ---- trigonometric and hyperbolic: Taylor after dividing by 2^h ---- *)
RECURSIVE SinTerms(_, _, _, _)
SinTerms(x2, n, t, acc) == IF BSign(t) = 0 THEN acc   \* t (-1)^j x^n/n!
                           ELSE SinTerms(x2, n+2, NNeg(NDivI(NMul(t, x2), (n+1)*(n+2))), BAdd(acc, t))
(* argument reduction by 2 pi (40-digit pi: fine for |x| up to 10^6) *)
Pi == <<1, 1971, 2884, 7950, 3832, 2643, 3846, 7932, 3589, 9265, 1415, 3>>  \* 3.1415926535897932384626433832795028841971
TwoPi == NMulI(Pi, 2)
FloorDivI(x, y) == LET q == BDiv(x, y)                 \* floor for signed
                   IN IF BSign(x) < 0 /\ BCmp(BMul(q, y), x) # 0 THEN BSub(q, BInt(1)) ELSE q
ModTwoPi(x) == BSub(x, BMul(FloorDivI(x, TwoPi), TwoPi))
NSin(x) == LET r == ModTwoPi(x) IN SinTerms(NSq(r), 1, r, Zero)
NCos(x) == LET r == ModTwoPi(x) IN SinTerms(NSq(r), 0, One, Zero)
NSinh(x) == NDivI(NSub(NExp(x), NExp(NNeg(x))), 2)
=============================================================================
