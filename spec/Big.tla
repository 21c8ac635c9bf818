-------------------------------- MODULE Big --------------------------------
(* Integers of any size, as tuples <<sign, limb_1, ..., limb_n>>: sign is -1,
   0 or 1 and the limbs are base 10^4 digits, least significant first, with
   no zero limb at the top (so the representation is canonical and TLA+
   equality is numeric equality; zero is <<0>>).  TLC's own integers have 32
   bits, which is why the specification brings its own.

   The first element may also be 2 (tag of a non-finite floating-point
   observation, NaN or an infinity); IsNum is FALSE for it and arithmetic
   treats it as zero, so that every specification can be evaluated on every
   observation; the specifications test IsNum explicitly.

   java/Big.java overrides BAdd, BSub, BMul, BDiv and BCmp by java.math
   arithmetic for speed; spec/BigTest.tla checks the two against each other. *)
EXTENDS Integers, Sequences

BASE == 10000

BSign(a) == IF a[1] = 2 THEN 0 ELSE a[1]
IsNum(a) == a[1] # 2
Mag(a) == IF a[1] = 2 THEN <<>> ELSE SubSeq(a, 2, Len(a))

(* ---- magnitudes: sequences of limbs, least significant first ---- *)
RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m)-1)) ELSE m
Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxI(i, j) == IF i > j THEN i ELSE j

RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(m, n, i) == IF i = 0 THEN 0
                     ELSE IF Limb(m, i) > Limb(n, i) THEN 1
                     ELSE IF Limb(m, i) < Limb(n, i) THEN -1
                     ELSE MCmpFrom(m, n, i-1)
MCmp(m, n) == MCmpFrom(m, n, MaxI(Len(m), Len(n)))

RECURSIVE MAddFrom(_, _, _, _, _)
MAddFrom(m, n, i, carry, acc) ==
  IF i > MaxI(Len(m), Len(n)) THEN (IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET s == Limb(m, i) + Limb(n, i) + carry
       IN MAddFrom(m, n, i+1, s \div BASE, Append(acc, s % BASE))
MAdd(m, n) == MAddFrom(m, n, 1, 0, <<>>)

RECURSIVE MSubFrom(_, _, _, _, _)
MSubFrom(m, n, i, borrow, acc) ==            \* m >= n
  IF i > Len(m) THEN Trim(acc)
  ELSE LET d == Limb(m, i) - Limb(n, i) - borrow
       IN MSubFrom(m, n, i+1, IF d < 0 THEN 1 ELSE 0,
                   Append(acc, IF d < 0 THEN d + BASE ELSE d))
MSub(m, n) == MSubFrom(m, n, 1, 0, <<>>)

RECURSIVE MMul1From(_, _, _, _, _)
MMul1From(m, d, i, carry, acc) ==
  IF i > Len(m) THEN Trim(IF carry = 0 THEN acc ELSE Append(acc, carry))
  ELSE LET p == m[i] * d + carry
       IN MMul1From(m, d, i+1, p \div BASE, Append(acc, p % BASE))
MMul1(m, d) == MMul1From(m, d, 1, 0, <<>>)

RECURSIVE MMul(_, _)
MMul(m, n) == IF n = <<>> THEN <<>>
              ELSE LET rest == MMul(m, Tail(n))
                   IN MAdd(MMul1(m, Head(n)), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)

(* largest d in lo..hi with d*n <= m *)
RECURSIVE QDigit(_, _, _, _)
QDigit(m, n, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF MCmp(MMul1(n, mid), m) <= 0 THEN QDigit(m, n, mid, hi)
          ELSE QDigit(m, n, lo, mid-1)

RECURSIVE MDivFrom(_, _, _, _, _)
MDivFrom(m, n, i, rem, acc) ==
  IF i = 0 THEN Trim(acc)
  ELSE LET r == Trim(<<m[i]>> \o rem)
           d == QDigit(r, n, 0, BASE-1)
       IN MDivFrom(m, n, i-1, MSub(r, MMul1(n, d)), <<d>> \o acc)
MDiv(m, n) == MDivFrom(m, n, Len(m), <<>>, <<>>)

(* ---- signed integers ---- *)
Mk(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
BNeg(a) == IF BSign(a) = 0 THEN <<0>> ELSE <<-a[1]>> \o Tail(a)
BAbs(a) == IF BSign(a) = 0 THEN <<0>> ELSE <<1>> \o Tail(a)

BAdd(a, b) ==
  IF BSign(a) = 0 THEN Mk(BSign(b), Mag(b))
  ELSE IF BSign(b) = 0 THEN a
  ELSE IF a[1] = b[1] THEN Mk(a[1], MAdd(Mag(a), Mag(b)))
  ELSE LET c == MCmp(Mag(a), Mag(b))
       IN IF c = 0 THEN <<0>>
          ELSE IF c > 0 THEN Mk(a[1], MSub(Mag(a), Mag(b)))
          ELSE Mk(b[1], MSub(Mag(b), Mag(a)))
BSub(a, b) == BAdd(a, BNeg(b))
BMul(a, b) == Mk(BSign(a) * BSign(b), MMul(Mag(a), Mag(b)))
(* quotient rounded towards zero; division by zero is zero (total) *)
BDiv(a, b) == IF BSign(b) = 0 THEN <<0>>
              ELSE Mk(BSign(a) * BSign(b), MDiv(Mag(a), Mag(b)))
BCmp(a, b) ==
  IF BSign(a) # BSign(b) THEN (IF BSign(a) > BSign(b) THEN 1 ELSE -1)
  ELSE BSign(a) * MCmp(Mag(a), Mag(b))

(* from a TLC integer *)
RECURSIVE IntLimbs(_)
IntLimbs(i) == IF i = 0 THEN <<>> ELSE <<i % BASE>> \o IntLimbs(i \div BASE)
BInt(i) == IF i = 0 THEN <<0>> ELSE IF i > 0 THEN <<1>> \o IntLimbs(i)
           ELSE <<-1>> \o IntLimbs(-i)
=============================================================================
