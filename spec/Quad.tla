-------------------------------- MODULE Quad --------------------------------
(* Quadrature and Runge-Kutta: the semantics of jax_cosmo.scipy.integrate and
   jax_cosmo.scipy.ode, over Nums. *)
EXTENDS Num

(* c[1] + c[2] x + c[3] x^2 + ... *)
Poly(c, x) == FoldLeft(LAMBDA acc, j : NAdd(NMul(acc, x), c[Len(c) + 1 - j]), Zero, [j \in 1..Len(c) |-> j])

(* the integrands used to observe the implementation; c are parameters *)
Fun(kind, c, x) ==
  CASE kind = "poly"  -> Poly(c, x)
    [] kind = "exp"   -> NMul(c[1], NExp(NMul(c[2], x)))
    [] kind = "sin"   -> NMul(c[1], NSin(NMul(c[2], x)))
    [] kind = "ratio" -> NDiv(c[1], NAdd(NAbs(c[2]), NMul(x, x)))

(* antiderivative difference of a polynomial *)
PolyInt(c, a, b) ==
  LET p == <<Zero>> \o [j \in 1..Len(c) |-> NDivI(c[j], j)]
  IN NSub(Poly(p, b), Poly(p, a))

Grid(a, b, N) == [j \in 1..(N+1) |-> NAdd(a, NDivI(NMulI(NSub(b, a), j-1), N))]

(* composite Simpson sum of ordinates y on an even number of intervals *)
SimpsonW(j, N) == IF j = 1 \/ j = N+1 THEN 1 ELSE IF j % 2 = 0 THEN 4 ELSE 2
SimpsonSum(y, a, b) ==
  LET N == Len(y) - 1
      s == FoldLeft(LAMBDA acc, j : BAdd(acc, BMul(y[j], BInt(SimpsonW(j, N)))), Zero, [j \in 1..(N+1) |-> j])
  IN NDivI(NMul(NSub(b, a), s), 3*N)
Simpson(kind, c, a, b, N) ==
  LET x == TLCEval(Grid(a, b, N))
  IN SimpsonSum(TLCEval([j \in 1..(N+1) |-> Fun(kind, c, x[j])]), a, b)

(* trapezoid rule on 2^i intervals *)
Trap(kind, c, a, b, n) ==
  LET x == TLCEval(Grid(a, b, n))
      s == FoldLeft(LAMBDA acc, j : NAdd(acc, LET y == Fun(kind, c, x[j]) IN IF j = 1 \/ j = n+1 THEN NDivI(y, 2) ELSE y),
                    Zero, [j \in 1..(n+1) |-> j])
  IN NDivI(NMul(NSub(b, a), s), n)
(* Romberg tableau: row 0 = <<T(1)>>; row i = <<T(2^i), R(i,1), ..., R(i,i)>> with
   R(i,k) = (4^k R(i,k-1) - R(i-1,k-1)) / (4^k - 1) *)
RowNext(prev, t) ==
  FoldLeft(LAMBDA row, k : Append(row,
             BDiv(BSub(BMul(row[k], BInt(4^k)), prev[k]), BInt(4^k - 1))),
           <<t>>, [k \in 1..Len(prev) |-> k])
RECURSIVE RombRow(_, _, _, _, _)
RombRow(kind, c, a, b, i) ==
  IF i = 0 THEN <<Trap(kind, c, a, b, 1)>>
  ELSE LET prev == TLCEval(RombRow(kind, c, a, b, i-1))
       IN RowNext(prev, TLCEval(Trap(kind, c, a, b, 2^i)))
Romberg(kind, c, a, b, m) == RombRow(kind, c, a, b, m)[m+1]
RombergErr(kind, c, a, b, m) ==
  NAbs(NSub(RombRow(kind, c, a, b, m)[m+1], RombRow(kind, c, a, b, m-1)[m]))

(* scale of an integral, for relative comparison *)
QScale(kind, c, a, b, N) ==
  LET x == TLCEval(Grid(a, b, N))
  IN NMul(NAbs(NSub(b, a)), NMaxAbs([j \in 1..(N+1) |-> Fun(kind, c, x[j])]))

(* ------------------------------------------------------------------------ *)
(* one classical Runge-Kutta step of y' = F(rhs, y, t), y a sequence          *)
VAdd(u, v) == [j \in 1..Len(u) |-> NAdd(u[j], v[j])]
VMul(s, u) == [j \in 1..Len(u) |-> NMul(s, u[j])]
(* right-hand sides: parameters in r *)
Rhs(r, y, t) ==
  CASE r.kind = "time"   -> <<Poly(r.c, t)>>                    \* y' = p(t)
    [] r.kind = "linear" -> [j \in 1..Len(y) |-> NAdd(NDot(r.A[j], y), NMul(r.v[j], t))]  \* y' = A y + v t
    [] r.kind = "logistic" -> [j \in 1..Len(y) |-> NMul(r.c[j], NMul(y[j], NSub(One, y[j])))]
    [] r.kind = "mixed" -> [j \in 1..Len(y) |-> NAdd(NMul(r.c[j], NMul(t, y[j])), r.v[j])]
RK4Step(r, y, t0, t1) ==
  LET h == NSub(t1, t0)
      hh == NDivI(h, 2)
      tm == NAdd(t0, hh)
      k1 == TLCEval(Rhs(r, y, t0))
      k2 == TLCEval(Rhs(r, TLCEval(VAdd(y, VMul(hh, k1))), tm))
      k3 == TLCEval(Rhs(r, TLCEval(VAdd(y, VMul(hh, k2))), tm))
      k4 == TLCEval(Rhs(r, TLCEval(VAdd(y, VMul(h, k3))), t1))
  IN TLCEval([j \in 1..Len(y) |->
       NAdd(y[j], NDivI(NMul(h, NAdd(NAdd(k1[j], k4[j]), NMulI(NAdd(k2[j], k3[j]), 2))), 6))])
=============================================================================
