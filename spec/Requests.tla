------------------------------ MODULE Requests ------------------------------
(* Which requests the library supports (property C21). A request is a record;
   Supported is the documented decision. TLC enumerates the requests; every
   one is put to the implementation eagerly and under jit: it must raise
   exactly when the request is not supported. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Dims == 1..3
Shape(n) == [1..n -> Dims]
BinKinds == {"smail", "kde", "shift", "delta"}
SeqsOf(S, m, n) == UNION {[1..j -> S] : j \in m..n}

Simps == {[f |-> "simps", n |-> n] : n \in (1..20) \cup {63, 64, 255, 256, 257}}
Romb == {}
Spline == {[f |-> "spline", k |-> k, nx |-> nx, ny |-> ny, ep |-> ep, xd |-> xd, yd |-> yd] :
             k \in -1..5, nx \in 1..6, ny \in 1..7, ep \in {"natural", "not-a-knot"}, xd \in {1, 2}, yd \in {1, 2}}
SplineOK(r) == r.ny \in {r.nx - 1, r.nx, r.nx + 1} /\ (r.xd + r.yd > 2 => r.nx = r.ny /\ r.nx \in {2, 5})
Deriv == {[f |-> "derivative", k |-> k, n |-> n] : k \in 1..3, n \in 0..6}
Unary == {[f |-> "unary", op |-> op, s |-> s] : op \in {"to_dense", "inv", "det", "slogdet"}, s \in SeqsOf(Dims, 1, 4)}
Dot2 == {[f |-> "dot2", a |-> a, b |-> b] : a \in SeqsOf(Dims, 1, 4), b \in SeqsOf(Dims, 1, 4)}
Dot3 == {[f |-> "dot3", a |-> a, b |-> b, c |-> c] : a \in SeqsOf({1, 2, 4, 6}, 1, 2), b \in SeqsOf({1, 2, 3}, 2, 3), c \in SeqsOf({1, 2, 4, 6}, 1, 2)}
DotN == {[f |-> "dotn", n |-> n] : n \in 0..6}
Transfer == {[f |-> "transfer", type |-> t, via |-> v] : t \in {"eisenhu", "eisenhu_osc", "", "Eisenhu", "eisenhu_nowiggle", "eisenhu-osc", "bbks", "EH"}, v \in {"direct", "linear", "nonlinear"}}
Halofit == {[f |-> "halofit", p |-> p, via |-> v] : p \in {"takahashi2012", "smith2003", "", "Takahashi2012", "takahashi", "smith", "mead2020"}, v \in {"direct", "wrapper"}}
Like == {[f |-> "likelihood", m |-> m, sparse |-> s, logdet |-> l] : m \in {"inverse", "cholesky", "", "Cholesky", "inv", "lu"}, s \in BOOLEAN, l \in BOOLEAN}
Kernel == {[f |-> "kernel", probe |-> p, bins |-> b, via |-> v] :
             p \in {"clustering", "clustering per bin", "lensing", "lensing IA", "lensing IA per bin"}, b \in SeqsOf(BinKinds, 1, 3), v \in {"kernel", "cl"}}

Prod2(s, i, j) == s[i] * s[j]
Cols(s) == IF Len(s) = 3 THEN s[2]*s[3] ELSE s[Len(s)]
Rows(s) == IF Len(s) = 3 THEN s[1]*s[3] ELSE s[1]

Supported(r) ==
  CASE r.f = "simps" -> r.n % 2 = 0
    [] r.f = "spline" -> r.k \in 1..3 /\ r.nx = r.ny /\ r.xd = 1 /\ r.yd = 1 /\ r.nx > r.k /\ ~(r.k = 2 /\ r.ep = "natural")
    [] r.f = "derivative" -> r.n <= r.k
    [] r.f = "unary" -> Len(r.s) = 3 /\ (r.op # "to_dense" => r.s[1] = r.s[2])
    [] r.f = "dot2" -> Len(r.a) <= 3 /\ Len(r.b) <= 3 /\ Cols(r.a) = Rows(r.b) /\ (Len(r.a) = 3 /\ Len(r.b) = 3 => r.a[3] = r.b[3])
    [] r.f = "dot3" -> Len(r.a) = 2 /\ Len(r.b) = 3 /\ Len(r.c) = 2 /\ r.a[2] = Rows(r.b) /\ Cols(r.b) = r.c[1]
    [] r.f = "dotn" -> r.n \in {2, 3}
    [] r.f = "transfer" -> r.type \in {"eisenhu", "eisenhu_osc"}
    [] r.f = "halofit" -> r.p \in {"takahashi2012", "smith2003"}
    [] r.f = "likelihood" -> r.sparse \/ r.m \in {"inverse", "cholesky"}
    [] r.f = "kernel" -> r.probe = "lensing" \/ \A i \in 1..Len(r.bins) : r.bins[i] # "delta"

(* products of two dense operands are outside what dot() is for *)
Relevant(r) == CASE r.f = "spline" -> SplineOK(r)
                 [] r.f = "dot2" -> (Len(r.a) = 3 \/ Len(r.b) = 3)
                 [] r.f = "unary" -> TRUE
                 [] OTHER -> TRUE

Requests == Simps \cup Deriv \cup DotN \cup Unary \cup Transfer \cup Halofit \cup Like \cup Kernel \cup {r \in Spline : Relevant(r)}
            \cup {r \in Dot2 : Relevant(r)} \cup Dot3
=============================================================================
