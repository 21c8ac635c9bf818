------------------------------ MODULE CheckC04 ------------------------------
(* One computation at one parameter set, reduced to a number by fixed weights
   (every component weighted by the inverse of its size): for every sampled
   parameter the value at nine equally spaced points (F, step h), and what
   forward and reverse mode returned. *)
EXTENDS Derivative, Conform
Leaf(e, l) ==
  LET d == D8(l.F, l.h)
      finite == l.fwd # <<2>> /\ l.rev # <<2>>
  IN Clause("derivative of " \o e.op \o " is finite (" \o l.name \o ")", finite) \cup
     Clause("forward and reverse mode agree for " \o e.op \o " (" \o l.name \o ")", finite => NClose(l.fwd, l.rev, Dec(1,-8), NMul(e.scale, Dec(1,-9)))) \cup
     Clause("derivative of " \o e.op \o " is the limit of differences (" \o l.name \o ")",
            finite => (Resolved(l.F, l.h, e.scale) => NLe(NAbs(NSub(l.rev, d)), Tol(l.F, l.h, e.scale, e.tables)))) \cup
     Clause(e.op \o " has a derivative (" \o l.name \o ")", ~e.sharp => ~Kinked(l.F, l.h, e.scale))
V(e) == Clause("all derivatives of " \o e.op \o " are finite", e.allfinite) \cup
        UNION {Leaf(e, e.leaves[i]) : i \in 1..Len(e.leaves)}
=============================================================================
