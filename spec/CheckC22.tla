------------------------------ MODULE CheckC22 ------------------------------
(* base: a quantity with all parameters at their values; moved[p]: the same with
   parameter p alone changed by some ten per cent.  It must have changed exactly
   when the definition reaches p. *)
EXTENDS Deps, Conform
Peak(s) == NMaxAbs(s)
Same(x, y) == Len(x) = Len(y) /\ AllNum(x) /\ \A i \in 1..Len(x) : NLe(NAbs(NSub(x[i], y[i])), NMul(Dec(1, -12), Peak(y)))
Moved(x, y) == Len(x) = Len(y) /\ AllNum(x) /\ \E i \in 1..Len(x) : NLt(NAdd(NMul(Dec(1, -9), NAbs(y[i])), NMul(Dec(1, -13), Peak(y))), NAbs(NSub(x[i], y[i])))
V(e) ==
  LET deps == Reaches(e.quantity, e.mode)
  IN Clause("values are numbers", AllNum(e.base)) \cup
     UNION {IF p \in deps THEN Clause(e.quantity \o " responds to " \o p, Moved(e.moved[p], e.base))
            ELSE Clause(e.quantity \o " does not respond to " \o p, Same(e.moved[p], e.base)) : p \in DOMAIN e.moved}
     \cup Clause("every parameter of the definition was tried", (deps \ {"transfer_fn", "nonlinear_fn"}) \subseteq DOMAIN e.moved)
=============================================================================
