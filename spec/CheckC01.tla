------------------------------ MODULE CheckC01 ------------------------------
(* A history of Workspace replayed on real objects. steps: the history; res:
   results of its calls in order; fresh: results of the same calls on freshly
   built equal objects in another process. *)
EXTENDS Conform
RECURSIVE Walk(_, _, _)
(* depth after the prefix; -1 if it is not a history of the specification *)
Walk(s, j, d) == IF j > Len(s) THEN d
                 ELSE LET d2 == IF s[j].a = "enter" THEN d + 1 ELSE IF s[j].a = "exit" THEN d - 1 ELSE d
                      IN IF d2 < 0 \/ d2 > 3 THEN -1 ELSE Walk(s, j + 1, d2)
(* queries in single precision may differ by its rounding *)
Single(k) == k \in {o \o "." \o f : o \in {"C", "D", "T1", "T2"}, f \in {"chi_single", "nz_single"}}
V(e) ==
  LET calls == SelectSeq(e.steps, LAMBDA x : x.a = "call")
  IN Clause("history of the specification", Walk(e.steps, 1, 0) = 0) \cup
     Clause("every call returned", Len(e.res) = Len(calls)) \cup
     Clause("every call returns what it returns on a fresh object", Len(e.res) = Len(calls) =>
        \A k \in 1..Len(calls) : LET w == e.fresh[calls[k].k]
                                 s == Single(calls[k].k)
                             IN SeqClose(e.res[k], w, Dec(1, IF s THEN -5 ELSE -9), NMul(Dec(1, IF s THEN -6 ELSE -11), NMaxAbs(w))))
=============================================================================
