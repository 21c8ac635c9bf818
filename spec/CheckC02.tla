------------------------------ MODULE CheckC02 ------------------------------
(* A history of flatten/rebuild steps generated from Pytree.tla, replayed on a
   real object. The specification folds the history over the parameter values
   (Pytree!Step: only set and transplant change them) and compares:
     leaves   of the final object, per parameter, exactly
     struct   same static configuration as a freshly constructed object
     final    the parameter values the fresh object was constructed with
     conf     the static options the object reports, and those given
     obs      observables, also seen through jit / vmap / grad *)
EXTENDS Conform, Sequences
Fold(e) ==
  FoldLeft(LAMBDA p, s : IF s.s = "set" THEN [p EXCEPT ![s.i] = s.v]
                         ELSE IF s.s = "transplant" THEN s.v ELSE p, e.v0, e.steps)
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : SameList(p[i], q[i])
CloseList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i], b[i], Dec(1,-9), Dec(1,-12))
V(e) ==
  LET w == Fold(e)
  IN Clause("history ends in the constructed parameters", Same(e.final, w)) \cup
     Clause("every parameter is one leaf", e.matched /\ e.nleaves = Len(w)) \cup
     Clause("leaves are the current parameters", Same(e.leaves, w)) \cup
     Clause("same static configuration and structure", e.struct /\ e.stepstruct) \cup
     Clause("static options are those given", Same(e.conf, e.confgiven)) \cup
     Clause("gradients have the structure of the object, leaf by leaf", e.gradok) \cup
     Clause("same observables", CloseList(e.obs, e.fresh)) \cup
     Clause("same observables through " \o e.mode, CloseList(e.seen, e.seenfresh))
=============================================================================
