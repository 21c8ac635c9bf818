------------------------------ MODULE Workspace ------------------------------
(* Objects with precomputed tables, used across nested tracing scopes.

   A behaviour is a history of: enter a scope (jit, grad, vmap or loop body),
   call a function on an object, leave the scope. Objects: "C" and "D" are
   built once outside every scope (and are nearly, or partly, equal); "T1",
   "T2" are rebuilt from the argument of the scope at depth 1, 2 when it is
   entered.

   What must hold (property C01): the value of a call is a function of object,
   function and options only (Transparent), and no call ever touches a value
   created in a scope that has ended (NoDeadRead).

   The implementation is abstracted by its caching policy. Any intermediate
   result a function needs may be kept (the repository keeps distance, growth
   and norm; what is never kept is trivially transparent):
     KeyHasOptions   tables are filed under name and options
     KeepTraced      tables created while tracing stay in the workspace
     CrossObject     (control) tables made while tracing are filed under no owner
     SharedTables    (control) objects that nearly agree share one workspace
   The repository's policy is KeyHasOptions and none of the others. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS KeyHasOptions, KeepTraced, MaxCalls, MaxDepth, MaxRun, Kinds, Fns, Emit, CrossObject, SharedTables, Themed, Frugal

(* intermediate results behind each function *)
Tables(f) == CASE f \in {"chi", "chi_coarse", "chi_short", "chi_single", "aofchi", "trans"} -> {"distance"}
               [] f \in {"growth", "rate"} -> {"growth"}
               [] f \in {"power", "eisenhu"} -> {"growth", "variance"}
               [] f \in {"sigma8", "sigma1"} -> {"variance"}
               [] f \in {"nonlin", "nonlin_linear"} -> {"growth", "variance", "scales"}
               [] f \in {"nz", "nz_single"} -> {"norm", "weights"}   \* "weights": kept by the distribution itself, kernels rebuild it
               [] f \in {"kernel", "wl", "wl_ell", "nc", "nc_ell", "wl_other"} -> {"distance", "growth", "norm", "efficiency"}
               [] f \in {"spline", "spline_der", "spline_int", "spline_anti"} -> {"spline"}
               [] f \in {"derived", "hubble"} -> {"density"}
               [] f = "cl" -> {"distance", "growth", "norm", "efficiency", "variance", "scales"}
(* the options each of them depends on (besides the object) *)
Opts(f, t) ==
  CASE t = "distance" -> (CASE f = "chi_coarse" -> "64 steps" [] f = "chi_short" -> "a > 0.03" [] OTHER -> "default")
    [] t = "variance" -> (CASE f = "eisenhu" -> "no wiggles" [] f = "sigma1" -> "R = 1" [] OTHER -> "default")
    [] t = "scales" -> (CASE f = "nonlin_linear" -> "linear" [] OTHER -> "default")
    [] t = "efficiency" -> (CASE f \in {"wl_ell", "nc_ell"} -> "other ell" [] f = "wl_other" -> "other cosmology"
                              [] f \in {"nc"} -> "clustering" [] f = "cl" -> "Limber nodes" [] OTHER -> "default")
    [] t = "spline" -> (CASE f = "spline_der" -> "derivative" [] f = "spline_int" -> "interval" [] f = "spline_anti" -> "antiderivative" [] OTHER -> "default")
    [] OTHER -> "default"
(* generated histories may leave out differentiating these (minutes each) *)
Costly == {"power", "eisenhu", "sigma8", "sigma1", "nonlin", "nonlin_linear", "cl"}
CostlyCalls(h) == Cardinality({j \in 1..Len(h) : h[j].a = "call" /\ \E f \in Costly, o \in {"C", "D", "T1", "T2"} : h[j].k = o \o "." \o f})
Themes == IF Themed THEN UNION {Tables(f) : f \in Fns} ELSE {"any"}
Objects == {"C", "D", "T1", "T2"}
Outer == {"C", "D"}

VARIABLES stack,    \* open scopes: sequence of [kind, id]
          nscope,   \* scopes created so far
          cache,    \* object -> set of entries [table, opts, owner, scopes]
          alive,    \* objects that exist
          hist,     \* actions so far
          ncalls, ok,
          theme     \* generated histories stay with the functions behind one table
vars == <<stack, nscope, cache, alive, hist, ncalls, ok, theme>>

Init == /\ stack = <<>> /\ nscope = 0
        /\ cache = [o \in Objects |-> {}]
        /\ alive = Outer /\ hist = <<>> /\ ncalls = 0 /\ ok = TRUE
        /\ theme \in Themes

Depth == Len(stack)
Limit == IF Frugal /\ theme = "variance" /\ MaxCalls > 8 THEN 8 ELSE MaxCalls
(* calls since the last scope was entered or left *)
RECURSIVE RunLen(_, _)
RunLen(h, k) == IF h = <<>> \/ h[Len(h)].a # "call" \/ k = 0 THEN 0 ELSE 1 + RunLen(SubSeq(h, 1, Len(h) - 1), k - 1)
T(d) == IF d = 1 THEN "T1" ELSE "T2"
OpenIds == {stack[d].id : d \in 1..Depth}

Enter(k) ==
  /\ Depth < MaxDepth /\ ncalls < Limit /\ ok
  /\ stack' = Append(stack, [kind |-> k, id |-> nscope + 1])
  /\ nscope' = nscope + 1
  /\ alive' = alive \cup {T(Depth + 1)}
  /\ cache' = [cache EXCEPT ![T(Depth + 1)] = {}]
  /\ hist' = Append(hist, [a |-> "enter", k |-> k])
  /\ UNCHANGED <<ncalls, ok, theme>>

Exit ==
  /\ Depth > 0
  /\ hist[Len(hist)].a # "enter"
  /\ alive' = alive \ {T(Depth)}
  /\ stack' = SubSeq(stack, 1, Depth - 1)
  /\ hist' = Append(hist, [a |-> "exit", k |-> ""])
  /\ UNCHANGED <<nscope, cache, ncalls, ok, theme>>

(* scopes whose tracers the value of a table computed now for object o may
   contain: compiled scopes and loop bodies trace everything; grad and vmap
   only what depends on their argument *)
StagesOut(k) == k \in {"jit", "scan"}
DependsOn(o) == IF o \in Outer THEN {} ELSE {stack[d].id : d \in 1..(IF o = "T1" THEN 1 ELSE 2)}
Tracers(o) == {stack[d].id : d \in {e \in 1..Depth : StagesOut(stack[e].kind)}} \cup (DependsOn(o) \cap OpenIds)

Hit(o, t, f) == {e \in cache[o] : e.table = t /\ (~KeyHasOptions \/ e.opts = Opts(f, t))}
(* value token of a table = (owner, table, opts); fresh value has the requested ones *)
Call(o, f) ==
  LET hits == [t \in Tables(f) |-> Hit(o, t, f)]
      new(t) == [table |-> t, opts |-> Opts(f, t), owner |-> IF CrossObject /\ Depth > 0 THEN "any" ELSE o, scopes |-> Tracers(o)]
      used(t) == IF hits[t] = {} THEN new(t) ELSE CHOOSE e \in hits[t] : TRUE
      good == \A t \in Tables(f) : used(t).opts = Opts(f, t) /\ used(t).owner = o /\ used(t).scopes \subseteq OpenIds
      added == {new(t) : t \in {u \in Tables(f) : hits[u] = {} /\ (KeepTraced \/ Tracers(o) = {})}}
  IN /\ o \in alive /\ ncalls < Limit /\ ok
     /\ RunLen(hist, MaxRun) < MaxRun
     /\ Frugal /\ f \in Costly /\ theme # "variance" => CostlyCalls(hist) < 3
     /\ Frugal /\ f \in Costly /\ o \notin Outer => \A d \in 1..Depth : stack[d].kind # "grad"
     /\ theme = "any" \/ theme \in Tables(f)
     /\ cache' = [q \in Objects |-> IF q = o \/ (SharedTables /\ {q, o} \subseteq Outer) THEN cache[q] \cup added ELSE cache[q]]
     /\ ok' = (ok /\ good)
     /\ ncalls' = ncalls + 1
     /\ hist' = Append(hist, [a |-> "call", k |-> o \o "." \o f])
     /\ UNCHANGED <<stack, nscope, alive, theme>>

Next == (\E k \in Kinds : Enter(k)) \/ Exit \/ (\E o \in Objects, f \in Fns : Call(o, f))
Spec == Init /\ [][Next]_vars

TypeOK == Depth <= MaxDepth /\ ncalls <= MaxCalls /\ Outer \subseteq alive
(* transparency: every call so far returned the fresh value, touching no dead scope *)
Transparent == ok
(* nothing dead is ever kept on a living object *)
NoDeadEntry == \A o \in alive : \A e \in cache[o] : e.scopes \subseteq OpenIds
Complete == Depth = 0 /\ ncalls = Limit
(* behaviours that a faulty policy gets wrong, up to the end of their scopes *)
EmitGoal == (Emit /\ Depth = 0 /\ ~ok /\ Len(hist) > 0) => PrintT(ToJson(hist))
EmitState == (Emit /\ Complete) => PrintT(ToJson(hist))
(* quotient for model checking deeper: history itself is irrelevant *)
View == <<[d \in 1..Depth |-> stack[d].kind], alive, ncalls, ok,
          [o \in Objects |-> {[table |-> e.table, opts |-> e.opts, owner |-> e.owner,
                               scopes |-> {IF \E d \in 1..Depth : stack[d].id = s THEN CHOOSE d \in 1..Depth : stack[d].id = s ELSE 0 : s \in e.scopes}] : e \in cache[o]}],
          IF hist = <<>> THEN "" ELSE hist[Len(hist)].a, RunLen(hist, MaxRun)>>
=============================================================================
