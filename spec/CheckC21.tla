------------------------------ MODULE CheckC21 ------------------------------
(* Each recorded request: did it raise eagerly, did it raise under jit, and was
   every number it returned finite? Requests!Supported decides what it should do. *)
EXTENDS Conform, Requests
VC(e) ==
  LET s == Supported(e.r)
      how == IF s THEN "supported request succeeds" ELSE "unsupported request raises"
  IN Clause(how \o " (" \o e.r.f \o ", eager)", (e.eager = "") = s) \cup
     Clause(how \o " (" \o e.r.f \o ", jit)", (e.jit = "") = s) \cup
     Clause("supported request gives numbers", s => e.finite) \cup
     Clause("same result eagerly and under jit", s => e.same)
=============================================================================
