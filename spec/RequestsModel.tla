---- MODULE RequestsModel ----
EXTENDS Requests
VARIABLE req
Init == req \in Requests
Next == UNCHANGED req
Spec == Init /\ [][Next]_req
(* sanity of the decision itself *)
Decided == Supported(req) \in BOOLEAN
Sane == /\ req.f = "dot2" /\ Supported(req) => (Len(req.a) = 3 \/ Len(req.b) = 3)
        /\ req.f = "unary" /\ req.op = "inv" /\ Supported(req) => Supported([req EXCEPT !.op = "to_dense"])
        /\ req.f = "spline" /\ Supported(req) => Supported([req EXCEPT !.ep = "not-a-knot"])
        /\ req.f = "kernel" /\ Supported(req) => Supported([req EXCEPT !.probe = "lensing"])
Emit == PrintT(ToJson([r |-> req, ok |-> Supported(req)]))
=============================================================================
