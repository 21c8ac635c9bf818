---- MODULE PytreeModel ----
EXTENDS Pytree
P == <<"bins", "m", "ia">>
O == <<1, 2, 3>>
A == <<1, 2, 3>>
(* WeakLensing before its repair: stored (bins, m, ia), rebuilt through the
   constructor's order (bins, ia, m) *)
Apos == <<1, 3, 2>>
====
