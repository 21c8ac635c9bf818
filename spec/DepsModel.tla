------------------------------ MODULE DepsModel ------------------------------
(* Design level: a walk down the definitions, one use at a time.  Every name a
   walk ends in is something the quantity responds to; the invariants are the
   independences a user relies on, stated without the graph. *)
EXTENDS Deps
VARIABLES start, mode, at, path
vars == <<start, mode, at, path>>
Init == start \in Quantities /\ mode \in Modes /\ at = start /\ path = <<>>
Step == /\ at \in Quantities
        /\ \E u \in Uses(at, mode) :
             IF u \in Quantities THEN at' = u /\ path' = Append(path, at)
             ELSE \E x \in (LET RECURSIVE Sub(_, _)
                                Sub(s, i) == IF i = 0 THEN s
                                             ELSE Sub(UNION {IF y \in Arguments THEN Bind(path[i], y) ELSE {y} : y \in s}, i - 1)
                            IN Sub({u}, Len(path))) : at' = x /\ path' = path
        /\ UNCHANGED <<start, mode>>
Spec == Init /\ [][Step]_vars

Ends == at \in Params
Agrees == Ends => at \in Reaches(start, mode)
Known == at \in Quantities \cup Params
Shallow == Len(path) <= 12                                 \* the definitions are not circular
Background == {"Omega_m", "Omega_de", "Omega", "sqrtk", "w", "f_de", "Esqr", "H", "Omega_m(a)", "Omega_de(a)", "dchi/da", "radial distance", "a of chi", "transverse distance", "angular distance"}
Kernels == {"lensing kernel", "lensing kernel of planes", "clustering kernel", "clustering kernel, constant bias"}
Noises == {"lensing noise", "clustering noise", "noise spectra", "galaxy density"}
Spectra == {"first lensing spectrum", "lensing spectra", "spectra", "mean"}
(* lengths are in Mpc/h: the expansion history does not know h, nor the power spectrum *)
BackgroundClean == Ends /\ start \in Background => at \notin {"h", "n_s", "sigma8", "gamma"}
GrowthClean == Ends /\ start \in {"growth", "growth rate", "inverse growth bias"} => at \notin {"h", "n_s", "sigma8"}
KernelsClean == Ends /\ start \in Kernels => at \notin {"h", "n_s", "sigma8", "gals", "sigma_e", "f_sky", "transfer_fn", "nonlinear_fn"}
NoiseClean == Ends /\ start \in Noises => at \in {"gals", "sigma_e", "gals of another bin"}
SpectraClean == Ends /\ start \in Spectra => at \notin {"gals", "sigma_e", "f_sky", "gals of another bin", "a", "z", "k"}
GammaGoverns == Ends /\ at = "gamma" => mode.gamma
TodayClean == Ends /\ start \in {"linear power today", "halofit today", "smith2003 today"} => at \notin {"wa", "gamma"}
OwnBin == Ends /\ start \in {"lensing kernel", "first lensing spectrum"} => at \notin {"m of another bin", "n(z) of another bin", "bias"}
=============================================================================
