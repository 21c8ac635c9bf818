-------------------------------- MODULE Deps --------------------------------
(* Which parameters each quantity of the library is defined from (property C22).

   Uses(q, m) lists what the definition of quantity q mentions directly in mode
   m: parameters of the user, arguments of the call ("a", "z", "k", ...),
   functions the user may exchange ("transfer_fn", "nonlinear_fn") and other
   quantities.  Binds(q) says what a definition supplies for the arguments of
   the quantities it uses (a kernel evaluates the background at a = 1/(1+z),
   a spectrum integrates over a and evaluates power at k = (ell+1/2)/chi).
   A quantity responds to exactly what its definition reaches.  A mode fixes
   what selects between definitions: gamma (growth index given), ia (kind of
   intrinsic alignment bias, or "none"). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Miswired                        \* design-level control: a wrong edge

CosmoPars == {"Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma"}
NzPars    == {"smail a", "smail b", "smail z0", "shift", "plane z0", "kde zcat", "kde weight", "kde bw", "zmax", "gals", "parent gals", "parent zmax"}
BiasPars  == {"bias", "ia b", "ia A", "ia eta", "ia z0"}
ProbePars == {"m", "sigma_e", "f_sky", "m of another bin", "n(z) of another bin", "gals of another bin"}
Choices   == {"transfer_fn", "nonlinear_fn"}
Arguments == {"a", "z", "k", "R", "ell", "chi", "signal", "noise", "data", "model", "matrix"}
Params    == CosmoPars \cup NzPars \cup BiasPars \cup ProbePars \cup Choices \cup Arguments

Modes == [gamma : BOOLEAN, ia : {"none", "const", "growth", "des"}]

Growth(m) == {"Omega_m(a)", "a"} \cup (IF m.gamma THEN {"gamma"} ELSE {"Omega_de(a)", "w"})
IA(m) == (CASE m.ia = "none"   -> {}
            [] m.ia = "const"  -> {"ia b", "growth", "H", "n(z) smail"}
            [] m.ia = "growth" -> {"ia b", "growth", "H", "n(z) smail"}
            [] m.ia = "des"    -> {"ia A", "ia eta", "ia z0", "growth", "H", "n(z) smail"})

Uses(q, m) ==
  CASE q = "Omega_m" -> {"Omega_c", "Omega_b"}
    [] q = "Omega" -> {"Omega_k"}
    [] q = "Omega_de" -> {"Omega_m", "Omega_k"}
    [] q = "sqrtk" -> {"Omega_k"}
    [] q = "w" -> {"w0", "wa", "a"}
    [] q = "f_de" -> {"w0", "wa", "a"}
    [] q = "Esqr" -> {"Omega_m", "Omega_k", "Omega_de", "f_de", "a"}
    [] q = "H" -> {"Esqr"} \cup (IF Miswired THEN {"h"} ELSE {})
    [] q = "Omega_m(a)" -> {"Omega_m", "Esqr", "a"}
    [] q = "Omega_de(a)" -> {"Omega_de", "f_de", "Esqr"}
    [] q = "dchi/da" -> {"H", "a"}
    [] q = "radial distance" -> {"dchi/da"}
    [] q = "a of chi" -> {"dchi/da", "chi"}
    [] q = "transverse distance" -> {"radial distance", "sqrtk"}
    [] q = "angular distance" -> {"transverse distance", "a"}
    [] q = "growth" -> Growth(m)
    [] q = "growth rate" -> Growth(m)
    [] q = "growth today" -> {}
    [] q = "primordial power" -> {"n_s", "k"}
    [] q = "transfer" -> {"Omega_m", "Omega_b", "h", "k"}
    [] q = "transfer without wiggles" -> {"Omega_m", "Omega_b", "h", "k"}
    [] q = "sigma^2(R)" -> {"primordial power", "transfer", "transfer_fn", "R"}
    [] q = "linear power today" -> {"primordial power", "transfer", "transfer_fn", "sigma^2(R)", "sigma8", "k"}
    [] q = "linear power" -> {"linear power today", "growth"}
    [] q = "halofit" -> {"linear power", "Omega_m(a)", "Omega_de(a)", "w", "k"}
    [] q = "halofit today" -> {"linear power today", "Omega_m", "Omega_de", "w0", "k"}
    [] q = "smith2003" -> {"linear power", "Omega_m(a)", "Omega_de(a)", "k"}
    [] q = "smith2003 today" -> {"linear power today", "Omega_m", "Omega_de", "k"}
    [] q = "n(z) smail" -> {"smail a", "smail b", "smail z0", "zmax", "z"}
    [] q = "n(z) kde" -> {"kde zcat", "kde weight", "kde bw", "zmax", "z"}
    [] q = "n(z) shifted" -> {"smail a", "smail b", "smail z0", "shift", "zmax", "z"}
    [] q = "galaxy density" -> {"gals"}
    [] q = "constant bias" -> {"bias"}
    [] q = "inverse growth bias" -> {"bias", "growth"}
    [] q = "des bias" -> {"ia A", "ia eta", "ia z0", "z"}
    [] q = "lensing kernel" -> {"Omega_m", "radial distance", "n(z) smail", "m", "z", "ell"} \cup IA(m)
    [] q = "lensing kernel of planes" -> {"Omega_m", "radial distance", "plane z0", "m", "z", "ell"}
    [] q = "clustering kernel" -> {"n(z) smail", "inverse growth bias", "H"}
    [] q = "clustering kernel, constant bias" -> {"n(z) smail", "constant bias", "H"}
    [] q = "lensing noise" -> {"gals", "sigma_e"}
    [] q = "clustering noise" -> {"gals"}
    [] q = "noise spectra" -> {"lensing noise", "clustering noise", "gals of another bin"}
    [] q = "first lensing spectrum" -> {"lensing kernel", "radial distance", "dchi/da", "linear power", "nonlinear_fn", "ell"}
    [] q = "lensing spectra" -> {"first lensing spectrum", "m of another bin", "n(z) of another bin"}
    [] q = "spectra" -> {"lensing spectra", "clustering kernel"}
    [] q = "mean" -> {"spectra"}
    [] q = "covariance" -> {"signal", "noise", "ell", "f_sky"}
    [] q = "covariance of the model" -> {"spectra", "noise spectra", "ell", "f_sky"}
    [] q = "log-likelihood" -> {"data", "model", "matrix"}
    [] q = "chi squared" -> {"data", "model", "matrix"}

Quantities == {"Omega_m", "Omega_de", "Omega", "sqrtk", "w", "f_de", "Esqr", "H", "Omega_m(a)", "Omega_de(a)", "dchi/da", "radial distance", "a of chi",
               "transverse distance", "angular distance", "growth", "growth rate", "growth today", "primordial power", "transfer", "transfer without wiggles",
               "sigma^2(R)", "linear power today", "linear power", "halofit", "halofit today", "smith2003", "smith2003 today",
               "n(z) smail", "n(z) kde", "n(z) shifted", "galaxy density", "constant bias", "inverse growth bias", "des bias",
               "lensing kernel", "lensing kernel of planes", "clustering kernel", "clustering kernel, constant bias", "lensing noise", "clustering noise",
               "noise spectra", "first lensing spectrum", "lensing spectra", "spectra", "mean", "covariance", "covariance of the model", "log-likelihood", "chi squared"}

(* what a definition puts in place of argument x of what it uses: the names it is made from *)
Bind(q, x) ==
  CASE x \in {"a", "z"} /\ q \in {"first lensing spectrum", "lensing spectra", "spectra"} -> {}   \* integrated over
    [] x = "k" /\ q = "first lensing spectrum" -> {"ell"}       \* k = (ell + 1/2)/chi
    [] x = "a" /\ q \in {"inverse growth bias", "lensing kernel", "lensing kernel of planes", "clustering kernel", "clustering kernel, constant bias"} -> {"z"}
    [] x = "a" /\ q = "a of chi" -> {}
    [] x = "k" /\ q = "sigma^2(R)" -> {}
    [] x = "R" /\ q = "linear power today" -> {}                \* 8 Mpc/h
    [] x = "k" /\ q = "linear power today" -> {"k"}
    [] OTHER -> {x}

RECURSIVE Reaches(_, _)
Reaches(q, m) ==
  UNION {IF u \in Quantities
         THEN UNION {IF x \in Arguments THEN Bind(q, x) ELSE {x} : x \in Reaches(u, m)}
         ELSE {u} : u \in Uses(q, m)}
=============================================================================
