#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

J = "jax_cosmo/"
prop("C01", "Results never depend on earlier calls on the same object",
 "Whatever sequence of library calls has been made on a cosmology or redshift-distribution object - in any order, with any options (table range or resolution), directly or inside a jit, grad, vmap or loop body - every later call on it returns what the same call returns on a freshly built equal object. No call ever fails because of an earlier call (for instance with a leaked-tracer error), and an option given to one call never changes the result of another call.",
 ["histories", "inputs"],
 "all finite histories of public calls (distances, inverse distance, growth factor, growth rate, normalised n(z)) x execution contexts (eager, jit, grad, vmap, scan) x table options, on one object",
 "every test builds a new cosmology, makes one or two eager calls with default options and drops it; no test calls a function inside a transformation and then again outside, nor with two different options",
 [J+"background.py", J+"redshift.py", J+"core.py"],
 [("workspace lookup in radial_comoving_distance / a_of_chi", J+"background.py:radial_comoving_distance,a_of_chi"),
  ("workspace lookup in growth functions", J+"background.py:_growth_factor_ODE,_growth_rate_ODE,_growth_factor_gamma"),
  ("normalisation cached on first call", J+"redshift.py:redshift_distribution.__call__")],
 [("_workspace", "per-cosmology dictionary of precomputed interpolation tables", J+"core.py:Cosmology.__init__"),
  ("_norm", "cached n(z) normalisation", J+"redshift.py:redshift_distribution.__init__")],
 ["return values and exceptions of the public functions"])

prop("C02", "Parameter objects survive flattening and rebuilding unchanged",
 "Any parameter object - cosmology with or without growth index, bias, redshift distribution, probe with any combination of its optional arguments (intrinsic alignments, scalar or per-bin multiplicative bias, per-bin bias or noise), spline - when flattened and rebuilt any number of times, explicitly or by crossing a jit, vmap or grad boundary, has the same leaves and the same static configuration and gives the same value for every observable. Replacing its leaves and rebuilding gives the object one would get by constructing it with those parameter values.",
 ["inputs", "configurations", "histories"],
 "all registered object types x all combinations of optional arguments x any number of round trips x leaf replacement",
 "tests only pass default-configured objects through the library's own jit boundaries; no test flattens a cosmology with growth index, or a probe with intrinsic alignment or multiplicative bias",
 [J+"core.py", J+"jax_utils.py", J+"probes.py", J+"redshift.py", J+"bias.py", J+"scipy/interpolate.py"],
 [("Cosmology.tree_flatten/tree_unflatten", J+"core.py"), ("container.tree_flatten/tree_unflatten", J+"jax_utils.py"),
  ("redshift_distribution.tree_flatten/tree_unflatten", J+"redshift.py"), ("WeakLensing.__init__ argument order", J+"probes.py"),
  ("InterpolatedUnivariateSpline.tree_flatten/tree_unflatten", J+"scipy/interpolate.py")],
 [("params/config", "traceable leaves and static configuration", J+"jax_utils.py")],
 ["jax.tree_util flatten/unflatten/map, and the object's public methods"])

prop("C03", "Compiling or batching a computation never changes its values",
 "Every public computation gives, under jit and under vmap over cosmologies, probe or redshift-distribution parameters or query points, the values it gives eagerly and one input at a time. The result at one query point (redshift, scale factor, wavenumber, multipole) does not depend on which other points are in the same call, except where a multipole's bandwidth is defined by its neighbours (covariance).",
 ["inputs", "configurations"],
 "all public observables x {jit, vmap over parameters, vmap or sub-selection over query points, both} x parameter values including flat/open/closed and with/without growth index",
 "no test uses jit or vmap directly; array inputs are only compared elementwise with CCL on one grid",
 [J+"background.py", J+"power.py", J+"probes.py", J+"angular_cl.py", J+"likelihood.py", J+"sparse.py", J+"redshift.py"],
 [("lax.switch on curvature", J+"background.py:transverse_comoving_distance"), ("vmap'ed interpolation", J+"scipy/interpolate.py:interp"),
  ("vmap over ell", J+"angular_cl.py:angular_cl"), ("jit'ed kernels", J+"probes.py")],
 observe=["return values of jit(f), vmap(f), f"])

prop("C04", "Automatic derivatives are the true derivatives of the computed values",
 "For every observable, from distances, growth, power spectra and kernels to angular spectra, covariance and likelihood, the derivative that JAX returns with respect to any traced parameter (cosmological, galaxy bias, alignment, multiplicative bias, redshift-distribution, galaxy density) and with respect to the query points (scale factor, redshift, wavenumber, multipole) is finite and equals the limit of finite differences of the same observable at interior points, including exactly flat cosmologies. Forward and reverse mode agree.",
 ["inputs", "configurations"],
 "all observables x all traced parameters at interior points of the parameter domain (flat, open, closed; ODE and growth-index growth)",
 "the test-suite never differentiates anything",
 [J+"background.py", J+"power.py", J+"probes.py", J+"redshift.py", J+"angular_cl.py", J+"likelihood.py"],
 [("differentiable table construction", J+"background.py"), ("differentiable n(z) normalisation", J+"redshift.py"),
  ("curvature branches", J+"background.py:transverse_comoving_distance"), ("traced leaves", J+"jax_utils.py")],
 observe=["jax.grad/jacfwd/jacrev of the public functions against finite differences"])

prop("C05", "Spectra rows follow tracer pairs, independent of grouping and order",
 "Angular spectra of a list of probes have one row per unordered pair of tracers, in row-major order (1,1),(1,2),...,(2,2),... of the tracers concatenated over the probes in the order given, and the noise spectra use the same order with non-zero entries only on auto-pairs, each equal to that tracer's own noise. For probes reaching the same maximum redshift, the row of a pair is the cross-spectrum of those two tracers alone: regrouping, permuting, adding or removing tracers - including any mix of extended and single-plane lensing bins - only moves rows.",
 ["inputs", "configurations"],
 "all probe lists (number of probes, bins per probe, order, mix of single-plane and extended bins, per-bin settings)",
 "tests look at row 0 (or the last row) of one probe; no test has two probes, nor looks at cross rows",
 [J+"angular_cl.py", J+"probes.py"],
 [("_get_cl_ordering", J+"angular_cl.py"), ("combine_kernels", J+"angular_cl.py:angular_cl"), ("get_noise_cl", J+"angular_cl.py:noise_cl"),
  ("permutation and inverse permutation of single-plane bins", J+"probes.py:weak_lensing_kernel")],
 observe=["angular_cl(), noise_cl(), probe.kernel(), probe.noise(), probe.n_tracers"])

prop("C06", "Each spectrum is the Limber integral of its two kernels",
 "For every cosmology, multipole and pair of tracers, the angular spectrum equals (1/c^2) times the integral over scale factor, from the largest redshift probed to today, of the two radial kernels times the non-linear power at k=(ell+1/2)/chi times d(chi)/da over chi^2, using exactly the transfer and non-linear functions the caller passed. In particular it is bilinear in the kernels and linear in the power spectrum.",
 ["inputs", "configurations"],
 "all cosmologies x multipoles x tracer pairs (incl. cross pairs of different probes) x transfer / non-linear functions x maximum redshifts",
 "tests compare the auto-spectrum of one probe with CCL, 1%, for one cosmology",
 [J+"angular_cl.py"],
 [("integrand and Simpson integration", J+"angular_cl.py:angular_cl")],
 observe=["angular_cl() against an integral formed from the public kernels, distances and power spectra"])

prop("C07", "Gaussian covariance is Knox's formula, in either format",
 "For any signal and noise spectra, multipoles and sky fraction, the covariance of pairs (i,j),(m,n) at one multipole is (C_im C_jn + C_in C_jm)/((2 ell+1) * bandwidth * f_sky) with C the signal plus noise, and is zero between different multipoles, so it is symmetric. The sparse and dense outputs describe the same matrix with rows and columns ordered like the flattened mean vector, and the combined mean-and-covariance call returns exactly these with the noise of the probes given.",
 ["inputs", "configurations"],
 "all numbers of tracers and multipoles, all signal/noise arrays, sky fractions, sparse and dense",
 "the one test compares sparse with dense on all-ones spectra, for which every index mix-up is invisible, and never checks a value",
 [J+"angular_cl.py", J+"probes.py"],
 [("_get_cov_blocks_ordering", J+"angular_cl.py"), ("get_cov_block, normalisation and dense reshaping", J+"angular_cl.py:gaussian_cl_covariance"),
  ("noise", J+"probes.py:WeakLensing.noise,NumberCounts.noise")],
 observe=["gaussian_cl_covariance(), gaussian_cl_covariance_and_mean(), noise_cl()"])

prop("C08", "The Gaussian log-likelihood is exact for every covariance format",
 "For any data, mean and positive-definite covariance, the log-likelihood equals -1/2 [ (d-mu)^T C^-1 (d-mu) + log det C ], or only the quadratic term when the determinant is switched off (constants independent of the inputs are dropped). Sparse covariances and dense covariances with either inversion method give the same value.",
 ["inputs", "configurations"],
 "all residuals and positive-definite covariances (sizes, block structures, scales) x {sparse, dense inverse, dense cholesky} x {with, without determinant}",
 "the one test only compares the three code paths with each other at one point, so an error common to them is invisible (the sign of the log determinant was wrong)",
 [J+"likelihood.py", J+"sparse.py"],
 [("gaussian_log_likelihood", J+"likelihood.py"), ("inv / slogdet", J+"sparse.py")],
 observe=["gaussian_log_likelihood()"])

prop("C09", "Block-sparse linear algebra equals dense linear algebra",
 "For all block-diagonal-sparse matrices of any compatible (also rectangular) block shapes, conversion to dense, every supported product (sparse, vector and dense operands on either side, and dense-sparse-dense), inverse, determinant and sign/log-determinant equal the corresponding operation on the dense equivalents, with the documented shapes. Inverse and determinants hold for every invertible matrix, symmetric or not, whatever its sub-blocks.",
 ["inputs"],
 "all block shapes (rows, columns, diagonal length >= 1) and entries; invertible matrices for inverse and determinants",
 "tests use two or three fixed matrices; rectangular shapes, length-1 blocks, negative determinants and singular sub-blocks are not reached",
 [J+"sparse.py"],
 [("to_dense", J+"sparse.py"), ("dot dispatch and *_dot_* kernels", J+"sparse.py"), ("inv, slogdet, det", J+"sparse.py")],
 observe=["return values of the public functions of jax_cosmo.sparse"])

prop("C10", "Interpolating splines meet their defining conditions",
 "For any strictly increasing abscissae and any values, the spline of order 1, 2 or 3 passes through every data point, is a polynomial of its order on each piece with continuous derivatives up to one below its order, satisfies the requested end conditions (natural: zero second derivative at both ends; not-a-knot), and extrapolates with its end pieces. Its derivatives, antiderivative and definite integrals (any bounds, either order) are exactly those of that function.",
 ["inputs", "configurations"],
 "all strictly increasing grids (irregular, minimal length) and values, orders 1-3, both end conditions, all query points incl. knots and extrapolation, all derivative orders and integration bounds",
 "tests check one function on one grid with default end conditions; natural end conditions, derivative(), integral() and short grids are never exercised",
 [J+"scipy/interpolate.py"],
 [("coefficient systems", J+"scipy/interpolate.py:InterpolatedUnivariateSpline.__init__"), ("_compute_coeffs, derivative, antiderivative, integral", J+"scipy/interpolate.py")],
 observe=["spline(x), derivative, antiderivative, integral"])

prop("C11", "Table interpolation is exact piecewise-linear interpolation",
 "For any strictly monotonic table, increasing or decreasing, the linear interpolation routine returns exactly the piecewise-linear interpolant at every query point inside the table, including at every node and in the first and last intervals, and continues the end segments linearly outside it.",
 ["inputs"],
 "all strictly monotonic (irregular) tables of at least 3 nodes, all query points",
 "interp is only exercised indirectly on fine smooth tables at 0.5-1% tolerance",
 [J+"scipy/interpolate.py"],
 [("nearest-node search and choice of segment", J+"scipy/interpolate.py:interp")],
 observe=["interp()"])

prop("C12", "Quadrature rules are exact to their order for any interval and output shape",
 "Simpson integration with any even number of intervals equals the composite Simpson sum - hence is exact for cubics - for any, also reversed or array-valued, bounds and for vector-valued integrands, and Romberg integration of depth m equals the m-times extrapolated trapezoid rule - hence is exact for polynomials up to degree 2m+1 - for any bounds. Swapping the bounds flips the sign, the result is linear in the integrand, extra arguments are passed on, and Romberg's error estimate is the difference of the last two diagonal entries.",
 ["inputs", "configurations"],
 "all integrands (scalar, vector), bounds (either order, arrays), interval counts N even, depths m >= 1",
 "quadrature is never tested directly, only through 0.5-1% comparisons of integrals of smooth functions",
 [J+"scipy/integrate.py"],
 [("simps", J+"scipy/integrate.py"), ("romb", J+"scipy/integrate.py")],
 observe=["simps(), romb()"])

prop("C13", "The ODE integrator is classical fourth-order Runge-Kutta on any grid",
 "On any time grid (irregular, forward or backward), for scalar or vector states, the solution returned starts with the initial value and each following entry is one classical fourth-order Runge-Kutta step from the previous entry over that interval; hence solutions that are cubic in time are reproduced exactly, and a prefix of the grid gives the same prefix of the solution.",
 ["inputs", "histories"],
 "all right-hand sides, initial states, grids of any length >= 1 and spacing",
 "the integrator is never tested directly; background tests see it only through 0.5% comparisons on one smooth table",
 [J+"scipy/ode.py"],
 [("rk4 step in lax.scan", J+"scipy/ode.py:odeint")],
 observe=["odeint()"])

prop("C14", "The expansion history obeys the Friedmann equation with its density budget",
 "For any cosmology (any curvature sign, any w0 and wa) and any scale factor, H(a)^2/H0^2 = Om a^-3 + Ok a^-2 + Ode a^(-3(1+w0+wa)) exp(3 wa (a-1)), with Om the sum of baryons and cold dark matter and Ode = 1-Ok-Om, so H(1)=100 and the matter, dark-energy and curvature fractions sum to one at every a. The equation of state is w0 + wa(1-a), the derived parameters and curvature sign follow from the primary ones, and a predefined cosmology with some parameters overridden equals the cosmology built with those values.",
 ["inputs", "configurations"],
 "all cosmological parameter values x scale factors (0,1] and beyond",
 "tests compare H with CCL for one flat cosmology; no test has curvature, w0 != -1, or looks at densities",
 [J+"background.py", J+"core.py", J+"parameters.py", J+"utils.py"],
 [("w, f_de, Esqr, H, Omega_m_a, Omega_de_a", J+"background.py"), ("derived parameters", J+"core.py"), ("Planck15", J+"parameters.py"), ("a2z, z2a", J+"utils.py")],
 observe=["background.w/f_de/Esqr/H/Omega_m_a/Omega_de_a, Cosmology properties, utils.a2z/z2a"])

prop("C15", "Distances integrate the expansion history and respect curvature",
 "For any cosmology and scale factor between 0.001 and 1, the radial comoving distance is the integral from a to 1 of c/(a^2 H) (in Mpc/h), zero today and strictly decreasing in a, and converting it back to a scale factor recovers a. The transverse distance is its sinh/identity/sin image for open/flat/closed curvature, continuous across flatness, and the angular diameter distance is a times the transverse distance.",
 ["inputs", "configurations"],
 "all cosmologies (curvature sign, w0, wa) x scale factors in the table range x table options",
 "tests check one flat LCDM cosmology; curved branches, dark-energy variations and the inverse mapping are never executed",
 [J+"background.py", J+"scipy/interpolate.py", J+"scipy/ode.py"],
 [("tabulated ODE integral", J+"background.py:radial_comoving_distance,dchioverda"), ("reverse interpolation", J+"background.py:a_of_chi"),
  ("curvature switch", J+"background.py:transverse_comoving_distance"), ("angular_diameter_distance", J+"background.py")],
 observe=["radial_comoving_distance, a_of_chi, dchioverda, transverse_comoving_distance, angular_diameter_distance"])

prop("C16", "Linear growth solves the growth equation of the chosen parametrisation",
 "For any cosmology and a in [0.001,1], the growth factor is 1 today, in (0,1], increasing, and its logarithmic derivative is the growth rate; without growth index the rate solves the linear growth equation for that expansion history starting from matter domination, and with growth index gamma the rate is Omega_m(a)^gamma. Which of the two is used depends only on whether gamma was given (gamma=0 included).",
 ["inputs", "configurations"],
 "all cosmologies (curvature, w0, wa, with/without gamma, any gamma) x scale factors",
 "tests check one flat LCDM cosmology at 1% with gamma absent or 0.55",
 [J+"background.py", J+"core.py"],
 [("growth dispatch", J+"background.py:growth_factor,growth_rate"), ("ODE growth", J+"background.py:_growth_factor_ODE,_growth_rate_ODE"),
  ("gamma growth", J+"background.py:_growth_factor_gamma,_growth_rate_gamma")],
 [("gamma flag", "whether a growth index was supplied", J+"core.py")],
 ["background.growth_factor, background.growth_rate"])

prop("C17", "The linear power spectrum has the documented transfer, growth and sigma8",
 "For any cosmology, the linear matter power spectrum is k^n_s T(k)^2 D(a)^2 times a constant such that the rms fluctuation in 8 Mpc/h spheres today is sigma8, for whichever transfer function is chosen. The built-in transfer functions (with and without baryon oscillations) follow the Eisenstein & Hu (1998) fitting formulae, tending to 1 on large scales.",
 ["inputs", "configurations"],
 "all cosmological parameter values x wavenumbers x scale factors x transfer functions (built-in with either type, or user-supplied)",
 "one comparison with CCL at 0.5% for one cosmology at a=1; dependence on every parameter, redshift scaling, no-wiggle type and user transfer functions are unexercised",
 [J+"power.py", J+"transfer.py"],
 [("linear_matter_power, sigmasqr, primordial_matter_power", J+"power.py"), ("Eisenstein_Hu", J+"transfer.py")],
 observe=["power.linear_matter_power, power.sigmasqr, transfer.Eisenstein_Hu"])

prop("C18", "Non-linear power follows halofit for either prescription",
 "For any cosmology, wavenumber and scale factor at which the non-linear scale lies in the search range, the non-linear power equals the Takahashi et al. (2012), or on request Smith et al. (2003), halofit formula evaluated with the non-linear wavenumber where the Gaussian-filtered variance is one and with the effective index and curvature of that variance. It tends to the linear power on large scales, and the wrapper returns exactly what the chosen non-linear function returns.",
 ["inputs", "configurations"],
 "all cosmologies (curvature, w0, wa) x wavenumbers x scale factors (scalar or paired arrays) x prescriptions x transfer functions",
 "CCL comparison at 0.5% for one LCDM cosmology and the default prescription; w0/wa and curvature terms vanish there and smith2003 is never run",
 [J+"power.py"],
 [("_halofit_parameters", J+"power.py"), ("halofit", J+"power.py"), ("nonlinear_matter_power, linear", J+"power.py")],
 observe=["power.halofit, power.nonlinear_matter_power, power.linear"])

prop("C19", "Redshift distributions are normalised and shaped as documented",
 "Every extended redshift distribution (Smail, kernel density estimate with weights, shifted) integrates to one over 0..zmax for any parameters it resolves and any zmax, and is proportional to its documented shape: z^a exp(-(z/z0)^b); the weighted sum of Gaussians of the given bandwidth at the catalogue redshifts; the parent distribution translated by the bias. A single-plane distribution is non-zero only at its redshift, and galaxy densities per steradian and per square arcminute differ by the fixed unit factor.",
 ["inputs", "configurations"],
 "all distribution types, parameters, catalogues, weights, bandwidths, zmax values, densities, query redshifts",
 "n(z) values are never tested, only fed to both codes in spectrum comparisons; shifted and single-plane calls are never run",
 [J+"redshift.py"],
 [("normalised __call__", J+"redshift.py:redshift_distribution.__call__"), ("pz_fn of each class", J+"redshift.py"), ("gals_per_steradian", J+"redshift.py")],
 observe=["calls of smail_nz, kde_nz, systematic_shift, delta_nz; zmax, gals_per_arcmin2, gals_per_steradian"])

prop("C20", "Probe kernels and noise follow their documented formulae",
 "For any cosmology, redshift and multipole, each lensing bin's kernel is (3 H0^2 Om/(2c)) sqrt((l+2)!/(l-2)!)/(l+1/2)^2 (1+z) chi times the n(z')-weighted mean of (1-chi/chi') over sources behind z, plus, if alignments are enabled, the NLA term -5e-14 rho_crit Om b n(z) H/D times the same multipole factor, all times (1+m); each clustering bin's kernel is b n(z) H. Single-plane bins give the same formula with all sources at their redshift, biases may be shared or per bin with each of their documented redshift dependences, and noise is sigma_e^2/n (lensing) or 1/n (clustering) per bin.",
 ["inputs", "configurations"],
 "all cosmologies x redshifts x multipoles x probe configurations (bins, shared/per-bin bias, alignments, scalar/per-bin m and sigma_e, mix of single-plane and extended bins)",
 "only auto-spectra of single-bin probes with default options are compared, at 1%",
 [J+"probes.py", J+"bias.py", J+"redshift.py"],
 [("weak_lensing_kernel, density_kernel, nla_kernel", J+"probes.py"), ("WeakLensing/NumberCounts kernel and noise", J+"probes.py"), ("bias models", J+"bias.py")],
 observe=["probe.kernel(), probe.noise(), bias(cosmo, z)"])

prop("C21", "Unsupported requests raise instead of returning a number",
 "Requests outside what is documented as supported - odd Simpson interval counts; spline order outside 1-3, too few or mismatched points, quadratic splines with natural ends, derivative order above the spline order; sparse inputs that are not 3-D, not square where required, or incompatible in a product, or a wrong number of factors; unknown transfer-function type, halofit prescription or dense inversion method; clustering or alignment kernels with single-plane bins - raise an exception, eagerly and under jit. The neighbouring supported requests succeed.",
 ["inputs", "configurations"],
 "the full decision table of options and shapes of each entry point, eager and jit-compiled",
 "tests check three of these rejections; deleting or weakening any other check is invisible",
 [J+"scipy/integrate.py", J+"scipy/interpolate.py", J+"sparse.py", J+"transfer.py", J+"power.py", J+"likelihood.py", J+"probes.py"],
 [("argument checks", J+"scipy/integrate.py:simps"), ("assertions", J+"scipy/interpolate.py"), ("shape checks", J+"sparse.py:check_sparse,dot"),
  ("NotImplementedError branches", J+"transfer.py, power.py, likelihood.py, probes.py")],
 observe=["exception or result of the public call"])

prop("C22", "Each quantity depends on exactly the parameters it is defined from",
 "Every quantity the library computes responds to the parameters its definition mentions, directly or through other quantities, and to no others. Distances and expansion rates (in Mpc/h and 100 h km/s/Mpc) do not depend on h, n_s, sigma8 or the growth index; growth does not depend on h, n_s or sigma8, and depends on gamma exactly when one is given; the transfer function depends on Omega_c, Omega_b and h only; today's linear power does not depend on dark energy or gamma; normalised n(z) does not depend on the galaxy density, and a shifted distribution not on its parent's density or zmax; a constant bias does not depend on redshift or cosmology; lensing and clustering kernels do not depend on h, n_s, sigma8, densities or ellipticity noise, nor on other bins' parameters; noise depends on galaxy density and ellipticity only; spectra do not depend on densities, noise or f_sky; and every one of the dependences in the definitions is really there, including on exchanged transfer and non-linear functions.",
 ["inputs", "configurations"],
 "every public quantity x every parameter, call argument, static option and exchangeable function moved alone x growth index given or not x kind of intrinsic alignment, from any base point (open, closed, flat)",
 "tests evaluate each function at one or two fixed cosmologies against a reference; a spurious or lost dependence vanishes at those points, and no test moves one parameter and looks at everything else",
 [J+"background.py", J+"power.py", J+"transfer.py", J+"redshift.py", J+"bias.py", J+"probes.py", J+"angular_cl.py", J+"core.py"],
 [("derived parameters", J+"core.py:Cosmology properties"), ("background functions", J+"background.py"), ("power spectra", J+"power.py"), ("kernels and noise", J+"probes.py"), ("spectra and covariance", J+"angular_cl.py")],
 observe=["values of the public functions and methods"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
