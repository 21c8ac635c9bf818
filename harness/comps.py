"""The public computations of the library as functions of parameter objects
and query points, shared by C03 (arrangements) and C04 (derivatives)."""
import cosmos


def computations(jax, jc, rng):
    """-> list of (name, [two parameter pytrees], points, f(par, points), axis of the points, only, scalar, big)"""
    import numpy as onp
    import jax.numpy as np
    import functools
    import jax_cosmo.background as bk
    import jax_cosmo.power as power
    import jax_cosmo.sparse as sparse
    import jax_cosmo.transfer as tk
    from jax_cosmo.scipy.integrate import simps, romb
    from jax_cosmo.scipy.ode import odeint
    from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline, interp
    from jax_cosmo.likelihood import gaussian_log_likelihood
    from jax_cosmo.utils import z2a, a2z
    cl = jc.angular_cl
    R, B, P = jc.redshift, jc.bias, jc.probes
    T = jax.tree_util
    u = rng.uniform
    comps = []

    def comp(name, pars, X, f, ax=-1, only=None, scalar=False, big=False):
        """f(par, X): the computation at the rows of X; ax: axis of the points in its result (None: no points)"""
        # arrays are jax arrays, as the library expects (numpy arrays cannot be indexed by tracers)
        pars = T.tree_map(lambda v: np.asarray(v) if isinstance(v, onp.ndarray) else v, pars)
        comps.append((name, pars, X, f, ax, only, scalar, big))
    A = onp.array([0.9, 0.31, 0.52])
    Z = onp.array([0.4, 1.7, 0.75])
    K = onp.array([0.3, 0.002, 4.0])
    L = onp.array([20.0, 300.0, 77.0])
    C = [jc.Cosmology(0.24, 0.05, 0.7, 0.96, 0.8, 0.1, -0.9, 0.2), jc.Cosmology(0.3, 0.04, 0.65, 0.98, 0.85, -0.08, -1.1, -0.1)]
    F = [jc.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.0, -1.0, 0.0), jc.Cosmology(0.2, 0.03, 0.75, 0.93, 0.7, 0.03, -1.0, 0.0)]
    G = [jc.Cosmology(0.24, 0.05, 0.7, 0.96, 0.8, 0.1, -0.9, 0.2, gamma=0.55), jc.Cosmology(0.3, 0.04, 0.65, 0.98, 0.85, 0.0, -1.1, -0.1, gamma=0.0)]
    part = [{"c": u(0.2, 0.25), "s8": u(0.7, 0.8)}, {"c": u(0.26, 0.35), "s8": u(0.8, 0.9)}]
    mkp = lambda p: jc.Planck15(Omega_c=p["c"], sigma8=p["s8"])

    for n in ("w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda"):
        comp(n, C, A, getattr(bk, n), scalar=True)
    for n in ("radial_comoving_distance", "transverse_comoving_distance", "angular_diameter_distance"):
        comp(n, rng.choice([C, F]) if n[0] != "t" else C, A, getattr(bk, n))
    comp("transverse_comoving_distance (flat in the batch)", F, A, bk.transverse_comoving_distance)
    for n in ("growth_factor", "growth_rate"):
        comp(n, C, A, getattr(bk, n), scalar=True)
        comp(n + " (gamma)", G, A, getattr(bk, n), scalar=True)
    comp("a_of_chi", C, onp.array([400.0, 2500.0, 1100.0]), bk.a_of_chi)
    comp("distances of a cosmology built inside", part, A, lambda p, x: bk.radial_comoving_distance(mkp(p), x))
    comp("growth of a cosmology built inside", part, A, lambda p, x: bk.growth_factor(mkp(p), x))
    comp("derived parameters", F, None, lambda c: np.stack([np.asarray(v, dtype=float) for v in (c.Omega, c.Omega_m, c.Omega_de, c.Omega_k, c.k, c.sqrtk, c.h, c.n_s)]), ax=None)
    comp("derived parameters (gamma)", G, None, lambda c: np.stack([np.asarray(v, dtype=float) for v in (c.gamma, c.sigma8, c.w0, c.wa, c.k, c.sqrtk, c.Omega_b, c.Omega_c)]), ax=None)
    for t in ("eisenhu", "eisenhu_osc"):
        comp("Eisenstein_Hu " + t, C, K, functools.partial(tk.Eisenstein_Hu, type=t))
        comp("sigmasqr " + t, C, None, lambda c, t=t: np.ravel(power.sigmasqr(c, 8.0, functools.partial(tk.Eisenstein_Hu, type=t))), ax=None)
    comp("primordial_matter_power", C, K, power.primordial_matter_power, scalar=True)
    comp("linear_matter_power", C, K, lambda c, k: np.ravel(power.linear_matter_power(c, k, 0.6)))
    KA = onp.stack([K, A], axis=1)
    comp("linear_matter_power (k,a)", G, KA, lambda c, x: np.ravel(power.linear_matter_power(c, x[:, 0], x[:, 1])))
    comp("linear_matter_power built inside", part, KA, lambda p, x: np.ravel(power.linear_matter_power(mkp(p), x[:, 0], x[:, 1])))
    comp("halofit", C, KA, lambda c, x: np.ravel(power.halofit(c, x[:, 0], x[:, 1], tk.Eisenstein_Hu)))
    comp("halofit smith2003", C, KA, lambda c, x: np.ravel(power.nonlinear_matter_power(c, x[:, 0], x[:, 1], nonlinear_fn=functools.partial(power.halofit, prescription="smith2003"))))
    comp("halofit (gamma)", G, KA, lambda c, x: np.ravel(power.nonlinear_matter_power(c, x[:, 0], x[:, 1])))
    comp("nonlinear linear", C, KA, lambda c, x: np.ravel(power.nonlinear_matter_power(c, x[:, 0], x[:, 1], nonlinear_fn=power.linear)))
    # distributions, biases
    sm = [R.smail_nz(1.0, 2.0, 0.5, gals_per_arcmin2=3.0, zmax=3.0), R.smail_nz(1.8, 1.4, 0.7, gals_per_arcmin2=8.0, zmax=3.0)]
    kd = [R.kde_nz(np.array([0.3, 0.8, 1.4]), np.array([0.4, 1.0, 0.6]), bw=0.2, zmax=3.0), R.kde_nz(np.array([0.5, 0.6, 1.0]), np.array([0.9, 0.1, 0.5]), bw=0.2, zmax=3.0)]
    sh = [R.systematic_shift(sm[0], 0.1, zmax=3.0), R.systematic_shift(sm[1], -0.07, zmax=3.0)]
    shk = [R.systematic_shift(R.systematic_shift(k, 0.03, zmax=3.0), b, zmax=3.0) for k, b in zip(kd, (0.1, -0.1))]
    dl = [R.delta_nz(0.4, zmax=3.0), R.delta_nz(1.7, zmax=3.0)]
    for n, d in (("smail", sm), ("kde", kd), ("shifted", sh), ("twice shifted kde", shk)):
        comp("n(z) " + n, d, Z, lambda p, z: p(z))
        comp("densities " + n, d, None, lambda p: np.stack([np.asarray(p.gals_per_arcmin2), np.asarray(p.gals_per_steradian)]), ax=None)
    comp("n(z) delta", dl, Z, lambda p, z: p(z), scalar=True)
    comp("n(z) built inside", [{"a": 1.1}, {"a": 1.9}], Z, lambda p, z: R.smail_nz(p["a"], 2.0, 0.6, zmax=3.0)(z))
    comp("constant bias", [(C[i], B.constant_linear_bias(1.0 + i)) for i in (0, 1)], Z, lambda p, z: p[1](p[0], z), scalar=True)
    comp("inverse growth bias", [(C[i], B.inverse_growth_linear_bias(1.0 + i)) for i in (0, 1)], Z, lambda p, z: p[1](p[0], z), scalar=True)
    comp("inverse growth bias (gamma)", [(G[i], B.inverse_growth_linear_bias(1.0 + i)) for i in (0, 1)], Z, lambda p, z: p[1](p[0], z), scalar=True)
    comp("des bias", [(C[i], B.des_y1_ia_bias(1.0 + i, 0.4 - i, 0.6)) for i in (0, 1)], Z, lambda p, z: p[1](p[0], z), scalar=True)
    # probes
    wl = [P.WeakLensing([sm[i], kd[i]], multiplicative_bias=0.02 * i) for i in (0, 1)]
    wlm = [P.WeakLensing([kd[i], sh[i]], multiplicative_bias=[0.02 * i, -0.03], ia_bias=B.des_y1_ia_bias(0.5 + i, 0.3, 0.6), sigma_e=[0.2, 0.3]) for i in (0, 1)]
    wld = [P.WeakLensing([dl[i], sm[i], dl[1 - i]]) for i in (0, 1)]
    wli = [P.WeakLensing([sh[i], sm[1 - i]], ia_bias=[B.inverse_growth_linear_bias(0.5 + i), B.constant_linear_bias(0.7)]) for i in (0, 1)]
    nc = [P.NumberCounts([sm[i], kd[i]], B.constant_linear_bias(1.0 + i)) for i in (0, 1)]
    ncb = [P.NumberCounts([sh[i], kd[i]], [B.inverse_growth_linear_bias(1.0 + i), B.constant_linear_bias(1.5)]) for i in (0, 1)]
    for n, p in (("lensing", wl), ("lensing IA m", wlm), ("lensing planes", wld), ("lensing IA per bin", wli), ("clustering", nc), ("clustering per bin", ncb)):
        cs = rng.choice([C, F, G])
        comp("kernel " + n, [(cs[i], p[i]) for i in (0, 1)], Z, lambda p, z: p[1].kernel(p[0], z, 25.0))
        comp("kernel over multipoles " + n, [(cs[i], p[i]) for i in (0, 1)], L, lambda p, l: p[1].kernel(p[0], Z, l[0]), ax=None, only="vmap")
        comp("noise " + n, p, None, lambda p: p.noise(), ax=None)
    comp("kernel of probe built inside", [{"c": part[i]["c"], "m": 0.03 * i, "b": 1.0 + i, "s8": 0.8} for i in (0, 1)], Z,
         lambda p, z: np.concatenate([P.WeakLensing([sm[0]], multiplicative_bias=p["m"], ia_bias=B.constant_linear_bias(p["b"])).kernel(mkp(p), z, 30.0), P.NumberCounts([sm[0]], B.constant_linear_bias(p["b"])).kernel(mkp(p), z, 30.0)]))
    # spectra
    pw = lambda c, k, a, transfer_fn=None: 1e4 * c.sigma8 * a * k / (1.0 + (30 * k) ** 2)
    for n, ps, cs, nl in (("lensing+clustering, own power", lambda i: [wl[i], nc[i]], C, pw), ("lensing planes, linear", lambda i: [wld[i]], F, power.linear),
                          ("IA+clustering, linear, gamma", lambda i: [wlm[i], ncb[i]], G, power.linear), ("lensing, halofit", lambda i: [P.WeakLensing([sm[i]])], C, power.halofit)):
        comp("angular_cl " + n, [(cs[i], ps(i)) for i in (0, 1)], L, lambda p, l, nl=nl: cl.angular_cl(p[0], l, p[1], nonlinear_fn=nl), big=True)
    comp("noise_cl", [[wlm[i], nc[i]] for i in (0, 1)], L, lambda p, l: cl.noise_cl(l, p))
    S = [onp.array([[u(0.5, 2) for _ in range(3)] for _ in range(10)]) for _ in range(4)]
    for sp in (True, False):
        comp(f"gaussian_cl_covariance sparse={sp}", [(S[i], S[2 + i], [wl[i], nc[i]]) for i in (0, 1)], None,
             lambda p, sp=sp: np.ravel(cl.gaussian_cl_covariance(np.asarray(L), p[2], p[0], p[1], f_sky=0.3, sparse=sp)), ax=None)
        comp(f"gaussian_cl_covariance_and_mean sparse={sp}", [(C[i], [nc[i]]) for i in (0, 1)], None,
             lambda p, sp=sp: np.concatenate([np.ravel(x) for x in cl.gaussian_cl_covariance_and_mean(p[0], np.asarray(L), p[1], nonlinear_fn=pw, sparse=sp)]), ax=None, big=True)
    # likelihood, sparse algebra
    bl = [onp.array([[[2.0, 3.0], [0.5, 0.2]], [[0.5, 0.2], [4.0, 1.5]]]), onp.array([[[1.0, 2.0], [0.1, -0.7]], [[0.1, -0.7], [2.0, 2.5]]])]
    dv = [onp.array([u(-1, 1) for _ in range(4)]) for _ in range(4)]
    for m, s, ld in (("inverse", 0, True), ("cholesky", 0, True), ("inverse", 1, True), ("cholesky", 0, False), ("inverse", 1, False)):
        comp(f"gaussian_log_likelihood {m} sparse={s} logdet={ld}", [(dv[i], dv[2 + i], bl[i] if s else onp.asarray(sparse.to_dense(bl[i]))) for i in (0, 1)], None,
             lambda p, m=m, ld=ld: np.ravel(gaussian_log_likelihood(p[0], p[1], p[2], include_logdet=ld, inverse_method=m)), ax=None)
    rc = [onp.array(onp.reshape([u(-2, 2) for _ in range(18)], (2, 3, 3))) for _ in range(2)]
    rd = [onp.array(onp.reshape([u(-2, 2) for _ in range(18)], (3, 2, 3))) for _ in range(2)]
    for n in ("to_dense", "inv", "det", "slogdet"):
        comp("sparse." + n, bl, None, lambda p, n=n: np.concatenate([np.ravel(x) for x in T.tree_leaves(getattr(sparse, n)(p))]), ax=None)
    D = [onp.array(onp.reshape([u(-2, 2) for _ in range(18)], (9, 2))) for _ in range(2)]
    comp("sparse.dot sparse,sparse", list(zip(rc, rd)), None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    comp("sparse.dot sparse,dense", list(zip(rc, D)), None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    comp("sparse.dot dense,sparse", list(zip([d.T for d in D], rd)), None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    comp("sparse.dot sparse,vec", [(rc[i], D[i][:, 0]) for i in (0, 1)], None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    comp("sparse.dot vec,sparse", [(D[i][:, 1], rd[i]) for i in (0, 1)], None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    comp("sparse.dot dense,sparse,dense", [(D[i].T, rd[i], D[1 - i][:6]) for i in (0, 1)], None, lambda p: np.ravel(sparse.dot(*p)), ax=None)
    # numerical routines
    xs = [onp.cumsum(onp.array([u(0.4, 1.0) for _ in range(7)])) for _ in range(2)]
    ys = [onp.array([u(-1, 1) for _ in range(7)]) for _ in range(2)]
    XY = list(zip(xs, ys))
    X = onp.array([2.2, 0.1, 3.7])
    comp("interp", XY, X, lambda p, x: interp(x, p[0], p[1]))
    comp("interp decreasing", [(a[::-1].copy(), b) for a, b in XY], X, lambda p, x: interp(x, p[0], p[1]))
    for k in (1, 2, 3):
        ep = rng.choice(["natural", "not-a-knot"]) if k == 3 else "not-a-knot"
        comp(f"spline k={k}", XY, X, lambda p, x, k=k, ep=ep: Spline(p[0], p[1], k=k, endpoints=ep)(x), scalar=True)
        comp(f"spline derivatives k={k}", XY, X, lambda p, x, k=k: np.stack([Spline(p[0], p[1], k=k).derivative(x, n) for n in range(k + 1)]), scalar=True)
        comp(f"spline antiderivative k={k}", XY, X, lambda p, x, k=k: Spline(p[0], p[1], k=k).antiderivative(x), scalar=True)
        comp(f"spline integral k={k}", XY, onp.array([[0.3, 2.5], [3.1, 1.1], [-1.0, 6.0]]), lambda p, x, k=k: Spline(p[0], p[1], k=k).integral(x[0, 0], x[0, 1]), ax=None, only="vmap")
    comp("simps", [{"a": 0.2, "b": 1.4, "c": 2.0}, {"a": 2.0, "b": -1.0, "c": 0.5}], None, lambda p: np.ravel(simps(lambda x: np.stack([np.exp(-p["c"] * x), x**2]), p["a"], p["b"], 32)), ax=None)
    comp("romb", [{"a": 0.2, "b": 1.4, "c": 2.0}, {"a": 2.0, "b": -1.0, "c": 0.5}], None, lambda p: np.ravel(romb(lambda x, c: np.exp(-c * x), p["a"], p["b"], args=(p["c"],))), ax=None)
    comp("romb error", [{"a": 0.2, "b": 1.4}, {"a": 2.0, "b": -1.0}], None, lambda p: np.stack([np.ravel(v) for v in romb(lambda x: np.sin(x), p["a"], p["b"], divmax=4, return_error=True)]).ravel(), ax=None)
    comp("odeint", [{"y": onp.array([1.0, 0.3]), "c": 0.5}, {"y": onp.array([0.2, -0.4]), "c": 1.5}], None, lambda p: np.ravel(odeint(lambda y, t: np.stack([y[1], -p["c"] * y[0] + t]), p["y"], np.linspace(0.0, 1.0, 9))), ax=None)
    comp("z2a, a2z", [1.0, 2.0], Z, lambda p, z: np.stack([z2a(z) * p, a2z(z2a(z))]), scalar=True)

    return comps
