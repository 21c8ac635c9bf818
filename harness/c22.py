"""C22: each quantity responds to exactly what it is defined from. Every
quantity is evaluated with all parameters at seeded values, then once per
parameter with that one moved; which of these must differ is decided by the
definitions in Deps.tla."""
from vlib import *

LEVEL = "model_checking"
SHARDS = 8
RULE = "every quantity x mode (growth index given or not, kind of intrinsic alignment) x every parameter, argument and exchangeable function moved alone, from seeded base values"


def models(ck):
    ck.model("DepsModel.tla", "DepsModel.cfg", note="walks down the definitions: where each quantity's parameters come from, and the independences a user relies on")
    ck.model("DepsModel.tla", "DepsModelNeg.cfg", expect="violated", note="control: the Hubble rate wired to h")


def record(ck):
    jax, jc = setup_jax()
    import functools
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bk
    import jax_cosmo.power as power
    import jax_cosmo.transfer as tk
    from jax_cosmo.likelihood import gaussian_log_likelihood
    R, B, P, cl = jc.redshift, jc.bias, jc.probes, jc.angular_cl
    rng = ck.rng
    u = rng.uniform

    def base():
        arr = lambda n, lo, hi: onp.array(sorted(u(lo, hi) for _ in range(n)))
        p = {"Omega_c": u(0.2, 0.3), "Omega_b": u(0.03, 0.06), "h": u(0.6, 0.8), "n_s": u(0.9, 1.0), "sigma8": u(0.7, 0.9),
             "Omega_k": rng.choice([-1, 1]) * u(0.03, 0.12), "w0": u(-1.2, -0.8), "wa": rng.choice([-1, 1]) * u(0.1, 0.3), "gamma": u(0.4, 0.7),
             "smail a": u(1.2, 2.2), "smail b": u(1.2, 2.0), "smail z0": u(0.4, 0.7), "shift": u(0.05, 0.15), "plane z0": u(0.8, 1.5), "gals": u(2.0, 20.0), "parent gals": u(2.0, 20.0),
             "kde zcat": arr(4, 0.4, 1.4), "kde weight": arr(4, 0.3, 1.0), "bias": u(1.0, 2.0), "ia b": u(0.5, 1.5), "ia A": u(0.5, 1.5), "ia eta": u(0.5, 2.0), "ia z0": u(0.4, 0.8),
             "m": u(0.02, 0.1), "m of another bin": u(0.02, 0.1), "f_sky": u(0.2, 0.6), "n(z) of another bin": u(0.5, 0.9), "gals of another bin": u(2.0, 20.0),
             "a": arr(3, 0.35, 0.9), "z": arr(3, 0.3, 1.2), "k": onp.array([u(0.005, 0.02), u(0.1, 0.3), u(1.0, 3.0)]), "R": u(5.0, 12.0), "ell": onp.array([u(15, 40), u(80, 150), u(300, 700)]),
             "chi": arr(3, 300.0, 3000.0), "signal": onp.array([[u(1.0, 2.0) for _ in range(3)] for _ in range(6)]), "noise": onp.array([[u(1.0, 2.0) for _ in range(3)] for _ in range(6)]),
             "data": arr(4, 0.5, 1.5), "model": arr(4, -1.5, -0.5)}
        M = onp.array([[u(-0.4, 0.4) for _ in range(4)] for _ in range(4)])
        p["matrix"] = M @ M.T + 2.0 * onp.eye(4)
        s = {"zmax": u(1.5, 1.8), "parent zmax": u(2.0, 2.5), "kde bw": u(0.15, 0.25), "sigma_e": u(0.2, 0.4), "transfer_fn": 0, "nonlinear_fn": 0}
        return p, s
    TF = [tk.Eisenstein_Hu, functools.partial(tk.Eisenstein_Hu, type="eisenhu")]
    NL = [power.linear, lambda c, k, a, transfer_fn: 1.1 * power.linear(c, k, a, transfer_fn)]
    STATIC = {"kde bw": 0.9, "zmax": 0.93, "parent zmax": 0.93, "sigma_e": 0.93}

    def cosmo(p, mode):
        kw = {k: p[k] for k in ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")}
        return jc.Cosmology(**kw, **({"gamma": p["gamma"]} if mode["gamma"] else {}))

    def smail(p, s):
        return R.smail_nz(p["smail a"], p["smail b"], p["smail z0"], gals_per_arcmin2=p["gals"], zmax=s["zmax"])

    def second(p, s):
        return R.smail_nz(1.9, 1.6, p["n(z) of another bin"], gals_per_arcmin2=p["gals of another bin"], zmax=1.4)

    def iab(p, mode):
        return {"none": lambda: None, "const": lambda: B.constant_linear_bias(p["ia b"]), "growth": lambda: B.inverse_growth_linear_bias(p["ia b"]),
                "des": lambda: B.des_y1_ia_bias(p["ia A"], p["ia eta"], p["ia z0"])}[mode["ia"]]()

    # groups of quantities evaluated by one compiled function: (needs gamma modes, needs ia modes, statics, function)
    def background(p, s, m):
        c = cosmo(p, m)
        a = p["a"]
        one = np.atleast_1d
        return {"Omega_m": one(c.Omega_m), "Omega_de": one(c.Omega_de), "Omega": one(c.Omega), "sqrtk": one(c.sqrtk), "w": bk.w(c, a), "f_de": bk.f_de(c, a), "Esqr": bk.Esqr(c, a),
                "H": bk.H(c, a), "Omega_m(a)": bk.Omega_m_a(c, a), "Omega_de(a)": bk.Omega_de_a(c, a), "dchi/da": bk.dchioverda(c, a),
                "radial distance": bk.radial_comoving_distance(c, a), "a of chi": bk.a_of_chi(c, p["chi"]), "transverse distance": bk.transverse_comoving_distance(c, a),
                "angular distance": bk.angular_diameter_distance(c, a), "growth": bk.growth_factor(c, a), "growth rate": bk.growth_rate(c, a), "growth today": bk.growth_factor(c, np.array([1.0]))}

    def linear(p, s, m):
        c = cosmo(p, m)
        k, t = p["k"], TF[s["transfer_fn"]]
        return {"primordial power": power.primordial_matter_power(c, k), "transfer": tk.Eisenstein_Hu(c, k), "transfer without wiggles": tk.Eisenstein_Hu(c, k, type="eisenhu"),
                "sigma^2(R)": np.ravel(power.sigmasqr(c, p["R"], t)), "linear power today": np.ravel(power.linear_matter_power(c, k, transfer_fn=t)),
                "linear power": np.ravel(power.linear_matter_power(c, k, p["a"], t))}

    def nonlinear(p, s, m):
        c = cosmo(p, m)
        k, t = p["k"], TF[s["transfer_fn"]]
        r = {}
        for n, kw in (("halofit", {}), ("smith2003", {"prescription": "smith2003"})):
            r[n] = np.ravel(power.nonlinear_matter_power(c, k, p["a"], t, functools.partial(power.halofit, **kw)))
            r[n + " today"] = np.ravel(power.halofit(c, k, 1.0, t, **kw))
        return r

    def ingredients(p, s, m):
        c = cosmo(p, m)
        z = p["z"]
        sh = R.systematic_shift(R.smail_nz(p["smail a"], p["smail b"], p["smail z0"], gals_per_arcmin2=p["parent gals"], zmax=s["parent zmax"]), p["shift"], gals_per_arcmin2=p["gals"], zmax=s["zmax"])
        kd = R.kde_nz(p["kde zcat"], p["kde weight"], bw=s["kde bw"], gals_per_arcmin2=p["gals"], zmax=s["zmax"])
        sm = smail(p, s)
        return {"n(z) smail": sm(z), "n(z) kde": kd(z), "n(z) shifted": sh(z), "galaxy density": np.stack([np.asarray(d.gals_per_steradian) for d in (sm, kd, sh)]),
                "constant bias": B.constant_linear_bias(p["bias"])(c, z), "inverse growth bias": B.inverse_growth_linear_bias(p["bias"])(c, z), "des bias": B.des_y1_ia_bias(p["ia A"], p["ia eta"], p["ia z0"])(c, z)}

    def probes(p, s, m, listed=True):
        f = (lambda v: [v]) if listed else (lambda v: v)
        # the planes stand before the extended bins
        return [P.WeakLensing([smail(p, s), second(p, s)], multiplicative_bias=[p["m"], p["m of another bin"]], ia_bias=iab(p, m), sigma_e=s["sigma_e"]),
                P.NumberCounts([smail(p, s)], f(B.inverse_growth_linear_bias(p["bias"])))]

    def kernels(p, s, m):
        c = cosmo(p, m)
        z, l = p["z"], p["ell"][0]
        wl, nc = probes(p, s, m)
        pl = P.WeakLensing([R.delta_nz(p["plane z0"], gals_per_arcmin2=p["gals"], zmax=s["zmax"])], multiplicative_bias=p["m"])
        ncc = P.NumberCounts([smail(p, s)], B.constant_linear_bias(p["bias"]))
        return {"lensing kernel": wl.kernel(c, z, l)[0], "lensing kernel of planes": pl.kernel(c, z, l)[0], "clustering kernel": nc.kernel(c, z, l)[0],
                "clustering kernel, constant bias": ncc.kernel(c, z, l)[0], "lensing noise": np.atleast_1d(wl.noise())[:1], "clustering noise": np.atleast_1d(nc.noise()),
                "noise spectra": np.ravel(cl.noise_cl(p["ell"], [wl, nc]))}

    def spectra(p, s, m):
        ps = probes(p, s, m, listed=False)
        mean, cov = cl.gaussian_cl_covariance_and_mean(cosmo(p, m), p["ell"], ps, transfer_fn=TF[s["transfer_fn"]], nonlinear_fn=NL[s["nonlinear_fn"]], f_sky=p["f_sky"], sparse=True)
        rows = cl.angular_cl(cosmo(p, m), p["ell"], ps, TF[s["transfer_fn"]], NL[s["nonlinear_fn"]])
        return {"mean": mean, "spectra": np.ravel(rows), "first lensing spectrum": rows[0], "lensing spectra": np.ravel(rows[np.array([0, 1, 3])]), "covariance of the model": np.ravel(cov)[::2]}

    def statistics(p, s, m):
        ps = probes(p, s, m)
        out = {"covariance": np.concatenate([np.ravel(cl.gaussian_cl_covariance(p["ell"], ps, p["signal"], p["noise"], f_sky=p["f_sky"], sparse=sp))[::st] for sp, st in ((True, 5), (False, 19))])}
        g = lambda **kw: np.stack([np.ravel(gaussian_log_likelihood(p["data"], p["model"], p["matrix"], inverse_method=i, **kw))[0] for i in ("inverse", "cholesky")])
        out["log-likelihood"], out["chi squared"] = g(), g(include_logdet=False)
        return out
    G = [{"gamma": g, "ia": "none"} for g in (False, True)]
    IA = [{"gamma": g, "ia": i} for g in (False, True) for i in ("none", "const", "growth", "des")]
    groups = []
    for rep in range(4 if ck.thorough else 1):
        b = base()
        # the other sign of curvature, and a flat universe, over wider ranges
        b2, b3 = base(), base()
        b2[0].update({"Omega_k": -b[0]["Omega_k"], "a": onp.array([0.003, 0.2, 0.99]), "z": onp.array([0.01, 0.35, 1.35]), "k": onp.array([2e-4, 0.05, 20.0]), "chi": onp.array([20.0, 4000.0, 8000.0])})
        b3[0].update({"Omega_k": 0.0, "w0": -1.0, "a": onp.array([1.0, 0.03, 0.6])})
        for bb in (b2, b3):
            groups += [(background, m, bb, []) for m in G] + [(linear, m, bb, ["transfer_fn"]) for m in G] + [(ingredients, G[0], bb, ["zmax", "parent zmax", "kde bw"])]
            groups += [(kernels, rng.choice(IA), bb, ["zmax", "sigma_e"])]
        groups += [(spectra, m, b, ["zmax", "sigma_e", "transfer_fn", "nonlinear_fn"]) for m in (IA if ck.thorough else rng.sample(IA[:4], 1) + rng.sample(IA[4:], 1))]
        groups += [(nonlinear, m, b, ["transfer_fn"] if ck.thorough else []) for m in G]
        groups += [(background, m, b, []) for m in G] + [(linear, m, b, ["transfer_fn"]) for m in G]
        groups += [(ingredients, m, b, ["zmax", "parent zmax", "kde bw"]) for m in G]
        groups += [(kernels, m, b, ["zmax", "sigma_e"]) for m in (IA if ck.thorough else IA[:4] + rng.sample(IA[4:], 2))]
        groups += [(statistics, G[0], b, ["zmax", "sigma_e"])]
    NAMES = {spectra: ["mean", "spectra", "first lensing spectrum", "lensing spectra", "covariance of the model"], nonlinear: ["halofit", "halofit today", "smith2003", "smith2003 today"],
             background: ["Omega_m", "Omega_de", "Omega", "sqrtk", "w", "f_de", "Esqr", "H", "Omega_m(a)", "Omega_de(a)", "dchi/da", "radial distance", "a of chi", "transverse distance",
                          "angular distance", "growth", "growth rate", "growth today"],
             linear: ["primordial power", "transfer", "transfer without wiggles", "sigma^2(R)", "linear power today", "linear power"],
             ingredients: ["n(z) smail", "n(z) kde", "n(z) shifted", "galaxy density", "constant bias", "inverse growth bias", "des bias"],
             kernels: ["lensing kernel", "lensing kernel of planes", "clustering kernel", "clustering kernel, constant bias", "lensing noise", "clustering noise", "noise spectra"],
             statistics: ["covariance", "log-likelihood", "chi squared"]}
    moves = {k: (onp.array([1 + 0.05 * (1 + i % 3) for i in range(onp.size(v))]).reshape(onp.shape(v)) if k not in ("matrix", "a") else 1.0 + 0.1 * onp.eye(4) if k == "matrix" else onp.array([0.95, 0.9, 0.85])) for k, v in groups[0][2][0].items()}
    for gi, (fn, mode, (p, s), statics) in enumerate(groups):
        memo = {}

        def table(fn=fn, mode=mode, p=p, s=s, statics=statics, memo=memo):
            if not memo:
                put = lambda d: {k: [float(x) for x in onp.ravel(onp.asarray(v, dtype=float))] for k, v in d.items()}
                tr = {k: np.asarray(v, dtype=float) for k, v in p.items()}
                f = jax.jit(lambda q: fn(q, s, mode))
                memo["base"] = put(f(tr))
                memo["moved"] = {k: put(f(dict(tr, **{k: np.where(tr[k] == 0.0, 0.04, tr[k] * moves[k])}))) for k in p}
                for k in statics:
                    s2 = dict(s, **{k: s[k] * STATIC[k] if k in STATIC else 1})
                    memo["moved"][k] = put(jax.jit(lambda q: fn(q, s2, mode))(tr))
            return memo
        for q in NAMES[fn]:
            ck.event("dependence", lambda q=q, table=table: {"base": table()["base"][q], "moved": {k: v[q] for k, v in table()["moved"].items()}}, shardkey=gi, quantity=q, mode=mode, tag=f"{q} {mode}")
