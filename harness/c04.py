"""C04: automatic derivatives. Every public computation is sampled around a
parameter set; TLC (Derivative) forms the difference formulas, decides whether
the function is resolved there and compares with forward and reverse mode."""
from vlib import *
from comps import computations

LEVEL = "model_checking"
SHARDS = 8
RULE = "every public computation at two parameter sets (one with exactly zero curvature), all scalar parameters, all query points and a sample of array entries: nine-point difference formulas against jvp and grad"


def models(ck):
    ck.model("DerivativeModel.tla", "DerivativeModel.cfg", note="difference formulas on polynomials, exponentials and kinks")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    T = jax.tree_util
    rng = ck.rng
    comps = [c for c in computations(jax, jc, rng)]
    L = onp.array([20.0, 300.0, 77.0])
    R, B, P = jc.redshift, jc.bias, jc.probes
    cl = jc.angular_cl
    data = np.array([1e-6, 2e-7, 4e-8])

    def pipeline(p, sp):
        mu, cov = cl.gaussian_cl_covariance_and_mean(p[0], np.asarray([20.0, 60.0, 150.0]), p[1], sparse=sp)
        return np.ravel(jc.likelihood.gaussian_log_likelihood(mu * 1.1 + 1e-9, mu, cov))
    two = [(jc.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.02 * i, -1.0 + 0.1 * i, 0.1 * i),
            [P.WeakLensing([R.smail_nz(1.2, 2.0, 0.5, gals_per_arcmin2=5.0, zmax=2.5)], multiplicative_bias=0.01, ia_bias=B.des_y1_ia_bias(0.5, 0.1, 0.6)),
             P.NumberCounts([R.smail_nz(1.5, 2.0, 0.4, gals_per_arcmin2=5.0, zmax=2.5)], B.inverse_growth_linear_bias(1.3))]) for i in (0, 1)]
    comps.append(("likelihood of the pipeline", two, None, lambda p: pipeline(p, True), None, None, False, True))
    if ck.thorough:
        comps.append(("likelihood of the pipeline (dense)", two, None, lambda p: pipeline(p, False), None, None, False, True))
    import jax_cosmo.background as bk
    two = [jc.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.04 * i, -1.0 - 0.1 * i, 0.1 * i) for i in (0, 1)]
    for n in ("w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda"):
        comps.append((n + " today", two, onp.array([1.0, 0.06]), getattr(bk, n), -1, None, True, False))
    iscosmo = lambda x: isinstance(x, jc.Cosmology)

    def flat(p):
        def one(x):
            if not iscosmo(x):
                return x
            l, t = T.tree_flatten(x)
            l[5] = 0.0
            return T.tree_unflatten(t, l)
        return T.tree_map(one, p, is_leaf=iscosmo)
    undecided = [0, 0]
    # longest first over the processes
    est = lambda n: 170 if n.startswith(("angular_cl lensing, halofit", "likelihood of the p")) else 110 if n.startswith("halofit") else 75 if n.startswith("angular") else \
        30 if "matter_power" in n or n.startswith("nonlinear") else 10 if n.startswith(("sigmasqr", "kernel", "gaussian_cl")) else 2
    comps.sort(key=lambda c: -est(c[0]))
    load, shard = [0] * ck.nparts, []
    for c in comps:
        shard.append(load.index(min(load)))
        load[shard[-1]] += est(c[0])
    for ci, (name, pars, X, f, ax, only, scalar, big) in enumerate(comps):
        heavy = big or "halofit" in name
        hascos = any(iscosmo(x) for x in T.tree_leaves(pars[0], is_leaf=iscosmo))
        sets = [("second", pars[1])]
        if name.startswith("derived"):
            sets = [("curved", pars[1 if "gamma" not in name else 0])]
        elif hascos:
            sets.append(("flat", flat(pars[0])))
            if ck.thorough:
                sets.append(("first", pars[0]))
        else:
            sets.append(("first", pars[0]))
        if ck.thorough and not name.startswith("derived"):
            sets.append(("perturbed", T.tree_map(lambda v: np.asarray(v, dtype=float) * (1.0 + 0.03 * (rng.random() - 0.5)), pars[1])))
        if heavy and not ck.thorough:
            sets = sets[-1:]
        seed = rng.randrange(1 << 30)
        memo = {}
        for tag, par in sets:
            def obs(memo=memo, name=name, heavy=heavy, f=f, par=par, X=X, only=only, ax=ax, seed=seed, big=big):
                r = random.Random(seed)
                leaves, td = T.tree_flatten(par)
                leaves = [onp.asarray(v, dtype=float) for v in leaves]
                sizes = [v.size for v in leaves]
                shapes = [v.shape for v in leaves]
                npar = sum(sizes)
                th0 = onp.concatenate([v.ravel() for v in leaves] + ([] if X is None else [onp.ravel(onp.asarray(X, dtype=float))]))

                def vec(th):
                    o, q = [], 0
                    for s, sh in zip(sizes, shapes):
                        o.append(np.reshape(th[q:q + s], sh))
                        q += s
                    p = T.tree_unflatten(td, o)
                    x = None if X is None else np.reshape(th[npar:], onp.shape(X))
                    if X is None:
                        return np.ravel(f(p))
                    if only == "vmap":
                        return np.concatenate([np.ravel(f(p, x[i:i + 1])) for i in range(len(X))])
                    return np.ravel(f(p, x))
                fns = memo
                if not fns:      # compiled once for all parameter sets
                    fns["g"] = jax.jit(vec)
                    # compiling the reverse pass of the non-linear power takes minutes, running it does not
                    fns["rev"] = (lambda h: h) if heavy else jax.jit
                    fns["rev"] = fns["rev"](jax.grad(lambda th, w: np.dot(w, vec(th))))
                    fns["jv"] = jax.jit(lambda t, v, w: jax.jvp(lambda th: np.dot(w, vec(th)), (t,), (v,))[1])
                g = fns["g"]
                y0 = onp.asarray(g(th0))
                m = onp.max(onp.abs(y0)) or 1.0
                w = onp.array([r.choice([-1, 1]) * r.uniform(0.5, 1.5) for _ in y0]) / onp.maximum(onp.abs(y0), 1e-3 * m) / len(y0)
                val = lambda th: float(onp.dot(w, onp.asarray(g(th))))
                rev = onp.asarray(fns["rev"](th0, w))
                jv = lambda t, v: fns["jv"](t, v, w)
                idx = list(range(len(th0)))
                names = [("%d" % i) for i, sz in enumerate(sizes) for _ in range(sz)] + ["query"] * (len(th0) - npar)
                lim = 60 if ck.thorough else 18
                if npar > lim:
                    idx = sorted(r.sample(idx[:npar], lim)) + idx[npar:]
                scale = float(onp.dot(onp.abs(w), onp.abs(y0))) + 1e-30
                out = []
                for i in idx:
                    e = onp.zeros_like(th0)
                    e[i] = 1.0
                    best = None
                    for hr in (5e-4, 4e-3, 6e-5):
                        if best is not None and best[0] < 1e-7 * scale:
                            break
                        h = hr * max(abs(th0[i]), 0.2)
                        F = [val(th0 + (j - 4) * h * e) for j in range(9)]
                        D = [F[4 + j] - F[4 - j] for j in range(5)]
                        d8 = (672 * D[1] - 168 * D[2] + 32 * D[3] - 3 * D[4]) / (840 * h)
                        d6 = (45 * D[1] - 9 * D[2] + D[3]) / (60 * h)
                        d4 = (8 * D[2] - D[4]) / (24 * h)
                        err = abs(d8 - d6) + abs(d8 - d4) / 10 + 1e-13 * scale / h
                        if best is None or err < best[0]:
                            best = (err, F, h)
                    out.append({"name": names[i], "F": best[1], "h": float(best[2]), "fwd": float(jv(th0, e)), "rev": float(rev[i]), "err": float(best[0])})
                    undecided[0] += 1
                    undecided[1] += best[0] > 1e-4 * max(abs(rev[i]) if onp.isfinite(rev[i]) else 0.0, 0.1 * scale)
                return {"leaves": out, "allfinite": bool(onp.all(onp.isfinite(rev))), "scale": scale, "tables": "halofit" in name or "pipeline" in name, "sharp": "planes" in name or "delta" in name}
            ck.event(name, obs, shardkey=shard[ci], tag=tag)
    ck.cov["parameters_differentiated"] = undecided[0]
    ck.cov["parameters_at_breakpoints_undecided"] = int(undecided[1])
