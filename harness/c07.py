"""C07: Gaussian covariance."""
from vlib import *
import cosmos, dists, ducks

LEVEL = "model_checking"
SHARDS = 6
RULE = "1..4 tracers x irregular multipoles x arbitrary signal and noise spectra x sky fractions, sparse and dense, eager and jit; combined mean-and-covariance calls with library and own probes"


def models(ck):
    ck.model("TracersModel.tla", "TracersModel.cfg", note="block ordering of the covariance symmetric under exchange of rows")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.power as power
    from jax_cosmo.angular_cl import angular_cl, noise_cl, gaussian_cl_covariance, gaussian_cl_covariance_and_mean
    Duck = ducks.duck_class(jc)
    rng = ck.rng
    tf = lambda q, k: 1.0 / (1.0 + 10 * k)
    nf = lambda q, k, a, transfer_fn: transfer_fn(q, k) * a * 1e4

    def ducks_(groups, noise):
        o, out = 0, []
        for m in groups:
            out.append(Duck([1.0 + 0.3 * (o + t) for t in range(m)], [0.4 + 0.1 * (o + t) for t in range(m)], [1e-3] * m, noise[o:o + m], zmax=2.0))
            o += m
        return out
    for i in range(60 if ck.thorough else 24):
        n = 1 + i % 4
        groups = {1: [1], 2: rng.choice([[2], [1, 1]]), 3: rng.choice([[1, 2], [2, 1], [3]]), 4: rng.choice([[1, 3], [2, 2], [1, 1, 2]])}[n]
        npair = n * (n + 1) // 2
        nl = rng.randrange(2, 7 - n // 2)
        ell = sorted(rng.uniform(2, 1000) for _ in range(nl)) if i % 3 else [float(x) for x in sorted(rng.sample(range(2, 500), nl))]
        integer = i % 2 == 0
        val = (lambda: float(rng.randrange(-9, 10))) if integer else (lambda: rng.uniform(-1, 1) * 10 ** rng.uniform(-9, -5))
        S = [[val() for _ in range(nl)] for _ in range(npair)]
        Nn = [[val() for _ in range(nl)] for _ in range(npair)]
        f = rng.choice([0.25, 1.0, rng.uniform(0.01, 1)])
        form = rng.randrange(3)

        def cov():
            probes = ducks_(groups, [1.0] * n)
            L = np.array(ell)
            if form == 0:
                fn = lambda s, t, sp: gaussian_cl_covariance(L, probes, s, t, f_sky=f, sparse=sp)
            elif form == 1:
                j = jax.jit(lambda s, t, fs, sp: gaussian_cl_covariance(L, probes, s, t, fs, sp), static_argnums=3)
                fn = lambda s, t, sp: j(s, t, f, sp)
            else:   # default sky fraction and format where they apply
                fn = lambda s, t, sp: gaussian_cl_covariance(L, probes, s, t, **({} if f == 0.25 else {"f_sky": f}), **({} if sp else {"sparse": False}))
            s, t = np.array(S), np.array(Nn)
            return {"sparse": fn(s, t, True), "dense": fn(s, t, False)}
        ck.event("cov", cov, n=n, ell=ell, s=S, t=Nn, fsky=f, tag=f"{i}/{groups}/{form}")
    for i in range(24 if ck.thorough else 12):
        n = 1 + i % 3
        groups = {1: [1], 2: rng.choice([[2], [1, 1]]), 3: rng.choice([[1, 2], [2, 1]])}[n]
        nl = rng.randrange(2, 5)
        ell = sorted(rng.uniform(5, 800) for _ in range(nl))
        f = rng.choice([0.25, rng.uniform(0.05, 1)])
        lib = i % 4 == 3
        c = cosmos.draw(rng, gammas=False)
        own = [rng.uniform(1e-9, 1e-7) for _ in range(n)]
        ds = [dists.draw(rng, ("smail",), zmax=2.5) for _ in range(n)]
        se = [rng.uniform(0.2, 0.4) for _ in range(n)]
        sparse = rng.choice([True, False, None])

        def mean():
            cosmo = cosmos.build(jc, c)
            L = np.array(ell)
            if lib:
                nz = [dists.build(jc, d) for d in ds]
                probes = [jc.probes.WeakLensing(nz[:1], sigma_e=se[:1])] + ([jc.probes.NumberCounts(nz[1:], jc.bias.constant_linear_bias(1.3))] if n > 1 else [])
                own_ = [float(x) for p in probes for x in p.noise()]
            else:
                probes, own_ = ducks_(groups, own), own
            kw = {} if sparse is None else {"sparse": sparse}
            if not (f == 0.25 and i % 2):
                kw["f_sky"] = f
            mu, cv = jax.jit(lambda q: gaussian_cl_covariance_and_mean(q, L, probes, transfer_fn=tf, nonlinear_fn=nf, **kw))(cosmo) if i % 3 == 1 else \
                gaussian_cl_covariance_and_mean(cosmo, L, probes, tf, nf, **kw)
            return {"s": angular_cl(cosmo, L, probes, tf, nf), "t": noise_cl(L, probes), "mean": mu, "sparse": cv if sparse else [], "dense": [] if sparse else cv, "own": own_}
        ck.event("mean", mean, n=n, ell=ell, fsky=f, tag=f"{i}/{groups}/{lib}/{sparse}")
