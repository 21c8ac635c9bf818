"""C08: Gaussian log-likelihood."""
from vlib import *

LEVEL = "model_checking"
SHARDS = 8
RULE = ("seeded residuals and positive-definite covariances (n tracers x n multipoles blocks, also plain dense), units from 2^-80 to 2^20, "
        "evaluated through every path (sparse; dense inverse; dense cholesky; default; jit) with and without determinant")


def models(ck):
    ck.model("GaussModel.tla", "GaussModel.cfg", note="identities of the log-likelihood operator")
    ck.model("GaussModel.tla", "GaussModelNeg.cfg", expect="violated", note="non-vacuity: log det grows with the covariance")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    from jax_cosmo.likelihood import gaussian_log_likelihood as gll
    from jax_cosmo import sparse as sp
    rng = ck.rng
    # large ones, whose determinants leave the range of floating-point numbers
    LARGE = [(3, 8, -80), (20, 1, -60), (18, 1, 64), (4, 9, 60), (2, 20, -42)] + ([(45, 1, -60), (6, 8, -40), (40, 1, 40)] if ck.thorough else [])
    for r in range((100 if ck.thorough else 32) + len(LARGE)):
        sparse = r % 3 != 0
        nb, nd = (rng.randint(1, 4), rng.randint(1, 4)) if sparse else (rng.randint(1, 7), 1)
        if r < len(LARGE):
            nb, nd, _ = LARGE[r]
            sparse = nd > 1
        n = nb * nd
        S = onp.zeros((nb, nb, nd))
        for d in range(nd):
            B = onp.array([[rng.randint(-8, 8) / 4.0 for _ in range(nb)] for _ in range(nb)])
            S[:, :, d] = B @ B.T + rng.choice([0.25, 1.0, 2.0]) * onp.eye(nb)
        ce, de = rng.choice([(0, 0), (0, 0), (-60, -30), (-80, -42), (20, 8), (-3, 2)])
        if r < len(LARGE):
            ce = LARGE[r][2]
            de = ce // 2
        dr = onp.array([rng.randint(-64, 64) / 16.0 for _ in range(n)])
        mr = onp.array([rng.randint(-64, 64) / 16.0 for _ in range(n)]) if r % 7 else dr.copy()
        Sf = S * 2.0 ** ce
        d, mu = dr * 2.0 ** de, mr * 2.0 ** de
        D = onp.zeros((n, n))
        for a in range(nb):
            for b in range(nb):
                for q in range(nd):
                    D[a * nd + q, b * nd + q] = Sf[a, b, q]

        def obs():
            d_, mu_, D_, S_ = np.array(d), np.array(mu), np.array(D), np.array(Sf)
            ways = {"dense inverse": lambda **k: gll(d_, mu_, D_, inverse_method="inverse", **k),
                    "dense cholesky": lambda **k: gll(d_, mu_, D_, inverse_method="cholesky", **k),
                    "dense default": lambda **k: gll(d_, mu_, D_, **k)}
            if sparse:
                ways["sparse"] = lambda **k: gll(d_, mu_, S_, **k)
                ways["sparse, method ignored"] = lambda **k: gll(d_, mu_, S_, inverse_method="cholesky", **k)
            if r % 2 == 0:
                ways["jit dense"] = lambda **k: jax.jit(lambda a, b, c: gll(a, b, c, **k))(d_, mu_, D_)
                if sparse:
                    ways["jit sparse"] = lambda **k: jax.jit(lambda a, b, c: gll(a, b, c, **k))(d_, mu_, S_)
            how = list(ways)
            full = [(ways[h]() if i % 2 else ways[h](include_logdet=True)) for i, h in enumerate(how)]
            chi = [ways[h](include_logdet=False) for h in how]
            return {"how": how, "full": full, "chi": chi, "scalar": all(onp.shape(v) == () for v in full + chi)}
        ck.event("loglike", obs, C=S if sparse else S[:, :, 0], d=dr, mu=mr, sparse=sparse, ce=ce, qscale=2.0 ** (2 * de - ce), tag=f"{nb}x{nd} 2^{ce}")
