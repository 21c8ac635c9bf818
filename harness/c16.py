"""C16: linear growth."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 6
RULE = "corner and seeded cosmologies (curvature, w0, wa, with and without growth index incl. gamma = 0 and 1) x 129 scale factors from 0.001 to 1"


def models(ck):
    ck.model("GrowthModel.tla", "GrowthModel.cfg", note="growing solution: EdS, open and Lambda closed forms, gamma limits, convergence")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    rng = ck.rng
    cs = cosmos.sample(rng, 64 if ck.thorough else 24)
    cs += [cosmos.mk(Ok=0.1, w0=-0.9, gamma=0.0), cosmos.mk(gamma=1.0), cosmos.mk(gamma=0), cosmos.mk(Ok=-0.1, gamma=0.3)]
    a = 10 ** (-3 + 3 * onp.arange(256, -1, -2) / 256.0)
    a[0] = 1.0
    for i, c in enumerate(cs):
        def obs():
            cosmo = cosmos.build(jc, c, i % 2 == 0)
            if i % 4 == 3:
                cosmo = jax.tree_util.tree_map(lambda v: v, cosmo)
            g = (lambda h: jax.jit(h)) if i % 3 == 2 else (lambda h: h)
            A = np.array(a)
            order = [bkgrd.growth_factor, bkgrd.growth_rate]
            if i % 2:   # the rate first, on a fresh object
                f = g(order[1])(cosmo, A)
                D = g(order[0])(cosmo, A)
            else:
                D = g(order[0])(cosmo, A)
                f = g(order[1])(cosmo, A)
            fresh = cosmos.build(jc, c, True)
            ok = True
            for q in (0, 17, 64, 128):
                ok &= abs(float(onp.ravel(bkgrd.growth_factor(fresh, A[q:q + 1]))[0]) - float(D[q])) < 1e-9
                ok &= abs(float(onp.ravel(bkgrd.growth_rate(fresh, A[q:q + 1]))[0]) - float(f[q])) < 1e-9
            return {"D": D, "f": f, "single": bool(ok)}
        ck.event("growth", obs, c=cosmos.rec(c), tag=str(i))
