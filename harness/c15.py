"""C15: distances."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 8
RULE = "corner and seeded cosmologies x scale factors in [0.001,1] (incl. both ends) x default and finer tables; chi -> a round trips; curvature images and their continuity at flatness"


def models(ck):
    ck.model("CosmoModel.tla", "CosmoModel.cfg", note="closed-form distances, curvature branches continuous at flatness")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    rng = ck.rng
    WEAK = [s * x for s in (-1, 1) for x in (3e-7, 3e-6, 3e-5, 3e-4, 9e-4, 2e-3, 9e-3, 3e-2)]
    for i, c in enumerate(cosmos.sample(rng, 64 if ck.thorough else 24)):
        a = sorted([0.001, 1.0, 0.9995, 0.00103] + [rng.uniform(0.1, 1.0) for _ in range(5)] + [10 ** rng.uniform(-3, 0) for _ in range(4)])

        def obs():
            cosmo = cosmos.build(jc, c, i % 2 == 0)
            A = np.array(a)
            g = (lambda f: jax.jit(f)) if i % 3 == 2 else (lambda f: f)
            chi = g(bkgrd.radial_comoving_distance)(cosmo, A)
            back = g(bkgrd.a_of_chi)(cosmo, chi)
            fine = bkgrd.radial_comoving_distance(cosmo, A, steps=2048)
            half = [x for x in a if x > 0.1]
            sub = bkgrd.radial_comoving_distance(cosmo, np.array(half), log10_amin=-1, steps=1024)
            tr = g(bkgrd.transverse_comoving_distance)(cosmo, A)
            da = g(bkgrd.angular_diameter_distance)(cosmo, A)
            dc = bkgrd.dchioverda(cosmo, A)
            one = bkgrd.radial_comoving_distance(cosmo, a[4])
            # curvature crossing: same cosmology, Omega_k moved just across the switches
            near = []
            for ok in (-2e-4, -1.001e-4, -0.999e-4, -1e-7, 0.0, 1e-7, 0.999e-4, 1.001e-4, 2e-4):
                cc = dict(c, Omega_k=ok)
                near.append(bkgrd.transverse_comoving_distance(cosmos.build(jc, cc, True), np.array([0.3]))[0])
            # weak curvature of either sign, where series and closed forms meet
            weak, weakchi = [], []
            for ok in WEAK:
                cc = cosmos.build(jc, dict(c, Omega_k=ok), True)
                weak.append(bkgrd.transverse_comoving_distance(cc, np.array([0.3]))[0])
                weakchi.append(bkgrd.radial_comoving_distance(cc, np.array([0.3]))[0])
            return {"weak": weak, "weakchi": weakchi, "chi": chi, "back": back, "fine": fine, "sub": sub, "suba": half, "tr": tr, "da": da, "dc": dc, "one": onp.ravel(one), "near": near}
        ck.event("distance", obs, c=cosmos.rec(c), a=a, weakok=WEAK, nearok=[-2e-4, -1.001e-4, -0.999e-4, -1e-7, 0.0, 1e-7, 0.999e-4, 1.001e-4, 2e-4], tag=str(i))
