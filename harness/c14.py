"""C14: expansion history and density budget."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 6
RULE = ("corner and seeded cosmologies (curvature signs, w0, wa, growth index) x seeded scale factors in [0.001, 1.5]; derived "
        "properties; predefined cosmology with every subset size of overrides; eager, jit, scalar and array arguments")


def models(ck):
    ck.model("CosmoModel.tla", "CosmoModel.cfg", note="budget, conservation, closed forms on a lattice of cosmologies")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    from jax_cosmo import utils
    rng = ck.rng
    for i, c in enumerate(cosmos.sample(rng, 60 if ck.thorough else 24)):
        a = sorted([1.0, 0.001, 1.5] + [rng.uniform(0.05, 1.4) for _ in range(6)] + [10 ** rng.uniform(-3, 0) for _ in range(4)])
        arr = i % 2 == 0

        def obs():
            cosmo = cosmos.build(jc, c, arr)
            A = np.array(a)
            f = (lambda g: jax.jit(g)) if i % 3 == 0 else (lambda g: g)
            fs = dict(w=bkgrd.w, fde=bkgrd.f_de, E2=bkgrd.Esqr, H=bkgrd.H, Om=bkgrd.Omega_m_a, Ode=bkgrd.Omega_de_a)
            o = {k: onp.broadcast_to(f(g)(cosmo, A), A.shape) for k, g in fs.items()}
            o["H1"] = bkgrd.H(cosmo, 1.0)
            s = {k: float(onp.ravel(g(cosmo, a[3]))[0]) for k, g in fs.items()}
            o["scalars"] = all(abs(s[k] - float(o[k][3])) <= 1e-12 * (1 + abs(s[k])) for k in s)
            return o
        ck.event("background", obs, c=cosmos.rec(c), a=a, tag=str(i))

        def props():
            cosmo = cosmos.build(jc, c, True)
            if i % 3 == 1:  # through a pytree boundary
                cosmo = jax.tree_util.tree_map(lambda v: v, cosmo)
            p = {k: float(getattr(cosmo, k)) for k in cosmos.NAMES + ["Omega_m", "Omega", "Omega_de", "k", "sqrtk"]}
            p["hasgamma"] = cosmo.gamma is not None
            p["gamma"] = float(cosmo.gamma) if cosmo.gamma is not None else 0.0
            return {"p": p}
        ck.event("properties", props, c=cosmos.rec(c), tag=str(i))
    # special values: weak curvature of either sign, no or nearly no dark energy, phantom and stiff equations of state
    special = [dict(Omega_k=s * x) for s in (-1, 1) for x in (1e-9, 1e-6, 9e-5, 9e-4, 9e-3)] + [
        dict(Omega_c=0.95, Omega_b=0.05), dict(Omega_c=0.9499, Omega_b=0.05), dict(Omega_c=1.1, Omega_b=0.1, Omega_k=-0.2), dict(Omega_c=0.25, Omega_b=0.05, Omega_k=0.7),
        dict(Omega_c=1e-3, Omega_b=1e-4), dict(w0=-1.0, wa=0.3), dict(w0=-1.6, wa=-0.8), dict(w0=-0.34, wa=0.0), dict(w0=0.0, wa=0.0), dict(w0=-0.6, wa=0.59), dict(h=1.0), dict(n_s=1.0, sigma8=0.0), dict(gamma=0.0), dict(w0=-1.0 - 1e-9, wa=1e-9)]
    for i, sp in enumerate(special):
        c = dict(cosmos.mk(0.25, 0.05), **sp)
        a = [0.001, 0.0021, 0.03, 0.2, 0.5, 0.7, 0.999, 1.0, 1.3]

        def obs():
            cosmo = cosmos.build(jc, c, i % 2 == 0)
            A = np.array(a)
            fs = dict(w=bkgrd.w, fde=bkgrd.f_de, E2=bkgrd.Esqr, H=bkgrd.H, Om=bkgrd.Omega_m_a, Ode=bkgrd.Omega_de_a)
            o = {k: onp.broadcast_to(g(cosmo, A), A.shape) for k, g in fs.items()}
            o["H1"] = bkgrd.H(cosmo, 1.0)
            o["scalars"] = True
            return o
        ck.event("background", obs, c=cosmos.rec(c), a=a, tag="special %s" % sp)

        def props():
            cosmo = cosmos.build(jc, c, True)
            p = {k: float(getattr(cosmo, k)) for k in cosmos.NAMES + ["Omega_m", "Omega", "Omega_de", "k", "sqrtk"]}
            p["hasgamma"] = cosmo.gamma is not None
            p["gamma"] = float(cosmo.gamma) if cosmo.gamma is not None else 0.0
            return {"p": p}
        ck.event("properties", props, c=cosmos.rec(c), tag="special %s" % sp)
    for i in range(24 if ck.thorough else 12):
        names = cosmos.NAMES + ["gamma"]
        c = cosmos.draw(rng)
        c["gamma"] = 0.6
        over = {k: c[k] for k in rng.sample(names, [0, 1, 1, 1, 2, 3, 8, 9][i % 8])}

        def obs():
            cosmo = jc.Planck15(**over)
            p = {k: float(getattr(cosmo, k)) for k in cosmos.NAMES}
            p["hasgamma"] = cosmo.gamma is not None
            p["gamma"] = float(cosmo.gamma) if cosmo.gamma is not None else 0.0
            full = dict(Omega_c=0.2589, Omega_b=0.04860, Omega_k=0.0, h=0.6774, n_s=0.9667, sigma8=0.8159, w0=-1.0, wa=0.0)
            full.update(over)
            A = np.array([0.01, 0.3, 0.7, 1.0])
            return {"p": p, "H": bkgrd.H(cosmo, A), "Hbuilt": bkgrd.H(jc.Cosmology(**full), A)}
        ck.event("planck", obs, over=over or {"none": 0.0}, tag=str(i))

    z = [0.0, 1e-4, 0.1, 0.5, 1.0, 3.0, 9.0, 1100.0, -0.3]

    def red():
        a = utils.z2a(np.array(z))
        return {"a": a, "zz": utils.a2z(a)}
    ck.event("redshift", red, z=z)
