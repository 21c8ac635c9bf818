"""C20: kernels, bias, noise."""
from vlib import *
import cosmos, dists

LEVEL = "model_checking"
SHARDS = 7
RULE = "seeded cosmologies x probes (1..4 bins, every mix/order of single-plane and extended bins, shared/per-bin bias of each kind, scalar/per-bin m and sigma_e, alignments) x redshifts x multipoles, eager and jit"


def models(ck):
    ck.model("ProbesModel.tla", "ProbesModel.cfg", note="closed-form normalisations, translation, multipole factor, limits of the lensing efficiency")


def one_or_list(rng, n, f):
    """python scalar or list, with the values recorded as a sequence"""
    if rng.random() < 0.5:
        v = f()
        return v, [v]
    v = [f() for _ in range(n)]
    return v, v


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    rng = ck.rng
    cs = cosmos.sample(rng, 90 if ck.thorough else 36)
    for i, c in enumerate(cs):
        nb = 1 + i % 4
        mask = rng.randrange(2 ** nb) if i % 3 else (2 ** nb - 1 if i % 2 else 0)
        if i % 6 == 5:
            mask = 0
        zm = rng.uniform(2.5, 4.0) if i % 2 else None
        # the quadrature resolves wide distributions
        bins = [dists.draw(rng, ("delta",) if mask >> j & 1 else ("smail", "kde", "shift"), zmax=zm, wide=True) for j in range(nb)]
        ia = mask == 0 and i % 4 != 1
        ell = rng.choice([2.0, 10.0, rng.uniform(3, 3000)])
        zmax = max(d["zmax"] for d in bins)
        z = sorted(rng.uniform(0.05, min(2.0, zmax)) for _ in range(3))
        if i % 6 == 5:      # sources far away
            bins = [{"kind": "smail", "n": 4.0, "zmax": 9.0, "p": [2.0, rng.uniform(1.6, 2.2), rng.uniform(2.0, 3.5)]} for _ in range(nb)]
            zmax = 9.0
            z = sorted([rng.uniform(0.3, 2.5), rng.uniform(3.2, 5.5), rng.uniform(5.5, 7.0)])
            ia = True
        mv, mrec = one_or_list(rng, nb, lambda: rng.uniform(-0.1, 0.1))
        sv, srec = one_or_list(rng, nb, lambda: rng.uniform(0.1, 0.4))
        bv, brec = one_or_list(rng, nb, lambda: dists.bias(rng))
        mk_b = lambda t: [dists.mkbias(jc, b, t) for b in bv] if isinstance(bv, list) else dists.mkbias(jc, bv, t)
        brecs = [{"delta": d["kind"] == "delta", "n": d["n"], "chi0": 0.0} for d in bins]
        form = rng.randrange(3)

        def wl():
            cosmo = cosmos.build(jc, c, form == 1)
            Z = np.array(z)
            nzs = [dists.build(jc, d, form == 1) for d in bins]
            P = jc.probes.WeakLensing
            plain = P(nzs, sigma_e=sv)
            kw = {"multiplicative_bias": mv, "sigma_e": sv}
            if ia:
                kw["ia_bias"] = mk_b(form == 1)
            full = P(nzs, **kw)
            g = (lambda p: jax.jit(lambda q, x: p.kernel(q, x, ell))) if form else (lambda p: lambda q, x: p.kernel(q, x, ell))
            k0, k1 = g(plain)(cosmo, Z), g(full)(cosmo, Z)
            chiof = lambda zz: bkgrd.radial_comoving_distance(cosmo, 1.0 / (1.0 + zz))
            zp = [np.linspace(x, zmax, 257) for x in z]
            bs = [dict(b, chi0=float(chiof(np.array([d["z0"]]))[0]) if b["delta"] else 0.0) for b, d in zip(brecs, bins)]
            return {"plain": k0, "full": k1, "chi": chiof(Z), "chip": [chiof(p) for p in zp],
                    "dn": [[[] if b["delta"] else n(p) for p in zp] for n, b in zip(nzs, brecs)],
                    "nz": [onp.zeros(len(z)) if b["delta"] else n(Z) for n, b in zip(nzs, brecs)],
                    "D": bkgrd.growth_factor(cosmo, 1.0 / (1.0 + Z)), "bins": bs, "noise": full.noise(), "ntr": int(full.n_tracers), "pzmax": float(full.zmax)}
        ck.event("wl", wl, c=cosmos.rec(c), ell=float(ell), z=z, zmax=zmax, ia=ia, m=mrec, sige=srec, bias=brec, tag=f"{i}/mask{mask}/{form}")

        nb2 = 1 + (i + 1) % 4
        bins2 = [dists.draw(rng, ("smail", "kde", "shift"), zmax=zm, wide=True) for _ in range(nb2)]
        bv2, brec2 = one_or_list(rng, nb2, lambda: dists.bias(rng))
        zmax2 = max(d["zmax"] for d in bins2)

        def nc():
            cosmo = cosmos.build(jc, c, form == 0)
            Z = np.array(z)
            nzs = [dists.build(jc, d, form == 1) for d in bins2]
            b = [dists.mkbias(jc, x) for x in bv2] if isinstance(bv2, list) else dists.mkbias(jc, bv2)
            p = jc.probes.NumberCounts(nzs, b)
            k = (jax.jit(lambda q, p, x: p.kernel(q, x, ell)) if form == 2 else (lambda q, p, x: p.kernel(q, x, ell)))(cosmo, p, Z)
            return {"full": k, "nz": [n(Z) for n in nzs], "D": bkgrd.growth_factor(cosmo, 1.0 / (1.0 + Z)), "noise": p.noise(),
                    "bins": [{"delta": False, "n": d["n"], "chi0": 0.0} for d in bins2], "ntr": int(p.n_tracers), "pzmax": float(p.zmax)}
        ck.event("nc", nc, c=cosmos.rec(c), ell=float(ell), z=z, zmax=zmax2, bias=brec2, tag=f"{i}/{form}")

        b0 = dists.bias(rng, [("const",), ("invgrowth",), ("des",)][i % 3])

        def bias():
            cosmo = cosmos.build(jc, c)
            Z = np.array(z)
            return {"b": dists.mkbias(jc, b0, i % 2 == 0)(cosmo, Z), "D": bkgrd.growth_factor(cosmo, 1.0 / (1.0 + Z)), "bins": []}
        ck.event("bias", bias, c=cosmos.rec(c), z=z, bias=[b0], tag=str(i))
