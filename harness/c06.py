"""C06: Limber integrals."""
from vlib import *
import cosmos, dists, ducks
from c17 import user

LEVEL = "model_checking"
SHARDS = 8
RULE = "probes of our own with closed-form kernels and power (exact reference integral) and library probes with recorded factors x cosmologies x multipoles x transfer and non-linear functions, eager and jit"


def models(ck):
    ck.model("LimberModel.tla", "LimberModel.cfg", note="bilinear in the kernels, linear in the power, symmetric; converged against a finer rule")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    import jax_cosmo.power as power
    import jax_cosmo.transfer as tk
    from jax_cosmo.angular_cl import angular_cl
    Duck = ducks.duck_class(jc)
    rng = ck.rng
    cs = cosmos.sample(rng, 80 if ck.thorough else 32)
    for i, c in enumerate(cs):
        groups = rng.choice([[1], [2], [1, 1], [2, 1], [3], [1, 2]])
        nt = sum(groups)
        A = [rng.uniform(-2, 2) for _ in range(nt)]
        s = [rng.uniform(0.3, 1.0) for _ in range(nt)]
        v = [rng.uniform(0, 1e-3) for _ in range(nt)]
        zms = [rng.uniform(1.0, 4.0) for _ in groups]
        amp, g, k0 = rng.uniform(0.5, 2) * 1e4, rng.choice([0, 1, 2]), 10 ** rng.uniform(-2, 0)
        ell = [2.0, 10 ** rng.uniform(1, 2), 10 ** rng.uniform(2, 3.5)]

        def duck():
            cosmo = cosmos.build(jc, c, i % 2 == 1)
            probes, o = [], 0
            for m, zm in zip(groups, zms):
                probes.append(Duck(A[o:o + m], s[o:o + m], v[o:o + m], [1.0] * m, zmax=zm))
                o += m
            tf = lambda q, k, **kw: 1.0 / (1.0 + k / k0)
            nf = lambda q, k, a, transfer_fn: amp * a**g * transfer_fn(q, k) ** 2
            f = lambda q, l: angular_cl(q, l, probes, tf, nf) if i % 3 else angular_cl(q, l, probes, transfer_fn=tf, nonlinear_fn=nf)
            if i % 4 == 2:
                f = jax.jit(f)
            a = np.linspace(1 / (1 + max(zms)), 1.0, 1025)
            return {"cl": f(cosmo, np.array(ell)), "chi": bkgrd.radial_comoving_distance(cosmo, a)}
        ck.event("duck", duck, c=cosmos.rec(c), zmax=max(zms), nt=nt, A=A, s=s, v=v, amp=amp, g=g, k0=k0, ell=ell, tag=str(i))
    for i, c in enumerate(cosmos.sample(rng, 40 if ck.thorough else 16)):
        kind = i % 4
        zm = rng.uniform(2.0, 3.0)
        wl = [dists.draw(rng, ("smail", "kde") if kind != 3 else ("smail", "delta"), zmax=zm, wide=True) for _ in range(1 + i % 2)]
        nc = [dists.draw(rng, ("smail", "kde", "shift"), zmax=zm, wide=True) for _ in range(1 + (i // 2) % 2)]
        mb = rng.uniform(-0.05, 0.05)
        bs = [dists.bias(rng) for _ in nc]
        ia = dists.bias(rng) if kind == 1 else None
        ell = [rng.uniform(5, 50), rng.uniform(100, 2000)]
        mode = rng.randrange(5)
        order = rng.random() < 0.5

        def real():
            cosmo = cosmos.build(jc, c, i % 2 == 1)
            P = jc.probes
            kw = {"multiplicative_bias": mb}
            if ia:
                kw["ia_bias"] = dists.mkbias(jc, ia)
            probes = [P.WeakLensing([dists.build(jc, d) for d in wl], **kw), P.NumberCounts([dists.build(jc, d) for d in nc], [dists.mkbias(jc, b) for b in bs])]
            if order:
                probes = probes[::-1]
            now = lambda q, k: tk.Eisenstein_Hu(q, k, type="eisenhu")
            args = [(), (now,), (tk.Eisenstein_Hu, power.linear), (user, power.linear), (user,)][mode]
            f = jax.jit(lambda q, l: angular_cl(q, l, probes, *args))
            a = np.linspace(1 / (1 + zm), 1.0, 1025)
            chi = bkgrd.radial_comoving_distance(cosmo, a)
            pkf = jax.jit(lambda q, k, a: power.nonlinear_matter_power(q, k, a, *args))
            ks, pk, kern = [], [], []
            for l in ell:
                k = (l + 0.5) / np.maximum(chi, 1.0)
                ks.append(k)
                pk.append(pkf(cosmo, k, a))
                kern.append(np.vstack([p.kernel(cosmo, 1.0 / a - 1.0, l) for p in probes]))
            return {"cl": f(cosmo, np.array(ell)), "chi": chi, "k": ks, "pk": pk, "kern": kern}
        ck.event("real", real, c=cosmos.rec(c), zmax=zm, nt=len(wl) + len(nc), ell=ell, tag=f"{i}/kind{kind}/fn{mode}")
