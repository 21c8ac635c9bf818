"""C17: transfer functions and linear power."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 6
RULE = "corner and seeded cosmologies x wavenumbers 1e-6..50 x scale factors x transfer functions (both built-in types, user-supplied), scalar/array/paired calls, eager and jit"


def models(ck):
    ck.model("PowerModel.tla", "PowerModel.cfg", note="limits of the transfer functions, top-hat window, convergence of the variance integral")


def user(cosmo, k):
    return 1.0 / (1.0 + k * (5.0 + k / (0.02 * (cosmo.Omega_m * cosmo.h))))


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    import jax_cosmo.power as power
    import jax_cosmo.transfer as tk
    rng = ck.rng
    nq = 768 if ck.thorough else 256
    now = lambda cosmo, k: tk.Eisenstein_Hu(cosmo, k, type="eisenhu")
    # far from the usual parameters: light and heavy universes, few and many baryons, early and late equality
    far = [cosmos.mk(Oc, Ob, h=h, ns=ns, Ok=ok) for Oc, Ob, h, ns, ok in ((0.08, 0.02, 0.55, 0.9, 0.1), (0.75, 0.05, 0.9, 1.05, 0.0), (0.2, 0.15, 0.7, 0.96, 0.0), (0.3, 0.004, 0.7, 1.0, 0.0), (0.1, 0.05, 0.5, 0.95, 0.3), (0.05, 0.045, 0.75, 0.96, 0.0))]
    for i, c in enumerate(far):
        ks = [1e-6, 3e-5] + sorted(10 ** rng.uniform(-4.0, 1.5) for _ in range(14))

        def transfer():
            cosmo = cosmos.build(jc, c)
            return {"osc": tk.Eisenstein_Hu(cosmo, np.array(ks), type="eisenhu_osc"), "now": now(cosmo, np.array(ks)), "def": tk.Eisenstein_Hu(cosmo, np.array(ks))}
        ck.event("transfer", transfer, c=cosmos.rec(c), k=ks, tag="far %d" % i)
    for i, c in enumerate(cosmos.sample(rng, 60 if ck.thorough else 18)):
        ks = [1e-6, 3e-6] + sorted(10 ** rng.uniform(-4.5, 1.5) for _ in range(14))

        def transfer():
            cosmo = cosmos.build(jc, c, i % 2 == 0)
            g = jax.jit if i % 3 == 1 else (lambda f: f)
            K = np.array(ks)
            return {"osc": g(lambda q, k: tk.Eisenstein_Hu(q, k, type="eisenhu_osc"))(cosmo, K),
                    "now": g(now)(cosmo, K), "def": g(tk.Eisenstein_Hu)(cosmo, K)}
        ck.event("transfer", transfer, c=cosmos.rec(c), k=ks, tag=str(i))
        for kind in ("osc", "nowiggle", "user"):
            kk = [10 ** rng.uniform(-3.5, 1.2) for _ in range(8)]
            aa = [1.0] + [rng.uniform(0.1, 1.0) for _ in range(7)]
            form = rng.randrange(4)

            def lin():
                cosmo = cosmos.build(jc, c, i % 2 == 1)
                fn = {"osc": tk.Eisenstein_Hu, "nowiggle": now, "user": user}[kind]
                K, A = np.array(kk), np.array(aa)
                D = bkgrd.growth_factor(cosmo, A)
                if form == 0:      # paired arrays
                    if kind == "nowiggle":
                        P = power.linear_matter_power(cosmo, K, A, type="eisenhu")
                    else:
                        P = power.linear_matter_power(cosmo, K, A, transfer_fn=fn)
                elif form == 1:    # one wavenumber at a time
                    P = onp.array([power.linear_matter_power(cosmo, kk[j], aa[j], fn) for j in range(len(kk))])
                elif form == 2:    # compiled
                    P = jax.jit(lambda q, k, a: power.linear(q, k, a, fn))(cosmo, K, A)
                else:              # today is the default; growth divided back in
                    P = power.linear_matter_power(cosmo, K, transfer_fn=fn)
                    D = np.ones(len(kk))
                return {"P": P, "D": D}
            ck.event("lin", lin, c=cosmos.rec(c), kind=kind, k=kk, a=aa, n=nq, tag=f"{i}/{kind}/{form}")
        if i % 3 == 0:
            kind = ("osc", "nowiggle", "user")[(i // 3) % 3]
            rr = [4.0, 8.0, rng.uniform(2, 20)]

            def sig():
                cosmo = cosmos.build(jc, c)
                fn = {"osc": tk.Eisenstein_Hu, "nowiggle": now, "user": user}[kind]
                return {"s": onp.array([float(onp.ravel(power.sigmasqr(cosmo, r, fn))[0]) for r in rr])}
            ck.event("sig", sig, c=cosmos.rec(c), kind=kind, k=rr, n=nq, tag=f"{i}/{kind}")
