"""C18: non-linear power."""
from vlib import *
import cosmos
from c17 import user

LEVEL = "model_checking"
SHARDS = 7
RULE = "corner and seeded cosmologies x prescriptions x transfer functions x (k, a) pairs and scalar a, eager and jit; wrapper with built-in, linear and user non-linear functions"


def models(ck):
    ck.model("HalofitModel.tla", "HalofitModel.cfg", note="index and curvature of power-law spectra in closed form; limits of both prescriptions")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    import jax_cosmo.power as power
    import jax_cosmo.transfer as tk
    rng = ck.rng
    n = 256
    nodes = 10 ** (-4 + 8 * onp.arange(n + 1) / n)
    now = lambda cosmo, k: tk.Eisenstein_Hu(cosmo, k, type="eisenhu")
    fns = {"osc": tk.Eisenstein_Hu, "nowiggle": now, "user": user}
    mine = lambda cosmo, k, a, transfer_fn=None: np.sqrt(k) * a**3 * cosmo.h + transfer_fn(cosmo, k)
    for i, c in enumerate(cosmos.sample(rng, 60 if ck.thorough else 14)):
        kind = ("osc", "nowiggle", "osc", "user")[i % 4]
        for presc in ("takahashi2012", "smith2003"):
            if presc == "smith2003" and c["Omega_c"] + c["Omega_b"] == 1.0:
                continue        # the interpolation 0/0 between open and flat families is undefined there
            m = 7
            kk = [3e-4, 0.01] + [10 ** rng.uniform(-2, 1.3) for _ in range(m - 2)]
            form = rng.randrange(4)
            a1 = rng.uniform(0.35, 1.0)
            aa = [a1] * m if form == 3 else [1.0, 0.9, 0.5] + [rng.uniform(0.3, 1.0) for _ in range(m - 3)]
            fn = fns[kind]

            def nl():
                cosmo = cosmos.build(jc, c, i % 2 == 1)
                K, A = np.array(kk), np.array(aa)
                kwargs = {} if presc == "takahashi2012" and form % 2 else {"prescription": presc}
                f = lambda q, k, a: power.halofit(q, k, a, fn, **kwargs)
                if form == 0:
                    PN = f(cosmo, K, A)
                elif form == 1:
                    PN = jax.jit(f)(cosmo, K, A)
                elif form == 2:
                    fj = jax.jit(f)
                    PN = onp.array([float(fj(cosmo, kk[j], aa[j])) for j in range(m)])
                else:
                    PN = f(cosmo, K, a1)
                ex = {"P0": power.linear_matter_power(cosmo, np.array(nodes), transfer_fn=fn), "D": bkgrd.growth_factor(cosmo, A),
                      "PL": power.linear_matter_power(cosmo, K, A, fn), "PN": PN, "kw": []}
                try:      # a witness, if the implementation shows one
                    kw = onp.ravel(power._halofit_parameters(cosmo, A, fn)[0])
                    if kw.shape == (m,) and onp.all(onp.isfinite(kw)):
                        ex["kw"] = kw.astype(float)
                except Exception:
                    pass
                return ex
            ck.event("nl", nl, c=cosmos.rec(c), presc=presc, k=kk, a=aa, tag=f"{i}/{kind}/{form}")
        if i % 2 == 0:
            kk = [rng.uniform(0.01, 1) for _ in range(3)]
            aa = [rng.uniform(0.4, 1) for _ in range(3)]
            which = i // 2 % 4 if c["Omega_c"] + c["Omega_b"] < 1 else 0

            def wrap():
                cosmo = cosmos.build(jc, c)
                K, A = np.array(kk), np.array(aa)
                f = [power.halofit, power.linear, mine, lambda q, k, a, transfer_fn: power.halofit(q, k, a, transfer_fn, "smith2003")][which]
                x = power.nonlinear_matter_power(cosmo, K, A, fns[kind], f)
                y = f(cosmo, K, A, transfer_fn=fns[kind])
                if which == 0:
                    x = np.concatenate([x, power.nonlinear_matter_power(cosmo, K), power.nonlinear_matter_power(cosmo, K, A, nonlinear_fn=mine)])
                    y = np.concatenate([y, power.halofit(cosmo, K, 1.0, tk.Eisenstein_Hu), mine(cosmo, K, A, tk.Eisenstein_Hu)])
                return {"x": x, "y": y}
            ck.event("wrap", wrap, c=cosmos.rec(c), tag=f"{i}/{kind}/{which}")
