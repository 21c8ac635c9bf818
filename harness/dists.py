"""Redshift distributions, biases and probes as descriptions; built twice:
as recorded for TLA+ and as library objects."""
import math


def draw(rng, kinds=("smail", "kde", "shift", "delta"), zmax=None, wide=False):
    k = rng.choice(kinds)
    u = rng.uniform
    d = {"kind": k, "n": u(0.5, 30.0), "zmax": zmax if zmax else u(2.2, 5.0)}
    if k == "smail":
        d["p"] = [rng.choice([1.0, 2.0, u(1.0, 3.0)]), u(1.0, 2.5), u(0.35, 0.9)]
    elif k == "kde":
        m = rng.randrange(1, 7)
        d["zc"] = [u(0.3, 1.8) for _ in range(m)]
        d["w"] = [u(0.1, 1.0) for _ in range(m)]
        d["bw"] = u(0.12, 0.3) if wide else u(0.06, 0.3)
    elif k == "shift":
        d["bias"] = rng.choice([0.0, u(-0.2, 0.2), u(0.0, 0.3)])
        p = [x for x in kinds if x in ("smail", "kde")] + (["shift"] if rng.random() < 0.3 else [])
        d["parent"] = draw(rng, tuple(p), wide=True)
    else:
        d["z0"] = round(u(0.2, 1.9), 3)
    return d


def rec(d):
    r = {k: v for k, v in d.items()}
    if "parent" in r:
        r["parent"] = rec(d["parent"])
    return r


def build(jc, d, traced=False):
    import jax.numpy as np
    r = jc.redshift
    f = (lambda v: np.array(v)) if traced else (lambda v: v)
    kw = dict(gals_per_arcmin2=f(d["n"]), zmax=d["zmax"])
    if d["kind"] == "smail":
        return r.smail_nz(*[f(x) for x in d["p"]], **kw)
    if d["kind"] == "kde":
        return r.kde_nz(np.array(d["zc"]), np.array(d["w"]), bw=d["bw"], **kw)
    if d["kind"] == "shift":
        return r.systematic_shift(build(jc, d["parent"], traced), f(d["bias"]), **kw)
    return r.delta_nz(f(d["z0"]), **kw)


def bias(rng, kinds=("const", "invgrowth", "des")):
    k = rng.choice(kinds)
    u = rng.uniform
    return {"kind": k, "p": {"const": [u(0.5, 2.5)], "invgrowth": [u(0.5, 2.0)], "des": [u(0.2, 1.5), u(-2, 2), u(0.3, 0.8)]}[k]}


def mkbias(jc, b, traced=False):
    import jax.numpy as np
    f = (lambda v: np.array(v)) if traced else (lambda v: v)
    B = jc.bias
    return {"const": B.constant_linear_bias, "invgrowth": B.inverse_growth_linear_bias, "des": B.des_y1_ia_bias}[b["kind"]](*[f(x) for x in b["p"]])
