"""C12: Simpson and Romberg quadrature."""
from fractions import Fraction as F
from vlib import *


def frac(rng, lo=-4, hi=4):
    return F(rng.randint(lo * 12, hi * 12), rng.choice([1, 2, 3, 4, 7, 12]))


LEVEL = "model_checking"
SHARDS = 8
RULE = ("seeded integrands (polynomials up to degree 2m+3, exponentials, sines, rationals; scalar, vector, matrix valued; "
        "scalar, integer, array, traced bounds in any order) x N or depth; distinct = different recorded call or result")


def models(ck):
    ck.model("QuadModel.tla", "QuadModel.cfg", note="exactness orders, sign, RK4 step = Simpson")
    ck.model("QuadModel.tla", "QuadModelNeg.cfg", expect="violated", note="non-vacuity: Simpson is not exact for quartics")
    ck.model("QuadModel.tla", "QuadModelNeg2.cfg", expect="violated", note="non-vacuity: Romberg order is sharp")


def record(ck):
    jax, jc = setup_jax()
    import jax.numpy as np
    from jax_cosmo.scipy.integrate import simps, romb
    rng = ck.rng

    def fun(kind, c, one=1.0):
        c = [np.asarray(v) for v in c]
        if kind == "poly":
            def f(x):
                r = 0.0 * x
                for v in c[::-1]:
                    r = r * x + v
                return r
            return f
        if kind == "exp":
            return lambda x: c[0] * np.exp(c[1] * x)
        if kind == "sin":
            return lambda x: c[0] * np.sin(c[1] * x)
        return lambda x: c[0] / (np.abs(c[1]) + x * x)

    kinds = ["poly", "poly", "exp", "sin", "ratio"]

    def coefs(kind, deg=None):
        if kind == "poly":
            return [float(frac(rng)) for _ in range((rng.randint(0, 6) if deg is None else deg) + 1)]
        return [float(frac(rng, 1, 4)), float(frac(rng, 1, 2)) * rng.choice([1, -1]) if kind != "ratio" else float(frac(rng, 1, 3))]

    # --- simps
    Ns = [2, 4, 6, 8, 10, 14, 32, 64, None] + ([100, 128, 256, 512] if ck.thorough else [])
    rounds = 12 if ck.thorough else 4
    for r in range(rounds):
        for N in Ns:
            kind = rng.choice(kinds)
            form = rng.choice(["scalar", "vector", "arraybounds", "int", "jit", "matrix"])
            m = 1 if form in ("scalar", "int", "jit") else rng.choice([1, 2, 3, 5])
            deg = rng.randint(0, 6)
            cs = [coefs(kind, deg) for _ in range(m)]
            if form == "matrix":
                m2 = 2
                cs = [coefs(kind, deg) for _ in range(2 * m)]
            if form == "arraybounds":
                a = [float(frac(rng)) for _ in range(m)]
                b = [float(frac(rng)) for _ in range(m)]
            else:
                a0, b0 = (rng.randint(-3, 3), rng.randint(-3, 3)) if form == "int" else (float(frac(rng)), float(frac(rng)))
                a, b = [a0] * len(cs), [b0] * len(cs)
            s, t = float(frac(rng)), float(frac(rng))
            cc = onp_t(cs)

            def call(a_, b_, mul=None):
                if form == "arraybounds":
                    aa, bb = np.array(a_), np.array(b_)
                    f = fun(kind, [np.array(v) for v in cc])
                elif form in ("vector", "matrix"):
                    aa, bb = a_[0], b_[0]
                    sh = (m,) if form == "vector" else (m, 2)
                    g = fun(kind, [np.array(v).reshape(sh) for v in cc])
                    f = lambda x: g(x.reshape((-1,) + (1,) * len(sh)) * np.ones(sh))
                else:
                    aa, bb = a_[0], b_[0]
                    f = fun(kind, [v[0] for v in cc])
                ff = f if mul is None else (lambda x: mul[0] * f(x) + mul[1])
                kw = {} if N is None else {"N": N}
                if form == "jit":
                    return jax.jit(lambda p, q: simps(ff, p, q, **kw))(aa, bb)
                return simps(ff, aa, bb, **kw)

            def obs():
                res = call(a, b)
                return {"res": np.ravel(res), "shape": shape(res), "swapped": np.ravel(call(b, a)), "combined": np.ravel(call(a, b, (s, t)))}
            want = {"scalar": [], "int": [], "jit": [], "vector": [m], "arraybounds": [m], "matrix": [m, 2]}[form]
            ck.event("simps", obs, kind=kind, c=cs, a=[float(v) for v in a], b=[float(v) for v in b], N=128 if N is None else N, s=s, t=t, wantshape=want, tag=form)

    # --- romb
    for r in range(24 if ck.thorough else 8):
        for m in [1, 2, 3, 4, 5, 6, None] + ([7, 8, 9] if ck.thorough else []):
            kind = rng.choice(kinds)
            mm = 6 if m is None else m
            c = coefs(kind, rng.choice([2 * mm + 1, rng.randint(0, 2 * mm + 3)]))
            a, b = float(frac(rng, -2, 2)), float(frac(rng, -2, 2))
            kw = {} if m is None else {"divmax": m}

            def obs():
                f = fun(kind, c)
                res = romb(f, a, b, **kw)
                res2, err = romb(f, a, b, return_error=True, **kw)
                # the parameters travel through args
                g = lambda x, p, q: p * f(x) / q
                wa = romb(g, a, b, args=(3.0, 3.0), **kw)
                if r % 2:
                    res = jax.jit(lambda p, q: romb(f, p, q, **kw))(a, b)
                return {"res": res, "shape": shape(res), "swapped": romb(f, b, a, **kw), "withargs": wa, "res2": res2, "err": err}
            ck.event("romb", obs, kind=kind, c=c, a=a, b=b, m=mm)


def onp_t(cs):
    return [[c[j] for c in cs] for j in range(len(cs[0]))]
