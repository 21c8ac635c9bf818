"""C13: RK4 integrator."""
from vlib import *

LEVEL = "model_checking"
SHARDS = 8
RULE = ("seeded right-hand sides (polynomial in t, linear systems, logistic, t*y), scalar / vector / matrix states, irregular, "
        "forward, backward, repeated and length-1 grids, eager and jit; every recorded (t, y) pair of neighbours is one step")


def models(ck):
    ck.model("QuadModel.tla", "QuadModel.cfg", note="RK4 step of y'=p(t) is Simpson's rule; exactness")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    from jax_cosmo.scipy.ode import odeint
    rng = ck.rng
    u = lambda lo, hi: rng.randint(int(lo * 64), int(hi * 64)) / 64.0
    for r in range(220 if ck.thorough else 64):
        form = rng.choice(["scalar", "scalar1", "vector", "matrix"])
        m = {"scalar": 1, "scalar1": 1, "vector": rng.randint(2, 4), "matrix": 6}[form]
        kind = rng.choice(["time", "logistic", "linear", "mixed"] if form.startswith("scalar") else (["logistic", "linear", "mixed"] if form == "vector" else ["logistic", "mixed"]))
        z = [0.0]
        rhs = {"kind": kind, "c": [u(-2, 2) for _ in range(rng.randint(1, 6) if kind == "time" else m)],
               "A": [[u(-1.5, 1.5) for _ in range(m)] for _ in range(m)], "v": [u(-2, 2) for _ in range(m)]}
        n = rng.choice([1, 2, 3, 5, 9] + ([17, 33] if ck.thorough else []))
        t = [u(-1, 1)]
        gk = rng.choice(["fwd", "bwd", "irregular", "log", "mixed"])
        for _ in range(n - 1):
            s = {"fwd": 0.25, "bwd": -0.25, "irregular": rng.choice([1 / 64, 0.125, 0.75]), "log": 0.05 * (1 + abs(t[-1])), "mixed": rng.choice([0.25, -0.5, 0.0])}[gk]
            t.append(t[-1] + s)
        # the logistic equation blows up outside (0,1): keep to the bounded basin
        y0 = [u(0, 1) if kind == "logistic" else u(-1, 1.5) for _ in range(m)]
        sh = {"scalar": (), "scalar1": (1,), "vector": (m,), "matrix": (2, 3)}[form]
        npre = rng.randint(1, n)

        def fn(y, s):
            A, c, v = np.array(rhs["A"]), np.array(rhs["c"]), np.array(rhs["v"])
            y1 = np.reshape(y, (-1,))
            if kind == "time":
                d = sum(cc * s ** j for j, cc in enumerate(rhs["c"])) * np.ones(1)
            elif kind == "linear":
                d = A @ y1 + v * s
            elif kind == "logistic":
                d = c * y1 * (1 - y1)
            else:
                d = c * (s * y1) + v
            return np.reshape(d, np.shape(y))

        def obs():
            Y0, T = np.array(y0).reshape(sh), np.array(t)
            run = lambda a, b: odeint(fn, a, b)
            Y = (jax.jit(run) if r % 3 == 0 else run)(Y0, T)
            P = run(Y0, T[:npre])
            f = lambda q: onp.reshape(onp.asarray(q), (onp.shape(q)[0] if onp.ndim(q) else 0, -1)) if onp.size(q) else onp.zeros((0, m))
            return {"y": f(Y), "shape": shape(Y), "prefix": f(P)}
        ck.event("odeint", obs, r=rhs, t=t, y0=y0, wantshape=[n] + list(sh), tag=f"{kind}/{form}/{gk}/{n}")
