"""C10: interpolating splines."""
from vlib import *

LEVEL = "model_checking"
SHARDS = 8
RULE = ("seeded grids (minimal length up to 8, irregular) and values x order 1..3 x end condition; every piece, data points and both "
        "outsides queried, all derivative orders, integrals with bounds in either order, inside, across and outside; eager and jit")


def models(ck):
    ck.model("SplinesModel.tla", "SplinesModelBig.cfg" if ck.thorough else "SplinesModel.cfg",
             note="defining conditions are square, uniquely solvable, reproduce polynomials, on all integer grids")
    ck.model("SplinesModel.tla", "SplinesModelNeg.cfg", expect="violated", note="non-vacuity: natural / linear splines do not reproduce parabolas")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Sp
    rng = ck.rng
    kinds = [(1, "not-a-knot"), (1, "natural"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural"), (3, None), (None, None)]
    todo = []
    for k, e in kinds:
        k_, e_ = 3 if k is None else k, e or "not-a-knot"
        for n in range(k_ + 1, 9 if ck.thorough else 8):
            for rep in range(3 if ck.thorough else 1):
                todo.append((k, e, k_, e_, n))
    for k, e, k_, e_, n in todo:
        x = [rng.uniform(-2, 2)]
        for _ in range(n - 1):
            x.append(x[-1] + rng.choice([0.05, 0.3, 1.0, 2.0]) * rng.uniform(0.6, 1.4))
        y = [rng.uniform(-3, 3) for _ in range(n)]
        # queries: several per interval between data points and mid-points, and outside
        kn = x if k_ != 2 else [x[0]] + [(a + b) / 2 for a, b in zip(x, x[1:])] + [x[-1]]
        q = []
        for a, b in zip(kn, kn[1:]):
            q += [a + f * (b - a) for f in (0.01, 0.37, 0.81)]
        L = x[-1] - x[0]
        q += [x[0] - 0.3 * L, x[0] - 1e-3, x[-1] + 1e-3, x[-1] + 0.4 * L]
        # stay off the artificial outer knots of quadratic splines and interior knots (k-th derivative jumps)
        ia, ib = [], []
        for _ in range(10):
            a, b = rng.choice(x + q), rng.choice(x + q)
            ia.append(a)
            ib.append(b)
        ia += [x[0], x[-1], x[0] - 0.5 * L, x[1]]
        ib += [x[-1], x[0], x[-1] + 0.5 * L, x[1]]
        jit = ck.count % 2

        def obs():
            kw = {}
            if k is not None:
                kw["k"] = k
            if e is not None:
                kw["endpoints"] = e
            X, Y, Q = np.array(x), np.array(y), np.array(q)

            def f(X, Y, Q):
                s = Sp(X, Y, **kw)
                return s(X), s(Q), [s.derivative(Q, r) for r in range(k_ + 1)], [s.derivative(X, r) for r in range(k_)], s.antiderivative(np.array(ia)), s.antiderivative(np.array(ib))
            ad, r, d, dd, A, B = (jax.jit(f) if jit else f)(X, Y, Q)
            s = Sp(X, Y, **kw)
            I = [float(onp.ravel(s.integral(a, b))[0]) for a, b in zip(ia, ib)]
            sc = [s(v) for v in q[:2]] + [s.derivative(q[0])]
            ok = all(abs(float(onp.ravel(u)[0]) - float(w)) <= 1e-9 * (1 + abs(float(w))) for u, w in zip(sc, [r[0], r[1], d[1][0]]))
            return {"atdata": ad, "res": r if ok else r * onp.nan, "der": [onp.broadcast_to(v, (len(q),)) for v in d],
                    "derdata": [onp.broadcast_to(v, (n,)) for v in dd], "ada": A, "adb": B, "integral": I}
        ck.event("spline", obs, k=k_, ends=e_, x=x, y=y, q=q, ia=ia, ib=ib, tag=f"k={k} ends={e} n={n}")
