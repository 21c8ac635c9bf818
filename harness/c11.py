"""C11: linear table interpolation."""
from vlib import *

LEVEL = "model_checking"
SHARDS = 4
RULE = ("every strictly monotonic integer table with 3..MaxN nodes over 0..MaxX in both directions, enumerated by TLC, queried at all "
        "half-integers in and around it with seeded ordinates; plus seeded irregular long tables; distinct = different table/queries")


def generate(ck):
    r = ck.model("LinInterpModel.tla", "LinInterpModelBig.cfg" if ck.thorough else "LinInterpModel.cfg",
                 note="nearest-node algorithm = interpolant on every enumerated table")
    tables = sorted(json.loads(s[2:]) for s in r.printed if s.startswith("T "))
    json.dump(tables, open(os.path.join(ck.scratch, "gen.json"), "w"))
    ck.cov["tables_enumerated_by_tlc"] = len(tables)


def models(ck):
    ck.model("LinInterpModel.tla", "LinInterpModelNeg.cfg", expect="violated", note="non-vacuity: side chosen by sign of x-xi alone fails on decreasing tables")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    from jax_cosmo.scipy.interpolate import interp
    rng = ck.rng
    tables = json.load(open(os.path.join(os.environ["VERIF_GEN"], "gen.json")))
    ji = jax.jit(interp)
    for t in tables:
        hi = max(t)
        xs = [q / 2.0 for q in range(-3, 2 * hi + 4)]
        xs += [0.0] * ((2 * (8 if ck.thorough else 6) + 7) - len(xs))   # one shape, one compilation
        fp = [rng.randint(-9, 9) for _ in t]

        def obs():
            f = ji if ck.count % 2 else interp
            res = f(np.array(xs), np.array([float(v) for v in t]), np.array([float(v) for v in fp]))
            return {"res": res, "shape": shape(res)}
        ck.event("enumerated", obs, xp=[float(v) for v in t], fp=[float(v) for v in fp], x=xs, tol=1e-11)
    for r in range(60 if ck.thorough else 16):
        n = rng.choice([3, 4, 17, 64, 200])
        kind = rng.choice(["uniform", "log", "random", "graded"])
        if kind == "log":
            xp = [10 ** (-3 + 3.0 * j / (n - 1)) for j in range(n)]
        elif kind == "uniform":
            xp = [0.1 + 0.7 * j for j in range(n)]
        else:
            xp, x = [], -1.0
            for j in range(n):
                x += rng.choice([1e-4, 1e-2, 1.0, 3.0]) * (1 + rng.random()) if kind == "graded" else 0.05 + rng.random()
                xp.append(x)
        if rng.random() < 0.5:
            xp = xp[::-1]
        fp = [rng.uniform(-3, 3) for _ in range(n)]
        lo, hi = min(xp), max(xp)
        idx = [rng.randrange(n) for _ in range(12)] + [0, n - 1, 1, n - 2]
        xs = [xp[j] for j in idx] + [rng.uniform(lo, hi) for _ in range(30)] + [lo - (hi - lo) / 7, hi + (hi - lo) / 5]
        for _ in range(12):  # just beside nodes, in the first / last interval, at mid-points
            j = rng.choice([0, n - 2, rng.randrange(n - 1)])
            xs.append(xp[j] + rng.choice([1e-3, 0.25, 0.5, 0.51, 0.999]) * (xp[j + 1] - xp[j]))

        def obs():
            res = interp(np.array(xs), np.array(xp), np.array(fp))
            return {"res": res, "shape": shape(res)}
        ck.event("seeded", obs, xp=xp, fp=fp, x=xs, tol=1e-11, tag=kind)
