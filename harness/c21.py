"""C21: unsupported requests raise. The requests and the decision come from
TLC (Requests); each is put to the real code eagerly and under jit."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 8
RULE = "TLC-enumerated requests of every family (quick: all of the small families, seeded samples of shapes and probe lists; thorough: many more), each eagerly and under jit"


def generate(ck):
    r = ck.tlc("RequestsModel.tla", "RequestsGen.cfg")
    reqs = [json.loads(s) for s in r.printed if s.startswith("{")]
    if r.error or len(reqs) < 1000:
        raise TlcError(r.error or r.out[-500:])
    reqs.sort(key=lambda x: json.dumps(x, sort_keys=True))
    json.dump(reqs, open(os.path.join(ck.scratch, "req.json"), "w"))
    ck.cov["requests_enumerated"] = len(reqs)


def models(ck):
    ck.model("RequestsModel.tla", "RequestsModel.cfg", note="the decision is total and consistent on all requests")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import functools
    import contextlib, io
    import jax_cosmo.power as power
    import jax_cosmo.sparse as sparse
    from jax_cosmo.scipy.integrate import simps
    from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline
    from jax_cosmo.likelihood import gaussian_log_likelihood
    R, B, P = jc.redshift, jc.bias, jc.probes
    rng = ck.rng
    reqs = json.load(open(os.path.join(os.environ["VERIF_GEN"], "req.json")))
    by = {}
    for q in reqs:
        by.setdefault((q["r"]["f"], q["ok"]), []).append(q["r"])
    full = ck.thorough
    lim = {"dot2": 2000 if full else 150, "dot3": 500 if full else 60, "spline": 250 if full else 60, "kernel": 300 if full else 64, "unary": 480 if full else 90}
    todo = []
    for (f, ok), l in sorted(by.items()):
        todo += l if len(l) <= lim.get(f, 10 ** 6) else rng.sample(l, lim[f])
    # pairs whose dense sizes agree but whose blocks differ, and other near misses
    near = [r for r in by[("dot2", False)] if len(r["a"]) == 3 and len(r["b"]) == 3 and r["a"][1] * r["a"][2] == r["b"][0] * r["b"][2]]
    near += [r for r in by[("dot3", False)] if len(r["a"]) == 2 and len(r["b"]) == 3 and len(r["c"]) == 2 and
             (r["a"][1] == r["b"][0] * r["b"][2]) != (r["b"][1] * r["b"][2] == r["c"][0])]
    todo += rng.sample(near, min(len(near), 400 if full else 60))
    kn = [r for r in by[("kernel", False)] if r["bins"].count("delta") == 1]
    todo += rng.sample(kn, 120 if full else 24)
    # near misses: requests that one changed field would make good, by field and value
    J = lambda v: json.dumps(v, sort_keys=True)
    for f in sorted({f for f, ok in by if not ok}):
        good = {(k, J({q: v for q, v in r.items() if q != k})) for r in by.get((f, True), []) for k in r}
        strata = {}
        for r in by[(f, False)]:
            for k in r:
                if (k, J({q: v for q, v in r.items() if q != k})) in good:
                    strata.setdefault((k, J(r[k])[:40]), []).append(r)
        for k in sorted(strata):
            todo += rng.sample(strata[k], min(len(strata[k]), 12 if full else (2 if len(strata) < 60 else 1)))
    seen = set()
    todo = [r for r in todo if not (J(r) in seen or seen.add(J(r)))]
    kw = {k: v for k, v in cosmos.mk().items() if v is not None}
    nrg = onp.random.RandomState(ck.seed)
    vals = lambda s: np.array(nrg.uniform(0.5, 2.0, size=s))
    K = onp.array([0.05, 0.3])

    def request(r):
        """-> function of one dummy array argument and the argument"""
        f = r["f"]
        if f == "simps":
            return (lambda w: simps(lambda x: x**2 * w, 0.0, 1.0, r["n"])), vals(())
        if f == "spline":
            shx = (r["nx"],) if r["xd"] == 1 else (r["nx"], 2)
            shy = (r["ny"],) if r["yd"] == 1 else (r["ny"], 2)
            x = np.cumsum(vals(shx), axis=0)
            return (lambda y: Spline(x, y, k=r["k"], endpoints=r["ep"])(np.array([0.7, 1.9]))), vals(shy)
        if f == "derivative":
            x = np.arange(6.0)
            return (lambda y: Spline(x, y, k=r["k"]).derivative(np.array([0.7, 1.9]), r["n"])), vals((6,))
        if f == "unary":
            return getattr(sparse, r["op"]), vals(tuple(r["s"]))
        if f == "dot2":
            return (lambda t: sparse.dot(*t)), (vals(tuple(r["a"])), vals(tuple(r["b"])))
        if f == "dot3":
            return (lambda t: sparse.dot(*t)), (vals(tuple(r["a"])), vals(tuple(r["b"])), vals(tuple(r["c"])))
        if f == "dotn":
            t = [vals((2, 2, 2)) if i % 2 else vals((4, 4)) for i in range(r["n"])]
            return (lambda t: sparse.dot(*t)), t
        if f == "transfer":
            tf = functools.partial(jc.transfer.Eisenstein_Hu, type=r["type"])
            if r["via"] == "direct":
                return (lambda c: tf(c, K)), jc.Cosmology(**kw)
            if r["via"] == "linear":
                return (lambda c: power.linear_matter_power(c, K, transfer_fn=tf)), jc.Cosmology(**kw)
            return (lambda c: power.nonlinear_matter_power(c, K, 0.7, transfer_fn=tf)), jc.Cosmology(**kw)
        if f == "halofit":
            if r["via"] == "direct":
                return (lambda c: power.halofit(c, K, 0.7, jc.transfer.Eisenstein_Hu, prescription=r["p"])), jc.Cosmology(**kw)
            return (lambda c: power.nonlinear_matter_power(c, K, 0.7, nonlinear_fn=functools.partial(power.halofit, prescription=r["p"]))), jc.Cosmology(**kw)
        if f == "likelihood":
            C = np.array([[[2.0, 3.0], [0.5, 0.2]], [[0.5, 0.2], [4.0, 1.5]]])
            C = C if r["sparse"] else sparse.to_dense(C)
            return (lambda d: gaussian_log_likelihood(d, np.ones(4), C, include_logdet=r["logdet"], inverse_method=r["m"])), vals((4,))
        z = []
        for i, b in enumerate(r["bins"]):
            s = R.smail_nz(1.0, 2.0, 0.5 + 0.1 * i, zmax=2.5)
            z.append({"smail": s, "kde": R.kde_nz(np.array([0.5, 0.9]), np.array([1.0, 0.4]), bw=0.2, zmax=2.5),
                      "shift": R.systematic_shift(s, 0.05, zmax=2.5), "delta": R.delta_nz(0.8 + 0.1 * i, zmax=2.5)}[b])
        per = [B.constant_linear_bias(1.0 + 0.1 * i) for i in range(len(z))]
        p = {"clustering": lambda: P.NumberCounts(z, per[0]), "clustering per bin": lambda: P.NumberCounts(z, per), "lensing": lambda: P.WeakLensing(z),
             "lensing IA": lambda: P.WeakLensing(z, ia_bias=B.des_y1_ia_bias(0.5, 0.0, 0.6)), "lensing IA per bin": lambda: P.WeakLensing(z, ia_bias=per)}[r["probe"]]
        if r["via"] == "kernel":
            return (lambda c: p().kernel(c, np.array([0.4, 0.9]), 20.0)), jc.Cosmology(**kw)
        return (lambda c: jc.angular_cl.angular_cl(c, np.array([20.0, 90.0]), [p()], nonlinear_fn=lambda c, k, a, transfer_fn=None: 1.0 / (1.0 + k))), jc.Cosmology(**kw)

    def attempt(f, a):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out = f(a)
            return "", onp.concatenate([onp.ravel(onp.asarray(x)) for x in jax.tree_util.tree_leaves(out)])
        except Exception as ex:  # noqa
            return type(ex).__name__, None
    for r in todo:
        f, a = request(r)

        def obs():
            e, x = attempt(f, a)
            j, y = attempt(jax.jit(lambda v: f(v)), a)
            ok = x is not None and y is not None
            return {"eager": e, "jit": j, "finite": bool(ok and onp.all(onp.isfinite(x)) and onp.all(onp.isfinite(y))),
                    "same": bool(ok and x.shape == y.shape and onp.allclose(x, y, rtol=1e-7, atol=1e-9 * (1 + (onp.max(onp.abs(x)) if x.size else 0))))}
        ck.event("request", obs, r=r, tag=json.dumps(r))
