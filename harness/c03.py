"""C03: compiling or batching never changes values. Arrangements of a call
(points in an array or mapped, parameter sets mapped, compiled inside or
outside) come from TLC (Arrange); each is put to the real code for every
public computation and compared cell by cell with eager single evaluations."""
from vlib import *
from comps import computations

LEVEL = "model_checking"
SHARDS = 8
RULE = "every public computation x seeded stratified sample of TLC-enumerated arrangements (points as array/vmap, order, repetition, among few or many others; from end to end of the library's range; parameter sets single/vmap over all leaves or over some; jit none/outer/inner)"


def generate(ck):
    r = ck.tlc("Arrange.tla", "ArrangeGen.cfg")
    a = [json.loads(s)[0] for s in r.printed if s.startswith("[")]
    if r.error or len(a) < 500:
        raise TlcError(r.error or r.out[-500:])
    a.sort(key=lambda x: json.dumps(x, sort_keys=True))
    json.dump(a, open(os.path.join(ck.scratch, "arr.json"), "w"))
    ck.cov["arrangements_enumerated"] = len(a)


def models(ck):
    ck.model("Arrange.tla", "Arrange.cfg", note="pure computations: every cell depends on its parameters and point only, for all pairs of calls")
    for c, n in (("ArrangeCoupled.cfg", "neighbouring points"), ("ArrangeShared.cfg", "first parameter set of a batch reused"), ("ArrangeStatic.cfg", "compiled call reused for other parameters")):
        ck.model("Arrange.tla", c, expect="violated", note="control: " + n)


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    T = jax.tree_util
    rng = ck.rng
    arrs = json.load(open(os.path.join(os.environ["VERIF_GEN"], "arr.json")))
    strata = {}
    for a in arrs:
        strata.setdefault((a["jit"], a["pmode"], a["batch"], len(a["pars"])), []).append(a)
    keys = sorted(strata)
    widest = max(len(set(a["pts"])) for a in arrs)
    comps = computations(jax, jc, rng)
    A, Z, K, L = [0.0008, 0.31, 0.97], [2.9, 0.0007, 0.4], [0.02, 300.0, 0.0001], [2.0, 300.0, 6000.0]
    col = lambda *v: onp.stack([onp.array(x, dtype=float) for x in v], axis=1)
    g = lambda lo, hi: onp.geomspace(lo, hi, 40)
    # the library's range of every kind of point: three points from end to end, and many others
    DOMAIN = {"a": (A, g(0.0008, 1.0)), "z": (Z, g(0.0006, 2.97)), "k": (K, g(1e-4, 300.0)), "l": (L, g(2.0, 6000.0)), "chi": ([0.3, 9000.0, 1100.0], g(0.2, 9200.0)),
              "ka": (col(K, [1.0, 0.15, 0.5]), col(g(1e-4, 300.0), onp.linspace(1.0, 0.15, 40))), "x": ([2.2, -0.3, 6.5], onp.linspace(-0.4, 6.6, 40))}

    def domain(name, X, f):
        """which kind of point a computation takes"""
        if X.ndim == 2 or not len(X):
            return "ka"
        return {0.9: "a", 0.4: "z", 0.3: "k", 20.0: "l", 400.0: "chi", 2.2: "x"}[float(X[0])]
    tolist = lambda a: [float(v) for v in onp.ravel(onp.asarray(a, dtype=float))]
    for ci, (name, pars, X, f, ax, only, scalar, big) in enumerate(comps):
        if X is None:
            base = lambda p, x, f=f: np.reshape(f(p), (1, -1))
            Xs = onp.zeros((3,))
        elif only == "vmap":
            base = lambda p, x, f=f: np.reshape(f(p, x), (1, -1))
            Xs = X
        else:
            def base(p, x, f=f, ax=ax):
                r = np.asarray(f(p, x))
                return np.moveaxis(r, ax, 0).reshape((len(x), -1))
            Xs = X
        fill = onp.zeros((0,) + Xs.shape[1:])
        if X is not None and only != "vmap":
            Xs, fill = (onp.asarray(v, dtype=float) for v in DOMAIN[domain(name, X, f)])
        memo = {}

        def ref(base=base, pars=pars, Xs=Xs, memo=memo):
            if not memo:
                memo["r"] = [[tolist(base(pars[p], Xs[i:i + 1])) for i in range(3)] for p in (0, 1)]
            return memo["r"]
        n = (18 if not big else 10) if ck.thorough else (6 if not big else 3)
        ks = keys if n == 18 else rng.sample(keys, n)
        wide = rng.choice([a for a in arrs if a["pmode"] == "array" and len(set(a["pts"])) >= min(3, widest) and not a["batch"]])
        for k in ks:
            # one arrangement always has both ends of the range in one array
            arr = dict(wide if k == ks[0] and n < 18 else rng.choice(strata[k]))
            if X is None or only == "vmap":
                arr = dict(arr, pmode="vmap")
            if X is None:
                arr["pts"] = [1]
            if X is None or only == "vmap":
                arr["fill"] = "none"

            def obs(arr=arr, base=base, pars=pars, Xs=Xs, ref=ref, f=f, scalar=scalar, X=X, fill=fill):
                inner = jax.jit(base) if arr["jit"] == "inner" else base
                if X is None:
                    g = lambda p, x: inner(p, x[:1])
                elif arr["pmode"] == "array":
                    g = inner
                elif scalar:
                    fi = jax.jit(f) if arr["jit"] == "inner" else f
                    g = lambda p, x: jax.vmap(lambda s: np.ravel(fi(p, s)))(x)
                else:
                    g = lambda p, x: jax.vmap(lambda s: inner(p, s[None])[0])(x)
                h = jax.vmap(g, in_axes=(0, None)) if arr["batch"] else g
                if arr["jit"] == "outer":
                    h = jax.jit(h)
                x = np.asarray(Xs)[np.array([i - 1 for i in arr["pts"]])]
                n0, n1 = 0, len(x)
                if arr["fill"] != "none":
                    extra = fill[::8] if arr["fill"][:3] == "few" else fill
                    if arr["fill"].endswith("before"):
                        n0, x = len(extra), np.concatenate([np.asarray(extra), x])
                    else:
                        x = np.concatenate([x, np.asarray(extra)])
                ps = [pars[q - 1] for q in arr["pars"]]
                if arr["batch"]:
                    out = h(T.tree_map(lambda *v: np.stack([np.asarray(w, dtype=float) for w in v]), *ps), x)
                else:
                    out = [h(ps[0], x)]
                return {"table": [[tolist(c) for c in o[n0:n0 + n1]] for o in out], "filled": [len(o) - n1 for o in out] == [len(x) - n1] * len(out), "ref": ref()}
            ck.event(name, obs, shardkey=ci, arr=arr, tag=" ".join(map(str, (arr["jit"], arr["pmode"], arr["pts"], arr["fill"], "batch" if arr["batch"] else "", arr["pars"]))))
