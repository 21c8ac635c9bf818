"""C05: ordering of spectra; probe lists generated by TLC (TracersModel)."""
from vlib import *
import cosmos, dists, ducks

LEVEL = "model_checking"
SHARDS = 8
RULE = "every probe list (order, grouping, subset) of up to 4 tracers enumerated by TLC, replayed with probes of our own and, sampled, with library probes (extended and single-plane lensing bins, clustering bins with per-bin options)"


def generate(ck):
    ck.states = []
    r = ck.tlc("TracersModel.tla", "TracersGen.cfg")
    if r.error:
        raise TlcError(r.error)
    lists = sorted({tuple(tuple(g) for g in json.loads(s)) for s in r.printed if s.startswith("[[")})
    json.dump(lists, open(os.path.join(ck.scratch, "lists.json"), "w"))
    ck.log(f"TLC generated {len(lists)} probe lists")
    ck.cov["probe_lists_generated"] = len(lists)


def models(ck):
    ck.model("TracersModel.tla", "TracersModel.cfg", note="edit histories of probe lists: rows are a bijection, regrouping keeps and permuting moves them")
    ck.model("TracersModel.tla", "TracersModelNeg.cfg", expect="violated", note="control: order does matter")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.power as power
    import jax_cosmo.transfer as tk
    from jax_cosmo.angular_cl import angular_cl, noise_cl
    Duck = ducks.duck_class(jc)
    rng = ck.rng
    lists = json.load(open(os.path.join(os.environ["VERIF_GEN"], "lists.json")))
    rng.shuffle(lists)
    lists.sort(key=lambda g: sum(map(len, g)) == 4)
    if not ck.thorough:
        lists = lists[:124 + 36]
    A = [1.0, -1.7, 0.6, 2.3]
    s = [0.5, 0.7, 0.35, 0.9]
    v = [1e-3, 0.0, 5e-4, 2e-3]
    nos = [[0.011, 0.023, 0.037, 0.041], [0.023, 0.023, 0.011, 0.023], [0.017] * 4]
    ell = np.array([10.0, 300.0])
    c = cosmos.mk(Ok=0.03)
    cosmo = cosmos.build(jc, c)
    tf = lambda q, k: 1.0 / (1.0 + 10 * k)
    nf = lambda q, k, a, transfer_fn: transfer_fn(q, k) * a
    memo = {}

    def duckcl(groups, no=nos[0]):
        probes = [Duck([A[t - 1] for t in g], [s[t - 1] for t in g], [v[t - 1] for t in g], [no[t - 1] for t in g], zmax=3.0) for g in groups]
        return angular_cl(cosmo, ell, probes, tf, nf), noise_cl(ell, probes)

    def table(f, ids, key):
        if key not in memo:
            ref = [[[] for _ in range(4)] for _ in range(4)]
            for i in ids:
                for j in ids:
                    if i < j:
                        r = onp.asarray(f([[i, j]])[0])
                        ref[i - 1][j - 1] = r[1].tolist()
                        ref[i - 1][i - 1], ref[j - 1][j - 1] = r[0].tolist(), r[2].tolist()
            memo[key] = ref
        return memo[key]
    for gi, g in enumerate(lists):
        def duck(g=g, no=nos[gi % 3]):
            cl, n = duckcl(g, no)
            return {"cl": cl, "noise": n, "ref": table(duckcl, [1, 2, 3, 4], "duck"), "sn": no}
        ck.event("spectra", duck, groups=g, nl=2, tag="duck " + str(g))
    # library probes: ids 1,2 extended lensing, 3 lensing plane, 4 clustering (or a second clustering / plane)
    for i in range(24 if ck.thorough else 8):
        zm = 3.0
        variant = i % 4
        kinds = [("smail",), ("kde",) if variant == 1 else ("smail",), ("delta",), ("delta",) if variant == 2 else ("smail",)]
        if variant == 3:
            kinds = [("smail",)] * 4
        ds = [dists.draw(rng, k, zmax=zm, wide=True) for k in kinds]
        if variant in (0, 3):      # bins of equal density (and, below, equal shape noise)
            for d in ds[1:]:
                d["n"] = ds[0]["n"]
        role = ["L", "L", "L", "L" if variant == 2 else "N"] if variant != 3 else ["L", "N", "L", "N"]
        m = [rng.uniform(-0.05, 0.05) for _ in range(4)]
        se = [rng.uniform(0.1, 0.4) for _ in range(4)]
        if variant == 0:
            se = se[:1] * 4
        bs = [dists.bias(rng) for _ in range(4)]
        ia = variant == 3
        ok = [g for g in lists if all(len({role[t - 1] for t in p}) == 1 for p in g) and len(g) <= 4]
        four = [g for g in ok if sum(map(len, g)) == 4]
        three = [g for g in ok if sum(map(len, g)) == 3]
        pick = rng.sample(four, min(4, len(four))) + rng.sample(three, min(2, len(three)))
        c2 = cosmos.draw(rng, gammas=False)

        def libcl(groups):
            co = cosmos.build(jc, c2)
            probes = []
            for p in groups:
                nz = [dists.build(jc, ds[t - 1]) for t in p]
                if role[p[0] - 1] == "L":
                    kw = {"ia_bias": [dists.mkbias(jc, bs[t - 1]) for t in p]} if ia else {}
                    probes.append(jc.probes.WeakLensing(nz, multiplicative_bias=[m[t - 1] for t in p], sigma_e=[se[t - 1] for t in p], **kw))
                else:
                    probes.append(jc.probes.NumberCounts(nz, [dists.mkbias(jc, bs[t - 1]) for t in p]))
            # pk cheap; compiled as a whole
            return jax.jit(lambda q: angular_cl(q, ell, probes, tf, power.linear))(co), noise_cl(ell, probes)
        def pairs():
            ref = [[[] for _ in range(4)] for _ in range(4)]
            for a in range(1, 5):
                for b in range(a + 1, 5):
                    gr = [[a, b]] if role[a - 1] == role[b - 1] and (a + b) % 2 else [[a], [b]]
                    r = onp.asarray(libcl(gr)[0])
                    ref[a - 1][b - 1] = r[1].tolist()
                    ref[a - 1][a - 1], ref[b - 1][b - 1] = r[0].tolist(), r[2].tolist()
            return ref
        ref = None
        st = 11818102.86004228
        for g in pick:
            if i % ck.nparts == ck.part and ref is None:
                ref = pairs()

            def lib():
                cl, n = libcl(g)
                sn = [(se[t] ** 2 if role[t] == "L" else 1.0) / (ds[t]["n"] * st) for t in range(4)]
                return {"cl": cl, "noise": n, "ref": ref, "sn": sn}
            ck.event("spectra", lib, shardkey=i, groups=g, nl=2, tag=f"library {i} {role} " + str(g))
