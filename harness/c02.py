"""C02: flattening and rebuilding. Histories of rebuild steps come from TLC
(Pytree); each is replayed on real objects of every kind and combination of
optional arguments and compared with a freshly constructed object."""
from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 8
RULE = "every kind of parameter object and combination of its optional arguments x TLC-generated histories of up to 3 steps (rebuild, map, jit, vmap, grad, scan, cond, set one leaf, transplant all), observed eagerly and through one transformation"
MODES = ["jit", "vmap", "grad", "eager"]


def generate(ck):
    r = ck.tlc("PytreeModel.tla", "PytreeGen.cfg")
    h = sorted({s for s in r.printed if s.startswith("[")})
    if r.error or len(h) < 100:
        raise TlcError(r.error or r.out[-500:])
    json.dump([json.loads(s) for s in h], open(os.path.join(ck.scratch, "hist.json"), "w"))
    ck.cov["histories_generated"] = len(h)


def models(ck):
    ck.model("PytreeModel.tla", "PytreeModel.cfg", note="consistent layout: objects equal their construction after any history")
    for c, n in (("PytreePos.cfg", "rebuilt in another order than stored"), ("PytreeFlag.cfg", "presence of the optional parameter recomputed from its value"),
                 ("PytreeRaw.cfg", "validation while rebuilding")):
        ck.model("PytreeModel.tla", c, expect="violated", note="control: " + n)


FORMS = ["numbers", "ints", "arrays", "numbers", "zeros", "numpy scalars"]


def hash0(s):
    return sum(map(ord, s))


def dress(v, ints, form, rng):
    """parameter values in the form in which a user may give them"""
    import numpy as onp
    import jax.numpy as np
    if form == "ints":
        return [rng.choice(ints[i]) if i in ints else x for i, x in enumerate(v)]
    if form == "zeros":
        return [(0.0 if 0 in ints[i] else float(ints[i][0])) if i in ints else x for i, x in enumerate(v)]
    if form == "arrays":
        return [np.asarray(x) for x in v]
    if form == "numpy scalars":
        return [onp.float64(x) if onp.ndim(x) == 0 else x for x in v]
    return v


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bkgrd
    import jax_cosmo.power as power
    from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline
    T = jax.tree_util
    rng = ck.rng
    hists = json.load(open(os.path.join(os.environ["VERIF_GEN"], "hist.json")))
    R, B, P = jc.redshift, jc.bias, jc.probes
    A = onp.array([0.2, 0.45, 0.8])
    Z = onp.array([0.22, 0.7, 1.3])
    K = onp.array([0.02, 0.4])
    C0 = jc.Cosmology(0.26, 0.048, 0.68, 0.965, 0.81, 0.02, -0.95, 0.1)
    flat = lambda xs: np.concatenate([np.ravel(np.asarray(x, dtype=float)) for x in xs])

    def obs_cosmo(c):
        return flat([c.Omega_c, c.Omega_b, c.h, c.n_s, c.sigma8, c.Omega_k, c.w0, c.wa, c.Omega_m, c.Omega_de, c.Omega, bkgrd.H(c, A),
                     bkgrd.radial_comoving_distance(c, A), bkgrd.transverse_comoving_distance(c, A), bkgrd.growth_factor(c, A), bkgrd.growth_rate(c, A),
                     power.linear_matter_power(c, K, 0.7)] + ([c.gamma] if c.gamma is not None else []))

    def obs_bias(b):
        return flat([b(C0, Z)])

    def obs_nz(n):
        return flat([n(Z), n.zmax, n.gals_per_arcmin2, n.gals_per_steradian])

    def obs_probe(p):
        return flat([p.kernel(C0, Z, 30.0), p.noise(), p.zmax, p.n_tracers])

    def obs_spline(s):
        X = onp.array([-0.3, 0.4, 1.7, 2.9, 5.3])
        return flat([s(X)] + [s.derivative(X, n) for n in range(1, s.k + 1)] + [s.antiderivative(X)])

    # kinds: (tag, sizes of parameters, build(values), observe, generator of values)
    u = rng.uniform
    kinds = []

    INTS, CONF = {}, {}

    def kind(tag, gen, build, observe, ints=None, conf=None):
        """ints: values other than drawn numbers that a parameter may take; conf: the static options given, which the object must report"""
        kinds.append((tag, gen, build, observe))
        INTS[tag], CONF[tag] = ints or {}, conf or {}

    def config(o):
        """the options an object reports: by attribute or, for containers, in its configuration"""
        c = getattr(o, "config", None)
        return lambda k: c.get(k) if isinstance(c, dict) and k in c else getattr(o, k, None)
    COS = {3: [1], 4: [1], 5: [0], 6: [-1], 7: [0, -1]}
    cgen = lambda: [u(0.2, 0.3), u(0.03, 0.06), u(0.6, 0.8), u(0.9, 1.0), u(0.7, 0.9), rng.choice([0.0, u(-0.1, 0.1), u(-0.1, 0.1)]), u(-1.2, -0.8), u(-0.2, 0.2)]
    kind("cosmology", cgen, lambda v: jc.Cosmology(*v), obs_cosmo, COS)
    kind("cosmology+gamma", lambda: cgen() + [u(0.3, 0.7)], lambda v: jc.Cosmology(*v), obs_cosmo, {**COS, 8: [0, 1]})
    kind("cosmology+gamma 0", lambda: cgen()[:5] + [u(0.01, 0.1)] + cgen()[6:] + [0.0], lambda v: jc.Cosmology(*v), obs_cosmo, {**COS, 8: [0]})
    kind("Planck15", cgen, lambda v: jc.Planck15(**dict(zip(cosmos.NAMES, v))), obs_cosmo, COS)
    kind("Planck15+gamma", lambda: cgen() + [u(0.3, 0.7)], lambda v: jc.Planck15(**dict(zip(cosmos.NAMES + ["gamma"], v))), obs_cosmo, {**COS, 8: [0, 1]})
    kind("constant bias", lambda: [u(0.5, 2)], lambda v: B.constant_linear_bias(*v), obs_bias, {0: [0, 1, 2]})
    kind("inverse growth bias", lambda: [u(0.5, 2)], lambda v: B.inverse_growth_linear_bias(*v), obs_bias, {0: [0, 2]})
    kind("des bias", lambda: [u(0.5, 2), u(-1, 1), u(0.3, 0.8)], lambda v: B.des_y1_ia_bias(*v), obs_bias, {0: [0, 1], 1: [0, -1, 2], 2: [1]})
    sm = lambda: [u(1.0, 2.5), u(1.2, 2.2), u(0.4, 0.8)]
    kind("smail", lambda: sm() + [u(1, 30)], lambda v: R.smail_nz(*v[:3], gals_per_arcmin2=v[3], zmax=3.1), obs_nz, {0: [1, 2], 1: [1, 2], 2: [1], 3: [5]}, {"zmax": 3.1})
    kind("smail defaults", lambda: sm() + [1.0], lambda v: R.smail_nz(*v[:3]) if v[3] == 1.0 else R.smail_nz(*v[:3], gals_per_arcmin2=v[3]), obs_nz)
    kind("delta", lambda: [rng.choice([0.22, 0.7, 1.3]), u(1, 30)], lambda v: R.delta_nz(v[0], gals_per_arcmin2=v[1], zmax=2.5), lambda n: flat([n.pz_fn(Z), n.zmax, n.gals_per_arcmin2, n(Z)]), {0: [1], 1: [5]}, {"zmax": 2.5})
    kde = lambda: [onp.array([u(0.2, 1.5) for _ in range(4)]), onp.array([u(0.1, 1) for _ in range(4)])]
    kind("kde", lambda: kde() + [u(1, 30)], lambda v: R.kde_nz(v[0], v[1], bw=0.21, gals_per_arcmin2=v[2], zmax=3.3), obs_nz, {2: [5]}, {"zmax": 3.3, "bw": 0.21})
    kind("kde one weight", lambda: [onp.array([u(0.2, 1.5)]), u(0.2, 0.9), u(1, 30)], lambda v: R.kde_nz(v[0], v[1], bw=0.3, gals_per_arcmin2=v[2]), obs_nz, {1: [1], 2: [5]}, {"bw": 0.3, "zmax": 10.0})
    kind("shifted smail", lambda: sm() + [u(1, 30), u(-0.1, 0.2), u(31, 60)],
         lambda v: R.systematic_shift(R.smail_nz(*v[:3], gals_per_arcmin2=v[3], zmax=2.9), v[4], gals_per_arcmin2=v[5], zmax=3.3), obs_nz, {0: [1], 3: [5], 4: [0], 5: [40]}, {"zmax": 3.3})
    kind("shifted defaults", lambda: sm() + [1.0, u(0.01, 0.2)], lambda v: R.systematic_shift(R.smail_nz(*v[:3], gals_per_arcmin2=v[3]), v[4]), None)
    kind("twice shifted kde", lambda: kde() + [u(1, 30), u(-0.1, 0.2), u(31, 60), u(0.2, 0.3), u(61, 90)],
         lambda v: R.systematic_shift(R.systematic_shift(R.kde_nz(v[0], v[1], bw=0.2, gals_per_arcmin2=v[2], zmax=2.5), v[3], gals_per_arcmin2=v[4], zmax=2.7), v[5], gals_per_arcmin2=v[6], zmax=3.0), obs_nz, {3: [0], 5: [0], 6: [70]}, {"zmax": 3.0})
    kinds = [k if k[3] is not None else (k[0], lambda g=k[1]: g() + [1.0 + 1e-9 * 0 + 2.0], lambda v: R.systematic_shift(R.smail_nz(*v[:3], gals_per_arcmin2=v[3]), v[4], gals_per_arcmin2=v[5]), obs_nz) for k in kinds]
    # lensing probes: alignments none / shared / per bin, m default / scalar / per bin, sigma_e default / scalar / per bin; 1-3 bins
    bins = lambda nb: sum([sm() + [u(1, 30)] for _ in range(nb)], [])
    mkb = lambda v, nb: [R.smail_nz(*v[4 * i:4 * i + 3], gals_per_arcmin2=v[4 * i + 3], zmax=2.6 + 0.1 * i) for i in range(nb)]

    def lens(ia, m, se, nb):
        def gen():
            v = bins(nb)
            v += [0.0] if m == "default" else [u(-0.04, 0.04) for _ in range(1 if m == "scalar" else nb)]
            v += {"none": [], "shared": [u(0.3, 1), u(-1, 1), u(0.2, 0.3)], "per bin": [u(0.3, 1.9) for _ in range(nb)],
                  "mixed": [u(0.3, 1), u(-1, 1), u(0.2, 0.3)] + [u(0.3, 1.9) for _ in range(nb - 1)]}[ia]
            return v

        def build(v, asdefault=True):
            z, r = mkb(v, nb), v[4 * nb:]
            nm = nb if m == "per bin" else 1
            mm, r = r[:nm], r[nm:]
            kw = {}
            if m == "per bin":
                kw["multiplicative_bias"] = list(mm)
            elif m == "scalar" or mm[0] != 0.0:
                kw["multiplicative_bias"] = mm[0]
            if se == "scalar":
                kw["sigma_e"] = 0.3
            elif se == "per bin":
                kw["sigma_e"] = [0.2 + 0.05 * i for i in range(nb)]
            if ia == "shared":
                kw["ia_bias"] = B.des_y1_ia_bias(*r)
            elif ia == "per bin":
                kw["ia_bias"] = [B.inverse_growth_linear_bias(x) if i % 2 else B.constant_linear_bias(x) for i, x in enumerate(r)]
            elif ia == "mixed":
                kw["ia_bias"] = [B.des_y1_ia_bias(*r[:3])] + [B.constant_linear_bias(x) for x in r[3:]]
            return P.WeakLensing(z, **kw)
        return gen, build
    for q, (ia, m, se) in enumerate([(i, m, s) for i in ("none", "shared", "per bin", "mixed") for m in ("default", "scalar", "per bin") for s in ("default", "scalar", "per bin")]):
        g, b = lens(ia, m, se, 1 + (q + q // 3) % 3)
        nb = 1 + (q + q // 3) % 3
        n = len(g())
        kind(f"lensing ia:{ia} m:{m} sigma:{se}", g, b, obs_probe, {**{i: [0] for i in range(4 * nb, 4 * nb + (nb if m == "per bin" else 1 if m == "scalar" else 0))}, **({n - 1: [0, 1]} if ia in ("per bin",) else {}),
                                                                   **({n - 1: [1]} if ia == "shared" else {})},
             {"sigma_e": {"default": 0.26, "scalar": 0.3, "per bin": [0.2 + 0.05 * i for i in range(nb)]}[se]})

    kind("lensing single planes", lambda: [u(0.8, 1.2), u(1, 9)] + sm() + [u(10, 30), u(1.3, 1.9), u(31, 60), u(-0.03, 0.03)],
         lambda v: P.WeakLensing([R.delta_nz(v[0], gals_per_arcmin2=v[1], zmax=2.5), R.smail_nz(*v[2:5], gals_per_arcmin2=v[5], zmax=2.5), R.delta_nz(v[6], gals_per_arcmin2=v[7], zmax=2.5)], multiplicative_bias=v[8]), obs_probe)
    kind("clustering shared", lambda: bins(2) + [u(1, 2)], lambda v: P.NumberCounts(mkb(v, 2), B.constant_linear_bias(v[8])), obs_probe, {8: [0, 2]}, {"has_rsd": False})
    kind("clustering per bin", lambda: bins(2) + [u(1, 2), u(0.1, 0.9), u(-1, 1), u(0.2, 0.3)],
         lambda v: P.NumberCounts(mkb(v, 2), [B.inverse_growth_linear_bias(v[8]), B.des_y1_ia_bias(*v[9:])], has_rsd=True), obs_probe, {8: [0, 1], 9: [0], 10: [0, 1]}, {"has_rsd": True})
    kind("clustering one bin", lambda: bins(1) + [u(1, 2)], lambda v: P.NumberCounts(mkb(v, 1), B.constant_linear_bias(v[4]), has_rsd=True), obs_probe, {4: [0, 1]}, {"has_rsd": True})
    kind("clustering list of one bias", lambda: bins(1) + [u(1, 2)], lambda v: P.NumberCounts(mkb(v, 1), [B.inverse_growth_linear_bias(v[4])], has_rsd=True), obs_probe, {4: [0, 1]}, {"has_rsd": True})
    kind("clustering three bins", lambda: bins(3) + [u(1, 2) for _ in range(3)], lambda v: P.NumberCounts(mkb(v, 3), [B.constant_linear_bias(x) for x in v[12:]], has_rsd=False), obs_probe, {12: [0], 13: [1], 14: [2]}, {"has_rsd": False})
    for k in (1, 2, 3):
        for ep in ("not-a-knot",) + (("natural",) if k == 3 else ()):
            def sgen(k=k, ep=ep):
                x = onp.cumsum(onp.array([u(0.5, 1.2) for _ in range(6)]))
                y = onp.array([u(-1, 1) for _ in range(6)])
                return [x, y, onp.asarray(Spline(x, y, k=k, endpoints=ep)._coefficients)]
            kind(f"spline k={k} {ep}", sgen, lambda v, k=k, ep=ep: Spline(v[0], v[1], k=k, endpoints=ep, coefficients=v[2]), obs_spline, None, {"k": k})
    g1, b1 = lens("shared", "per bin", "per bin", 2)
    n1 = len(g1())
    kind("collection", lambda: cgen() + [u(0.3, 0.7)] + g1() + bins(1) + [u(1, 2)],
         lambda v: {"c": jc.Cosmology(*v[:9]), "p": [b1(v[9:9 + n1]), (P.NumberCounts(mkb(v[9 + n1:], 1), B.constant_linear_bias(v[13 + n1])),)]},
         lambda d: flat([d["p"][0].kernel(d["c"], Z, 20.0), d["p"][1][0].kernel(d["c"], Z, 20.0), d["p"][0].noise()]))

    tolist = lambda a: [float(x) for x in onp.ravel(onp.asarray(a, dtype=float))]
    per = 36 if ck.thorough else 5
    for tag, gen, build, observe in kinds:
        hs = [h for h in rng.sample(hists, per)]
        for q, h in enumerate(hs):
            form = FORMS[(q + hash0(tag)) % len(FORMS)]
            draw = lambda: dress(gen(), INTS[tag], form, rng)
            v0 = draw()
            steps, cur = [], list(v0)
            for s in h:
                st = {"s": s, "i": 1, "v": []}
                if s == "set":
                    i = rng.randrange(len(cur))
                    new = draw()
                    if form in ("ints", "zeros") and INTS[tag] and rng.random() < 0.7:
                        i = rng.choice(sorted(INTS[tag]))
                    cur[i] = new[i]
                    st.update(i=i + 1, v=tolist(new[i]))
                elif s == "transplant":
                    new = draw()
                    cur = list(new)
                    st.update(v=[tolist(x) for x in new])
                    st["i"] = 0
                steps.append((st, new if s in ("set", "transplant") else None))
            mode = MODES[rng.randrange(4)]
            other = gen()
            fin = list(cur)
            seed = rng.randrange(1 << 30)

            def replay(tag=tag):
                r = random.Random(seed)
                o = build(v0)
                leaves, td = T.tree_flatten(o)
                # which leaf is which parameter: by value; equal values are told apart by a perturbed construction
                pos = []
                probe = [onp.asarray(x) + 0.001 * (j + 1) for j, x in enumerate(v0)]
                probe = [float(x) if x.ndim == 0 else x for x in probe]
                pl = T.tree_leaves(build(probe))
                for j, x in enumerate(probe):
                    hit = [i for i, l in enumerate(pl) if onp.shape(l) == onp.shape(x) and onp.all(onp.asarray(l) == onp.asarray(x))]
                    pos.append(hit[0] if len(hit) == 1 else -1)
                matched = -1 not in pos and len(set(pos)) == len(pl)
                stepstruct, gradok = True, True
                for st, new in steps:
                    s = st["s"]
                    if s == "rebuild":
                        l, t = T.tree_flatten(o)
                        o = T.tree_unflatten(t, l)
                    elif s == "map":
                        o = T.tree_map(lambda x: x, o)
                    elif s == "jit":
                        o = jax.jit(lambda p: p)(o)
                    elif s == "vmap":
                        b = T.tree_map(lambda x: np.stack([np.asarray(x), np.asarray(x) + 1.0]), o)
                        b = jax.vmap(lambda p: p)(b)
                        o = T.tree_map(lambda x: x[0], b)
                    elif s == "grad":
                        of = T.tree_map(lambda x: np.asarray(x, dtype=float), o)
                        g, o = jax.grad(lambda p: (sum(np.sum(x**2) for x in T.tree_leaves(p)), p), has_aux=True)(of)
                        gradok &= T.tree_structure(g) == td and all(bool(onp.all(onp.asarray(a) == 2 * onp.asarray(b))) for a, b in zip(T.tree_leaves(g), T.tree_leaves(o)))
                    elif s == "scan":
                        of = T.tree_map(lambda x: np.asarray(x, dtype=float), o)
                        o = jax.lax.scan(lambda c, _: (T.tree_map(lambda x: x * 1.0, c), None), of, None, length=2)[0]
                    elif s == "cond":
                        o = jax.lax.cond(np.array(len(steps) > 1), lambda p: p, lambda p: T.tree_map(lambda x: x * 1.0, p), T.tree_map(lambda x: np.asarray(x, dtype=float), o))
                    elif s == "set":
                        l, t = T.tree_flatten(o)
                        l[pos[st["i"] - 1]] = new[st["i"] - 1]
                        o = T.tree_unflatten(t, l)
                    else:
                        l = T.tree_leaves(build(new))
                        o = T.tree_unflatten(T.tree_structure(o), l)
                    stepstruct &= bool(T.tree_structure(o) == td)
                fresh = build(fin)
                want = CONF[tag]
                get = config(o)
                got = {k: get(k) for k in want}
                got = {k: v for k, v in got.items() if v is not None}
                lv = T.tree_leaves(o)
                out = {"matched": bool(matched), "nleaves": len(lv), "struct": bool(T.tree_structure(o) == T.tree_structure(fresh)), "stepstruct": bool(stepstruct),
                       "gradok": bool(gradok), "conf": [tolist(got[k]) for k in sorted(got)], "confgiven": [tolist(want[k]) for k in sorted(got)], "leaves": [tolist(lv[p]) for p in pos] if matched else [], "obs": tolist(observe(o)), "fresh": tolist(observe(fresh))}
                fr2 = tolist(observe(build(other))) if mode == "vmap" else []
                if mode == "jit":
                    seen = tolist(jax.jit(observe)(o))
                elif mode == "vmap":
                    b = T.tree_map(lambda x, y: np.stack([np.asarray(x, dtype=float), np.asarray(y, dtype=float)]), o, T.tree_unflatten(T.tree_structure(o), T.tree_leaves(build(other))))
                    seen = tolist(jax.vmap(observe)(b))
                elif mode == "grad":
                    def loss(p):
                        w = observe(p)
                        return np.sum(w), w
                    seen = tolist(jax.grad(loss, has_aux=True)(T.tree_map(lambda x: np.asarray(x, dtype=float), o))[1])
                else:
                    seen = out["obs"]
                out.update(seen=seen, seenfresh=out["fresh"] + fr2)
                return out
            ck.event(tag, replay, v0=[tolist(x) for x in v0], steps=[st for st, _ in steps], final=[tolist(x) for x in fin], mode=mode, form=form, tag=mode + ", " + form + ": " + " ".join(h))
