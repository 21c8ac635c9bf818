"""C01: results never depend on earlier calls. Histories come from TLC
(Workspace): those that faulty caching policies get wrong, and long random
ones, selected so that every pair of functions behind one table meets in every
kind of scope; each is replayed on real objects across real tracing scopes.
The values to compare with come from separate processes, one per object, so
that nothing kept at the level of a module or class can contaminate both."""
import atexit

from vlib import *
import cosmos

LEVEL = "model_checking"
SHARDS = 7
OBJECTS = ("C", "D", "T1", "T2")
RULE = ("TLC-generated histories of calls across nested jit/grad/vmap/loop scopes: two-call histories that a leaking or option-blind policy gets wrong (sampled in quick), "
        "and 16-call histories per group of functions, selected to cover the pairs of calls that meet in a scope, after it, or on nearly equal objects; "
        "29 functions, six variants (growth index, curvature, three distribution kinds, spline orders; the second object nearly or partly equal to the first)")
PROCS = []


def cover(h):
    """pairs of calls that could disturb one another, for selecting histories"""
    st, calls, n = [], [], 0
    for s in h:
        if s["a"] == "enter":
            n += 1
            st.append((s["k"], n))
        elif s["a"] == "exit":
            st.pop()
        else:
            o, f = s["k"].split(".")
            calls.append((o, f, list(st)))
    out, seen = set(), set()
    for j, (o, f, sj) in enumerate(calls):
        for i in range(j):
            p, g, si = calls[i]
            gone = [k for k, n in si if (k, n) not in sj]
            rel = "left " + gone[0] if gone else "same scope" if sj == si else "inside"
            if p == o and (o, g, i) not in seen:
                out.add((g, f, rel, "C" if o in "CD" else "T"))
            elif {p, o} == {"C", "D"}:
                out.add((g, f, "other object"))
    return out


def select(hists, want, rng):
    """greedy: the histories that add most pairs"""
    pool = [(h, cover(json.loads(h))) for h in rng.sample(hists, len(hists))]
    done, out = set(), []
    while pool and len(out) < want:
        b = max(range(len(pool)), key=lambda i: len(pool[i][1] - done))
        h, c = pool.pop(b)
        out.append(h)
        done |= c
    return out, len(done)


def theme(h):
    fs = {x["k"].split(".")[1] for x in json.loads(h) if x["a"] == "call"}
    for t, names in GROUPS.items():
        if fs <= set(names):
            return t
    return "other"


GROUPS = {"weights": "nz nz_single", "distance": "chi chi_coarse chi_short chi_single aofchi trans", "growth": "growth rate power eisenhu nonlin nonlin_linear",
          "distances in kernels": "chi chi_coarse chi_short chi_single aofchi trans kernel wl wl_ell nc nc_ell wl_other cl",
          "growth in kernels": "growth rate power eisenhu nonlin nonlin_linear kernel wl wl_ell nc nc_ell wl_other cl",
          "variance": "power eisenhu sigma8 sigma1 nonlin nonlin_linear cl", "norm": "nz nz_single kernel wl wl_ell nc nc_ell wl_other cl",
          "spline": "spline spline_der spline_int spline_anti", "density": "derived hubble"}
GROUPS = {k: v.split() for k, v in GROUPS.items()}


def generate(ck):
    here = os.path.dirname(os.path.abspath(__file__))
    for o in OBJECTS:
        out = os.path.join(ck.scratch, "fresh-%s.json" % o)
        p = subprocess.Popen([sys.executable, "-c", f"import sys; sys.path.insert(0, {here!r}); import c01; c01.fresh_main({o!r}, {out!r})"],
                             stdout=open(out + ".err", "w"), stderr=subprocess.STDOUT)
        PROCS.append((o, out, p))
    atexit.register(lambda: [p.kill() for _, _, p in PROCS if p.poll() is None])
    out = {}
    big = "Big.cfg" if ck.thorough else ".cfg"
    for name, cfg in (("leak", "WorkspaceGenLeak" + big), ("opts", "WorkspaceGenOpts" + big)):
        r = ck.tlc("Workspace.tla", cfg, workers=1, extra=["-simulate", f"num={60000 if ck.thorough else 12000}", "-depth", "8", "-seed", str(ck.seed)])
        if r.error:
            raise TlcError(r.error)
        out[name] = sorted({s for s in r.printed if s.startswith("[")})
    n = 6000 if ck.thorough else 1600
    r = ck.tlc("Workspace.tla", "WorkspaceGenAll" + big, workers=1, extra=["-simulate", f"num={n}", "-depth", "60", "-seed", str(ck.seed)])
    long = sorted({s for s in r.printed if s.startswith("[")})
    if not all(out.values()) or not long:
        raise TlcError("no histories generated: " + r.out[-500:])
    rng, full = ck.rng, ck.thorough
    by = {}
    for h in long:
        by.setdefault(theme(h), []).append(h)
    jobs, pairs = [], 0
    for t, hs in sorted(by.items()):
        if t in ("weights", "spline", "density"):   # cheap, and different code per variant
            for v in range(6):
                got, n = select(hs, 12 if full else 3, rng)
                pairs += n
                jobs += [(h, v, t) for h in got]
            continue
        # the variants differ in what they keep: each gets its own selection
        got, n = select(hs, (60 if full else {"other": 3, "growth": 8, "growth in kernels": 8}.get(t, 11)), rng)
        pairs += n
        jobs += [(h, i % 6, t) for i, h in enumerate(got)]
    for name, q in (("leak", 600 if full else 36), ("opts", 300 if full else 24)):
        got, n = select(rng.sample(out[name], min(len(out[name]), 8 * q)), q, rng)
        pairs += n
        jobs += [(h, rng.randrange(6), name) for h in got]
    ck.log("TLC generated " + ", ".join(f"{len(v)} {k}" for k, v in out.items()) + f", {len(long)} long histories; {len(jobs)} selected ({pairs} pairs of calls)")
    ck.cov["histories_generated"] = sum(map(len, out.values())) + len(long)
    ck.cov["pairs_of_calls_selected"] = pairs
    json.dump([(h, v, rng.randrange(6), t) for h, v, t in jobs], open(os.path.join(ck.scratch, "hist.json"), "w"))


def models(ck):
    big = "WorkspaceBig.cfg" if ck.thorough else "Workspace.cfg"
    ck.model("Workspace.tla", big, note="repository policy (options in the key, nothing traced kept): transparent, no dead entries")
    for cfg, note in (("WorkspaceNoOpts.cfg", "options ignored by the cache"), ("WorkspaceLeak.cfg", "traced tables kept"), ("WorkspaceCross.cfg", "tables filed under the wrong object"),
                      ("WorkspaceShared.cfg", "nearly equal objects share a workspace")):
        ck.model("Workspace.tla", cfg, expect="violated", note="control: " + note)


def nest(h):
    """history -> nested list of calls and (kind, body)"""
    st = [[]]
    kinds = []
    for s in h:
        if s["a"] == "enter":
            kinds.append(s["k"])
            st.append([])
        elif s["a"] == "exit":
            b = st.pop()
            st[-1].append((kinds.pop(), b))
        else:
            st[-1].append(s["k"])
    return st[0]


ARG = {1: 0.27, 2: 0.29}


NEEDS = {"n": "nz nz_single kernel derived", "wl": "wl wl_ell wl_other cl", "nc": "nc nc_ell cl", "sp": "spline spline_der spline_int spline_anti"}


def needs(fs):
    """components of the objects that these functions use"""
    return {"c"} | {k for k, v in NEEDS.items() if set(v.split()) & set(fs)}


def world():
    """-> mk(variant, object name or traced argument), functions by name"""
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    import jax_cosmo.background as bk
    import jax_cosmo.power as power
    from jax_cosmo.transfer import Eisenstein_Hu
    from jax_cosmo.scipy.interpolate import InterpolatedUnivariateSpline as Spline
    R, B, P = jc.redshift, jc.bias, jc.probes
    A = onp.array([0.3, 0.55, 0.93])
    Z = onp.array([0.31, 0.8])
    X = onp.array([300.0, 1500.0, 4000.0])
    K = onp.array([0.01, 0.3])
    L = onp.array([30.0, 400.0])
    KX = np.linspace(0.0, 2.0, 8)
    QX = np.array([0.05, 0.9, 1.7])

    def mk(variant, x, need):
        """x: "C", "D" or the argument of a scope"""
        p = dict(Omega_c=0.2512345, Omega_b=0.0512345, h=0.7012345, n_s=0.9612345, sigma8=0.8012345, Omega_k=[0.0, 0.0512345, -0.0412345][variant % 3], w0=-0.9512345, wa=0.1012345, gamma=0.5512345 if variant % 2 else None)
        d, bw, zmax, m, amp = 0.6012345, 0.2, 3.0, 0.0212345, 1.0
        if x == "D":
            if variant in (0, 3):      # all but equal
                p = {k: v * (1 + 2e-7) if v else v for k, v in p.items()}
                d, amp, m = d * (1 + 2e-7), 1 + 2e-7, m * (1 + 2e-7)
            elif variant in (1, 4):    # the same leaves, differently configured
                p["gamma"] = None if p["gamma"] else 0.55
                bw, zmax, m = 0.25, 2.5, 0.03
            elif variant == 2:
                p.update(w0=-1.05, wa=-0.2, Omega_k=0.03)
            else:
                p.update(h=0.65, n_s=1.0, sigma8=0.7, Omega_b=0.04, Omega_c=p["Omega_c"] + 0.01)
                d = 0.7
        elif not isinstance(x, str):
            p["Omega_c"] = x
            d, amp = 0.33 + x, 1.0 + x
        if p["gamma"] is None:
            del p["gamma"]
        out = {}
        if "c" in need:
            out["c"] = jc.Cosmology(**p)
        if need & {"n", "wl", "nc"}:
            n = [lambda: R.smail_nz(1.0, 2.0, d, zmax=zmax), lambda: R.systematic_shift(R.smail_nz(1.0, 2.0, d, zmax=zmax), 0.05, zmax=zmax),
                 lambda: R.kde_nz(np.array([0.4, 0.9]), np.array([1.0, 0.5 * d]), bw=bw, zmax=zmax)][variant // 2 % 3]()
            out["n"] = n
        if "wl" in need:
            out["wl"] = P.WeakLensing([n], B.inverse_growth_linear_bias(0.9), multiplicative_bias=m)
        if "nc" in need:
            out["nc"] = P.NumberCounts([n], B.constant_linear_bias(1.4 if variant % 2 else 1.4 * d))
        if "sp" in need:
            y = np.array([0.1, 0.5, 0.2, -0.4, 0.0, 0.3, 1.0, 0.7]) * amp
            out["sp"] = Spline(KX, y, k=[3, 1, 2][variant % 3], endpoints="natural" if variant == 3 else "not-a-knot")
        return out

    def kernel(o):
        k = P.WeakLensing([o["n"]], B.inverse_growth_linear_bias(0.9)).kernel(o["c"], Z, 20.0)
        return np.concatenate([k[0], P.NumberCounts([o["n"]], B.inverse_growth_linear_bias(1.5)).kernel(o["c"], Z, 20.0)[0]])

    def other():
        return jc.Cosmology(0.31, 0.045, 0.68, 0.97, 0.75, 0.02, -1.0, 0.0)
    nowiggle = lambda c, k: Eisenstein_Hu(c, k, type="eisenhu")
    FN = {"chi": lambda o: bk.radial_comoving_distance(o["c"], A),
          "chi_coarse": lambda o: bk.radial_comoving_distance(o["c"], A, steps=64),
          "chi_short": lambda o: bk.radial_comoving_distance(o["c"], A, log10_amin=-1.5),
          "chi_single": lambda o: bk.radial_comoving_distance(o["c"], A.astype("f")),
          "aofchi": lambda o: bk.a_of_chi(o["c"], X),
          "trans": lambda o: bk.transverse_comoving_distance(o["c"], A),
          "growth": lambda o: bk.growth_factor(o["c"], A),
          "rate": lambda o: bk.growth_rate(o["c"], A),
          "power": lambda o: power.linear_matter_power(o["c"], K, 0.7),
          "eisenhu": lambda o: power.linear_matter_power(o["c"], K, 0.7, type="eisenhu"),
          "sigma8": lambda o: power.sigmasqr(o["c"], 8.0, Eisenstein_Hu),
          "sigma1": lambda o: power.sigmasqr(o["c"], 1.0, Eisenstein_Hu),
          "nonlin": lambda o: power.nonlinear_matter_power(o["c"], K, 0.7),
          "nonlin_linear": lambda o: power.nonlinear_matter_power(o["c"], K, 0.7, nonlinear_fn=power.linear),
          "nz": lambda o: o["n"](Z),
          "nz_single": lambda o: o["n"](Z.astype("f")),
          "kernel": kernel,
          "wl": lambda o: o["wl"].kernel(o["c"], Z, 20.0),
          "wl_ell": lambda o: o["wl"].kernel(o["c"], Z, 60.0),
          "wl_other": lambda o: o["wl"].kernel(other(), Z, 20.0),
          "nc": lambda o: o["nc"].kernel(o["c"], Z, 20.0),
          "nc_ell": lambda o: o["nc"].kernel(o["c"], Z[::-1], 60.0),
          "spline": lambda o: o["sp"](QX),
          "spline_der": lambda o: o["sp"].derivative(QX, 1),
          "spline_int": lambda o: np.stack([o["sp"].integral(0.1, 1.8), o["sp"].integral(0.5, 1.0)]),
          "spline_anti": lambda o: o["sp"].antiderivative(QX),
          "derived": lambda o: np.stack([np.asarray(v, dtype="d") for v in (o["c"].Omega, o["c"].Omega_m, o["c"].Omega_de, o["c"].Omega_k, o["c"].k, o["c"].sqrtk, o["n"].zmax, o["n"].gals_per_steradian)]),
          "hubble": lambda o: np.concatenate([bk.H(o["c"], A), bk.Omega_m_a(o["c"], A)]),
          "cl": lambda o: jc.angular_cl.angular_cl(o["c"], L, [o["wl"], o["nc"]])}
    return jax, np, onp, mk, FN


def fresh_main(o, out):
    """the value of every function on a freshly built object"""
    jax, np, onp, mk, FN = world()
    x = {"T1": ARG[1], "T2": ARG[2]}.get(o, o)
    res = {}
    for v in range(6):
        for f in FN:
            if f in ("nonlin", "cl") and os.environ.get("VERIF_TIER") != "thorough":
                continue        # minutes each; their histories are generated in the thorough tier
            try:
                res["%d %s" % (v, f)] = enc(onp.ravel(onp.asarray(FN[f](mk(v, x, needs([f]))), "d")))
            except Exception as ex:  # noqa
                res["%d %s" % (v, f)] = "%s: %s" % (type(ex).__name__, str(ex)[:150])
    json.dump(res, open(out + ".tmp", "w"))
    os.rename(out + ".tmp", out)


def record(ck):
    jax, np, onp, mk, FN = world()
    jobs = json.load(open(os.path.join(os.environ["VERIF_GEN"], "hist.json")))

    def run(items, env, depth, variant, style, need):
        """execute a body; returns the list of results in order of calls"""
        out = []
        for it in items:
            if isinstance(it, str):
                o, f = it.split(".")
                out.append(np.ravel(FN[f](env[o])))
                continue
            kind, body = it
            d = depth + 1
            go = lambda obj: run(body, {**env, "T%d" % d: obj}, d, variant, style, need)
            x = ARG[d]
            if kind == "jit":
                r = jax.jit(go)(mk(variant, x, need)) if style % 2 else jax.jit(lambda x: go(mk(variant, x, need)))(x)
            elif kind == "grad":
                if style % 3 == 2:
                    r = jax.jvp(lambda x: go(mk(variant, x, need)), (x,), (1.0,))[0]
                else:
                    def h(x):
                        r = go(mk(variant, x, need))
                        return sum(np.sum(v) for v in r), r
                    r = jax.grad(h, has_aux=True)(x)[1]
            elif kind == "vmap":
                r = jax.vmap(lambda x: go(mk(variant, x, need)))(np.array([x, x]))
                r = [v[style % 2] for v in r]
            else:
                r = jax.lax.scan(lambda c, _: (c, go(mk(variant, c, need))), np.array(x), None, length=2)[1]
                r = [v[style % 2] for v in r]
            out.extend(r)
        return out
    for s, variant, style, t in jobs:
        h = json.loads(s)
        need = needs({x["k"].split(".")[1] for x in h if x["a"] == "call"})
        replay = lambda h=h, need=need: {"res": [onp.asarray(v, "d") for v in run(nest(h), {"C": mk(variant, "C", need), "D": mk(variant, "D", need)}, 0, variant, style, need)]}
        ck.event("history", replay, steps=h, variant=variant, style=style,
                 tag="%s %d/%d: " % (t, variant, style) + " ".join((x["k"] if x["a"] != "exit" else ")") + ("(" if x["a"] == "enter" else "") for x in h))


def judge(ck):
    fr = {}
    for o, out, p in PROCS:
        p.wait()
        if not os.path.exists(out):
            raise RuntimeError("no fresh values: " + open(out + ".err").read()[-2000:])
        fr[o] = json.load(open(out))
    for e in ck.events:
        e["fresh"] = {}
        for s in e["steps"]:
            if s["a"] == "call":
                o, f = s["k"].split(".")
                v = fr[o]["%d %s" % (e["variant"], f)]
                if isinstance(v, str):
                    e["exc"] = e["exc"] or "on a fresh object, %s raised %s" % (s["k"], v)
                e["fresh"][s["k"]] = v
        if not e["exc"] and "res" not in e:
            e["exc"] = "no result"
    ck.conform("CheckC01.tla")
