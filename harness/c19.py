"""C19: redshift distributions."""
from vlib import *
import dists

LEVEL = "model_checking"
SHARDS = 6
RULE = "seeded distributions of every kind (nested shifts, catalogues of 1..6 objects, any zmax and density) x query redshifts inside and beyond zmax; direct, scalar and compiled calls"


def models(ck):
    ck.model("ProbesModel.tla", "ProbesModel.cfg", note="closed-form normalisations, translation, multipole factor, limits of the lensing efficiency")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    rng = ck.rng
    for i in range(240 if ck.thorough else 72):
        d = dists.draw(rng, kinds=[("smail",), ("kde",), ("smail", "kde", "shift"), ("shift", "smail", "kde"), ("delta",)][i % 5] if i % 10 != 8 else ("shift", "kde"))
        if d["kind"] == "shift" and i % 10 == 3:
            d["bias"] = 0.15
        z = sorted([0.0] + [rng.uniform(0, 2.5) for _ in range(6)] + [rng.uniform(0.2, 1.2) for _ in range(4)] + [d["zmax"] * 1.1])
        if d["kind"] == "delta":
            z.append(d["z0"])
        if i % 12 == 7:     # a shift that looks beyond the end of its parent, whose tail is not negligible there
            d = {"kind": "shift", "n": 2.0, "zmax": rng.uniform(3.5, 5.0), "bias": rng.choice([-0.1, 0.15, 0.4]),
                 "parent": {"kind": "smail", "n": 3.0, "zmax": rng.uniform(1.0, 2.0), "p": [1.0, rng.uniform(1.2, 2.0), rng.uniform(0.9, 1.2)]}}
        if i % 12 == 10:    # sources far away
            d = {"kind": "smail", "n": 2.0, "zmax": rng.uniform(12.0, 35.0), "p": [2.0, rng.uniform(1.8, 2.2), rng.uniform(4.0, 8.0)]}
            z = [x * d["zmax"] / 2.5 for x in z]
        form = rng.randrange(4)

        def obs():
            nz = dists.build(jc, d, form % 2 == 1)
            zz = np.array(z)
            grid = np.linspace(0, d["zmax"], 513)
            if form == 1:
                v = jax.jit(lambda p, x: p(x))(nz, zz)
            elif form == 2:
                v = jax.tree_util.tree_map(lambda t: t, nz)(zz)
            elif form == 3:
                nz(0.5)
                v = jax.vmap(nz)(zz)
            else:
                v = nz(zz)
            g = [] if d["kind"] == "delta" else nz(grid)
            one = onp.array([float(onp.ravel(nz(x))[0]) for x in z])
            return {"nz": onp.ravel(v), "grid": g, "one": one, "sr": float(nz.gals_per_steradian), "arc": float(nz.gals_per_arcmin2), "zm": float(nz.zmax)}
        ck.event("nz", obs, d=dists.rec(d), z=z, tag=f"{i}/{d['kind']}/{form}")
