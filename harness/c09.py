"""C09: block-sparse linear algebra."""
import itertools
from vlib import *

LEVEL = "model_checking"
SHARDS = 8
RULE = ("all block shapes (ny, nx, nz, ndiag) up to the bound with seeded integer entries; for square ones seeded invertible "
        "matrices incl. non-symmetric, permutation-like, singular sub-blocks, negative determinants, badly scaled; eager and jit")


def models(ck):
    ck.model("BlocksModel.tla", "BlocksModelBig.cfg" if ck.thorough else "BlocksModel.cfg",
             note="block algebra = dense algebra for all shapes; elimination = cofactor determinant; solve")


def record(ck):
    jax, jc = setup_jax()
    import numpy as onp
    import jax.numpy as np
    from jax_cosmo import sparse as sp
    rng = ck.rng
    R = lambda *s: onp.array([rng.randint(-4, 5) for _ in range(int(onp.prod(s)))], dtype=float).reshape(s)
    mx = 4 if ck.thorough else 3
    shapes = list(itertools.product(range(1, mx + 1), repeat=4))
    rng.shuffle(shapes)
    larger = [(4, 4, 2, 2), (5, 5, 5, 3), (4, 4, 4, 5), (6, 2, 3, 4), (2, 6, 4, 1), (7, 7, 1, 2), (1, 5, 6, 3), (3, 4, 5, 7)]
    for ny, nx, nz, nd in (shapes if ck.thorough else shapes[:44]) + larger:
        S, T = R(ny, nx, nd), R(nx, nz, nd)
        p, q = rng.randint(1, 3), rng.randint(1, 3)
        L, Rr, v, u = R(p, ny * nd), R(nx * nd, q), R(nx * nd), R(ny * nd)

        def obs():
            o = {"dense": sp.to_dense(np.array(S)), "ss": sp.dot(np.array(S), np.array(T)), "sv": sp.dot(np.array(S), np.array(v)),
                 "vs": sp.dot(np.array(u), np.array(S)), "sd": sp.dot(np.array(S), np.array(Rr)), "ds": sp.dot(np.array(L), np.array(S)),
                 "dsd": sp.dot(np.array(L), np.array(S), np.array(Rr))}
            sh = {k: shape(x) for k, x in o.items()}
            eq = lambda a, b: onp.shape(a) == onp.shape(b) and bool(onp.allclose(onp.asarray(a), onp.asarray(b), rtol=1e-12, atol=1e-12))
            forms = [eq(sp.to_dense(S), o["dense"]), eq(sp.dot(S, v), o["sv"]), eq(sp.dot(u, S), o["vs"]),
                     eq(sp.dot(S.tolist(), np.array(T)), o["ss"]), eq(sp.dot(L.tolist(), S), o["ds"]), eq(sp.dot(S, Rr.tolist()), o["sd"]),
                     eq(jax.jit(lambda a, b: sp.dot(a, b))(S, T), o["ss"]),
                     eq(sp.sparse_dot_vec(np.array(S), np.array(v)), o["sv"]), eq(sp.vec_dot_sparse(np.array(u), np.array(S)), o["vs"]),
                     eq(sp.sparse_dot_dense(np.array(S), np.array(Rr)), o["sd"]), eq(sp.dense_dot_sparse(np.array(L), np.array(S)), o["ds"]),
                     eq(sp.sparse_dot_sparse(np.array(S), np.array(T)), o["ss"]),
                     eq(sp.dense_dot_sparse_dot_dense(np.array(L), np.array(S), np.array(Rr)), o["dsd"]),
                     bool(sp.is_sparse(S)) and not bool(sp.is_sparse(L)) and not bool(sp.is_sparse(v)),
                     eq(sp.check_sparse(S), S)]
            o["forms"] = all(forms)
            o["sh"] = sh
            return o
        ck.event("products", obs, S=S, T=T, L=L, R=Rr, v=v, u=u, tag=f"{ny}x{nx}.{nz}x{nd}")

    def square(A, kind, ce=0):
        # the matrix itself is A times 2^ce: its inverse is read in units of 2^-ce
        def obs():
            B = A * 2.0 ** ce
            f = (lambda g: jax.jit(g)) if ck.count % 3 == 0 else (lambda g: g)
            i, (s, l), d = f(sp.inv)(np.array(B)), f(sp.slogdet)(np.array(B)), f(sp.det)(np.array(B))
            i, d = onp.asarray(i) * 2.0 ** ce, onp.asarray(d) * 2.0 ** (-ce * len(A) * A.shape[2])
            return {"inv": i, "sign": s, "logdet": l, "det": d, "sh": {"inv": shape(i), "det": shape(d), "sld": shape(l) + shape(s)}}
        ck.event("square", obs, S=A, ce=ce, tag=f"{kind} 2^{ce}")

    def dets(A):
        return onp.linalg.det(onp.transpose(A, (2, 0, 1)))
    n = 0
    want = 160 if ck.thorough else 56
    while n < want:
        ny, nd = rng.randint(1, 4 if ck.thorough else 3), rng.randint(1, 5 if ck.thorough else 4)
        kind = rng.choice(["general", "general", "symmetric", "perm", "singular sub-block", "scaled", "negdet"])
        A = R(ny, ny, nd)
        if kind == "symmetric":
            A = A + onp.transpose(A, (1, 0, 2))
        if kind == "perm":
            A = onp.zeros((ny, ny, nd))
            for d in range(nd):
                pm = list(range(ny))
                rng.shuffle(pm)
                for a in range(ny):
                    A[a, pm[a], d] = rng.choice([1, -1, 2, -3])
        if kind == "singular sub-block":
            if ny < 2:
                continue
            A[:ny - 1, :ny - 1, rng.randrange(nd)] = 0 if ny == 2 else 1
            A[0, 0, rng.randrange(nd)] = 0
        if onp.any(onp.abs(dets(A)) < 0.5):
            continue
        if kind == "negdet" and onp.prod(dets(A)) > 0:
            A[0] *= -1
        if kind == "scaled":
            A = A * 2.0 ** rng.randint(-6, 6)
            for d in range(nd):
                A[:, :, d] *= 2.0 ** rng.randint(-4, 4)
        n += 1
        ce = rng.choice([0, 0, 0, -40, -100, 60])
        square(A, kind, ce if abs(ce) * ny * nd < 900 else 0)
    while n < want + 4:     # larger blocks, diagonally dominant in places
        ny, nd = rng.randint(4, 7), rng.randint(2, 5)
        A = R(ny, ny, nd) + onp.expand_dims(onp.diag([float(rng.choice([-6, 5, 7])) for _ in range(ny)]), 2)
        if onp.any(onp.abs(dets(A)) < 5.0):
            continue
        n += 1
        square(A, "larger")
    for _ in range(12 if ck.thorough else 5):   # exactly singular matrices: determinant 0
        ny, nd = rng.randint(2, 3), rng.randint(1, 3)
        A = R(ny, ny, nd)
        A[1] = A[0] * rng.choice([0, 1, 2, -1])
        ck.event("singular", lambda: {"det": sp.det(np.array(A))}, S=A, scale=float(onp.max(onp.abs(A)) + 1) ** (ny * nd))
