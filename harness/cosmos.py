"""Seeded cosmologies: fixed corners, then random interior points."""
NAMES = ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"]


def mk(Oc=0.25, Ob=0.05, h=0.7, ns=0.96, s8=0.8, Ok=0.0, w0=-1.0, wa=0.0, gamma=None):
    return dict(Omega_c=Oc, Omega_b=Ob, h=h, n_s=ns, sigma8=s8, Omega_k=Ok, w0=w0, wa=wa, gamma=gamma)


CORNERS = [
    mk(0.2589, 0.0486, 0.6774, 0.9667, 0.8159),
    mk(0.2, 0.05, Ok=0.15, w0=-0.9, wa=0.2),
    mk(0.3, 0.04, Ok=-0.12, w0=-1.1, wa=-0.3),
    mk(0.25, 0.05, w0=-0.8, wa=0.3, gamma=0.55),
    mk(0.22, 0.03, h=0.62, ns=0.9, s8=0.7, Ok=0.05, gamma=0.0),
    mk(0.35, 0.06, h=0.8, ns=1.02, s8=0.95, Ok=-0.05, w0=-1.15, gamma=0.68),
    mk(0.95, 0.05, Ok=0.0),                      # Einstein-de Sitter
    mk(0.15, 0.05, Ok=0.3, w0=-0.7, wa=-0.2),
]


def draw(rng, gammas=True, mild=False):
    u = rng.uniform
    r = 0.5 if mild else 1.0
    c = mk(u(0.25 - 0.12 * r, 0.25 + 0.2 * r), u(0.025, 0.07), u(0.6, 0.8), u(0.9, 1.03), u(0.65, 0.95),
           rng.choice([0.0, u(-0.15, 0.15) * r, u(-0.01, 0.01), u(-0.15, 0.15) * r]), rng.choice([-1.0, u(-1.25, -0.75)]), rng.choice([0.0, u(-0.35, 0.35)]))
    if gammas and rng.random() < 0.35:
        c["gamma"] = rng.choice([0.0, 0.55, u(0.3, 0.8), 1.0])
    return c


def sample(rng, n, **kw):
    return (CORNERS[:n] + [draw(rng, **kw) for _ in range(max(0, n - len(CORNERS)))])[:n]


def rec(c):
    """as recorded for TLA+"""
    d = {k: float(v) for k, v in c.items() if k != "gamma"}
    d["hasgamma"] = c["gamma"] is not None
    d["gamma"] = float(c["gamma"]) if c["gamma"] is not None else 0.0
    return d


def build(jc, c, as_array=False):
    import jax.numpy as np
    f = (lambda v: np.array(v)) if as_array else (lambda v: v)
    kw = {k: f(v) for k, v in c.items() if not (k == "gamma" and v is None)}
    return jc.Cosmology(**kw)
