#!/opt/venv/bin/python
"""Maintains /verif/seeded: planting bugs and confirming them in scratch copies.

  seed.py plant FILE.py [ID..]   FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)],
                                 demo, needs, breaks)]; writes seeded/<id> when confirmed
  seed.py confirm [ID..]         confirms the stored ones again
  seed.py check [ID..]           runs the check of each one's property against it (and nothing else);
                                 CHECKS=C01,C02 overrides the checks that are run
Everything happens in scratch copies under /tmp, removed afterwards."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
JOBS = int(os.environ.get("JOBS", "3"))


def copy(tmp):
    d = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def env(d):
    e = dict(os.environ, PYTHONPATH=d, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", HOME="/root")
    return e


def demo(d, sd):
    tmp = tempfile.mkdtemp()
    try:
        dd = os.path.join(tmp, "x")
        shutil.copytree(sd, dd, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        t = time.time()
        p = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=d, env=env(d), capture_output=True, text=True, timeout=400)
        return p.returncode, time.time() - t, "\n".join([l for l in (p.stdout + p.stderr).splitlines() if "BROKEN" in l or "Error" in l][-3:])[-600:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def confirm(sid, sd):
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        d = copy(tmp)
        rc, t0, out = demo(d, sd)
        if rc != 0:
            return f"{sid}: demo fails on the unchanged tree ({rc})\n{out}"
        p = subprocess.run(["git", "-C", d, "apply", os.path.join(sd, "patch.diff")], capture_output=True, text=True)
        if p.returncode:
            return f"{sid}: patch does not apply: {p.stderr}"
        rc, t1, out = demo(d, sd)
        if rc == 0:
            return f"{sid}: demo passes with the patch\n{out}"
        tail = out.strip().splitlines()[-1] if out.strip() else ""
        p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n", "2", "-p", "no:cacheprovider", "--timeout=600", "tests"], cwd=d, env=env(d), capture_output=True, text=True)
        if "23 passed" not in p.stdout:
            return f"{sid}: tests do not pass with the patch: {p.stdout[-800:]}"
        return f"{sid}: OK  demo {t0:.0f}s/{t1:.0f}s  [{tail}]"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write(s):
    sd = os.path.join(SEEDED, s["id"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        d = copy(tmp)
        for f, old, new in s["edits"]:
            p = os.path.join(d, "jax_cosmo", f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit(f"{s['id']}: {f}: text occurs {t.count(old)} times: {old!r}")
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, "patch.diff"), "w").write(diff)
    open(os.path.join(sd, "demo.py"), "w").write(PRE.format(x64=s.get("x64", True)) + s["demo"].strip() + "\n")
    open(os.path.join(sd, "demo.sh"), "w").write(
        '#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\n'
        'export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\n'
        'PYTHONPATH="$PWD" timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(sd, "meta.json"), "w"), indent=1)
    return sd


PRE = '''import sys, jax
jax.config.update("jax_enable_x64", {x64})
import numpy as onp, jax.numpy as np, jax_cosmo as jc
from jax_cosmo import background as bg


def cosmology(**kw):
    p = dict(Omega_c=0.25, Omega_b=0.05, h=0.7, n_s=0.96, sigma8=0.8, Omega_k=0.0, w0=-1.0, wa=0.0)
    p.update(kw)
    return jc.Cosmology(**p)


def close(what, got, want, rtol=1e-6, atol=0.0):
    got, want = onp.asarray(got, float), onp.asarray(want, float)
    if got.shape != want.shape or not onp.allclose(got, want, rtol=rtol, atol=atol):
        print("BROKEN", what, "got", got, "want", want)
        sys.exit(1)


'''


def check(sid, sd):
    meta = json.load(open(os.path.join(sd, "meta.json")))
    pids = os.environ.get("CHECKS", meta["property"]).split(",")
    tmp = tempfile.mkdtemp(prefix="seed-")
    res = []
    try:
        d = copy(tmp)
        subprocess.run(["git", "-C", d, "apply", os.path.join(sd, "patch.diff")], check=True)
        v = os.path.join(tmp, "verif")
        subprocess.run(["cp", "-a", ROOT, v], check=True)
        for pid in pids:
            t = time.time()
            p = subprocess.run([PY, "checks/run.py", pid], cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick", VERIF_SEED=os.environ.get("VERIF_SEED", "1")), capture_output=True, text=True)
            lines = [l for l in (p.stdout + p.stderr).splitlines() if "VIOLATION" in l or "known" in l.lower()]
            caught = p.returncode == 1 and any(f"VIOLATION property={pid}" in l for l in lines)
            res.append(f"{sid}: {pid} {'CAUGHT' if caught else 'MISSED rc=%d' % p.returncode} {time.time()-t:.0f}s {lines[:2] if caught else (p.stdout + p.stderr)[-300:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return "\n".join(res)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "plant":
        ns = runpy.run_path(args[0])
        jobs = [(s["id"], write(s)) for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]]
        f = confirm
    else:
        ids = args or sorted(os.listdir(SEEDED))
        jobs = [(i, os.path.join(SEEDED, i)) for i in ids]
        f = confirm if cmd == "confirm" else check
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for r in concurrent.futures.as_completed([ex.submit(f, *j) for j in jobs]):
            print(r.result(), flush=True)


main()
