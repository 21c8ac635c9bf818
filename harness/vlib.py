"""Shared machinery of the checks: recording observations of the real code as
exact decimal numbers, running TLC on them, and writing verdicts/evidence.

Nothing here decides a property: the verdicts are computed by TLC from the
specifications in /verif/spec; this file only transports data.
"""
import hashlib, json, math, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SCALE = 10 ** 40


# ------------------------------------------------------------------ numbers
def num(x):
    """float/int/Fraction -> Num limbs (units of 1e-40, truncated)."""
    if isinstance(x, (int,)):
        n = x * SCALE
    elif hasattr(x, "numerator") and not isinstance(x, float) and not hasattr(x, "dtype"):
        n = abs(x.numerator) * SCALE // x.denominator
        if x.numerator < 0:
            n = -n
    else:
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return [2]
        p, q = abs(x).as_integer_ratio()
        n = p * SCALE // q
        if x < 0:
            n = -n
    if n == 0:
        return [0]
    out = [1 if n > 0 else -1]
    n = abs(n)
    while n:
        n, g = divmod(n, 10 ** 16)
        for j in range(4):
            if n == 0 and g == 0:
                break
            g, l = divmod(g, 10000)
            out.append(l)
    return out


def enc(v):
    """Encode any (nested) numeric observation; python ints stay TLC integers."""
    import numpy as onp
    if isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return num(v)
    if isinstance(v, dict):
        return {k: enc(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if hasattr(v, "numerator") and not hasattr(v, "dtype"):
        return num(v)  # Fraction
    a = onp.asarray(v)
    if a.dtype.kind == "b":
        return a.tolist()
    if a.dtype.kind == "f":
        return _encf(a.astype(onp.float64).tolist())
    if a.dtype.kind in "iu":
        return _enci(a.tolist())
    raise TypeError(f"cannot encode {type(v)} {a.dtype}")


def _encf(x):
    return [_encf(y) for y in x] if isinstance(x, list) else num(x)


def _enci(x):
    """integer-dtype arrays are numbers too (they are observed values)."""
    return [_enci(y) for y in x] if isinstance(x, list) else num(x)


def shape(v):
    import numpy as onp
    return [int(s) for s in onp.shape(v)]


# ---------------------------------------------------------------- overrides
def overrides(scratch):
    """Directory with the compiled java overrides (compiled from /verif/java)."""
    srcs = sorted(os.path.join(ROOT, "java", f) for f in os.listdir(os.path.join(ROOT, "java")) if f.endswith(".java"))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()[:16]
    d = os.path.join(ROOT, "build", "ov-" + h)
    if os.path.isdir(d) and all(os.path.exists(os.path.join(d, os.path.basename(s)[:-5] + ".class")) for s in srcs):
        return d
    tmp = os.path.join(scratch, "ov")
    os.makedirs(tmp, exist_ok=True)
    subprocess.run(["javac", "-cp", TLA, "-d", tmp] + srcs, check=True, capture_output=True)
    try:
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        shutil.copytree(tmp, d + ".tmp%d" % os.getpid())
        os.rename(d + ".tmp%d" % os.getpid(), d)
        return d
    except OSError:
        return tmp


class TlcError(Exception):
    pass


_EVALERR = re.compile(r"(Attempted to|Evaluating|evaluat|The first argument|was not in the domain|In applying the function|Overflow|overflow)")


class Tlc:
    """One TLC run; .out, .states, .distinct, .ok, .printed"""

    def __init__(self, scratch, spec, cfg, env=None, workers=8, timeout=800, extra=(), ov=True, depth=None, xmx="12g"):
        md = tempfile.mkdtemp(dir=scratch)
        cp = ([overrides(scratch)] if ov else []) + [TLA, CM]
        cmd = ["java", "-Xss256m", "-Xmx" + xmx, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC, "-cp", ":".join(cp), "tlc2.TLC",
               "-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPEC, cfg)] + list(extra) + [
               os.path.join(SPEC, spec)]
        e = dict(os.environ)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired as ex:
            raise TlcError(f"TLC timed out after {timeout}s on {spec}") from ex
        self.cmd, self.out, self.rc, self.wall = cmd, p.stdout + p.stderr, p.returncode, time.time() - t0
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.states, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.printed = []
        for l in self.out.splitlines():
            if len(l) > 2 and l[0] == '"' and l[-1] == '"':
                s = l[1:-1]
                self.printed.append(s.replace('\\"', '"').replace("\\\\", "\\"))
        self.violated = "is violated" in self.out
        self.finished = "Model checking completed" in self.out or "Finished computing initial states" in self.out or "states generated" in self.out
        self.error = None
        if self.rc != 0 and not self.violated:
            m = re.search(r"Error: (.*?)(?:\nFinished|\Z)", self.out, re.S)
            self.error = (m.group(0) if m else self.out[-2000:]).strip()
        shutil.rmtree(md, ignore_errors=True)


# -------------------------------------------------------------------- check
class Violation(Exception):
    pass


class Check:
    def __init__(self, pid, level, part=0, nparts=1):
        self.pid, self.level, self.part, self.nparts = pid, level, part, nparts
        self.count = 0
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.events = []
        self.cov = {}
        self.assumptions = []
        self.viol = []      # (event or None, clause)
        self.known = []     # clauses recognised as listed findings
        self.design = []    # descriptions of design-level runs
        self.thorough = self.tier == "thorough"
        self.budget = 7200 if self.thorough else 560

    # -- recording
    def event(self, op, fn, shardkey=None, **inputs):
        """Run fn() (returns a dict of observations) and record one event.

        inputs are recorded beside it.  An exception is an observation too.
        Recording is spread over processes: each executes its share of the
        events (fn must not consume ck.rng, so the inputs agree)."""
        self.count += 1
        if (self.count - 1 if shardkey is None else shardkey) % self.nparts != self.part:
            return
        if time.time() - self.t0 > self.budget:   # a slow machine explores less, it does not run out of time
            self.cov["events_skipped_for_time"] = self.cov.get("events_skipped_for_time", 0) + 1
            return
        t0 = time.time()
        ev = {"id": self.count, "op": op, "exc": ""}
        ev.update({k: enc(v) for k, v in inputs.items()})
        try:
            obs = fn()
            if obs is not None:
                ev.update({k: enc(v) for k, v in obs.items()})
        except Exception as ex:  # noqa
            ev["exc"] = type(ex).__name__
            ev["msg"] = str(ex)[:200]
        if os.environ.get("VERIF_TIMING"):
            with open(os.environ["VERIF_TIMING"], "a") as f:
                f.write("%8.2f %s %s %s\n" % (time.time() - t0, self.part, op, inputs.get("tag", "")))
        self.events.append(ev)

    def mine(self):
        """is the next event executed by this process?"""
        return self.count % self.nparts == self.part

    def log(self, *a):
        print(f"[{self.pid} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- TLC
    def tlc(self, spec, cfg, **kw):
        return Tlc(self.scratch, spec, cfg, **kw)

    def model(self, spec, cfg, expect="ok", note="", **kw):
        """A design-level model-checking run of the specification itself."""
        r = self.tlc(spec, cfg, **kw)
        if r.error:
            raise TlcError(f"{spec}/{cfg}: {r.error[:1500]}")
        if (expect == "ok") == r.violated:
            raise TlcError(f"design check {spec}/{cfg}: expected {expect}, TLC said {'violated' if r.violated else 'ok'}\n{r.out[-1500:]}")
        self.design.append({"spec": spec, "cfg": cfg, "expected": expect, "states": r.states, "distinct": r.distinct,
                            "wall_s": round(r.wall, 1), "note": note})
        self.log(f"model {spec} [{cfg}] {r.distinct} distinct states, {expect} ({r.wall:.1f}s)")
        return r

    def conform(self, spec, cfg=None, events=None, env=None, workers=8, timeout=800, chunk=None):
        """Judge the recorded events with the conformance specification."""
        events = self.events if events is None else events
        if not events:
            return
        cfg = cfg or spec.replace(".tla", ".cfg")
        path = os.path.join(self.scratch, "trace-%d.ndjson" % len(os.listdir(self.scratch)))
        with open(path, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        if os.environ.get("VERIF_KEEP"):     # developer's copy of the trace
            shutil.copy(path, os.environ["VERIF_KEEP"])
        en = {"TRACE": path}
        en.update(env or {})
        r = self.tlc(spec, cfg, env=en, workers=workers, timeout=timeout, extra=["-continue"])
        seen = {}
        for s in r.printed:
            m = re.match(r"V (\d+) (\{.*\})$", s)
            if m:
                seen[int(m.group(1))] = re.findall(r'"([^"]*)"', m.group(2))
        byid = {i + 1: e for i, e in enumerate(events)}
        for i, clauses in sorted(seen.items()):
            for c in clauses:
                (self.known if c.startswith("known:") else self.viol).append((byid[i], c))
        missing = [i for i in byid if i not in seen]
        if missing:
            if r.error and _EVALERR.search(r.error):
                # an observation the specification cannot even be evaluated on
                self.viol.append((byid[missing[0]], "unevaluable: " + " ".join(r.error.split())[:300]))
            else:
                raise TlcError(f"{spec}: {len(missing)} of {len(byid)} events without verdict: {r.error or r.out[-1500:]}")
        self.cov["states"] = self.cov.get("states", 0) + r.distinct
        self.cov["transitions"] = self.cov.get("transitions", 0) + r.states
        self.cov["conformance_tlc_wall_s"] = round(self.cov.get("conformance_tlc_wall_s", 0) + r.wall, 1)
        self.log(f"conformance {spec}: {len(seen)} events judged ({r.wall:.1f}s), {sum(map(len, seen.values()))} clauses violated")
        return r

    # -- ending
    def finish(self, rule, samples=None, **cov):
        known = load_known(self.pid)
        lines, real = {}, []
        for ev, c in self.known:
            for k in known:
                if k["clause"] == c[len("known:"):]:
                    lines[k["clause"]] = k
                    break
            else:
                real.append((ev, c))
        real += self.viol
        ev = self.events
        c = {"evaluations": len(ev), "rule": rule,
             "distinct_nontrivial": len({hashlib.md5(json.dumps({k: v for k, v in e.items() if k != "id"}, sort_keys=True).encode()).hexdigest() for e in ev}),
             "samples": [brief(e) for e in (samples or ev[:2] + ev[len(ev) // 2:len(ev) // 2 + 1])],
             "traces_validated_against_impl": len(ev),
             "events_by_kind": counts(e["op"] for e in ev),
             "design_runs": self.design,
             "specification_states": sum(d["distinct"] for d in self.design)}
        c.update(self.cov)
        c["states"] = c.get("states", 0) + c["specification_states"]
        c["transitions"] = c.get("transitions", 0) + sum(d["states"] for d in self.design)
        c.update(cov)
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": c,
               "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        if lines:
            rec["coverage"]["known_findings_seen"] = sorted(lines)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(rec, f, indent=1)
        for k in lines.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if real:
            rp = os.path.join(ROOT, "evidence", "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump([{"clause": cl, "event": e} for e, cl in real[:50]], f, indent=1)
            for e, cl in real[:20]:
                print("  violated clause:", cl, "| event", (e or {}).get("id"), (e or {}).get("op"), (e or {}).get("tag", ""), (e or {}).get("exc", ""), (e or {}).get("msg", ""))
            print(f"VIOLATION property={self.pid} replay={os.path.relpath(rp, ROOT)}")
            return 1
        self.log("held on everything explored")
        return 0


def counts(it):
    d = {}
    for x in it:
        d[x] = d.get(x, 0) + 1
    return d


def dec(l):
    """limbs -> float, for display only"""
    if l == [2]:
        return float("nan")
    n = 0
    for x in reversed(l[1:]):
        n = n * 10000 + x
    return float(l[0] * n) / 1e40 if n < 10 ** 300 else l[0] * float("inf")


def islimbs(v):
    return isinstance(v, list) and v and all(type(x) is int for x in v) and v[0] in (-1, 0, 1, 2) and (
        v in ([0], [2]) or (len(v) > 1 and v[0] in (-1, 1) and len(v) >= 2 and all(0 <= x < 10000 for x in v[1:]) and len(v) > 5))


def brief(e, depth=0):
    if islimbs(e):
        return dec(e)
    if isinstance(e, dict):
        return {k: brief(v, depth + 1) for k, v in e.items()}
    if isinstance(e, list):
        out = [brief(v, depth + 1) for v in e[:8]]
        return out + (["... %d more" % (len(e) - 8)] if len(e) > 8 else [])
    return e


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


# ------------------------------------------------------------------- running
def run_module(mod, pid, argv=()):
    """Run a check: record the events in SHARDS processes while TLC checks the
    design-level models, then judge the events with the conformance spec."""
    if argv and argv[0] == "--shard":
        part, nparts, out = int(argv[1]), int(argv[2]), argv[3]
        ck = Check(pid, mod.LEVEL, part, nparts)
        try:
            mod.record(ck)
            with open(out + ".tmp", "w") as f:
                for e in ck.events:
                    f.write(json.dumps(e) + "\n")
                f.write(json.dumps({"extra": ck.cov}) + "\n")
            os.rename(out + ".tmp", out)
        finally:
            shutil.rmtree(ck.scratch, ignore_errors=True)
        return 0
    ck = Check(pid, mod.LEVEL)
    try:
        n = getattr(mod, "SHARDS", 1)
        pre = getattr(mod, "generate", None)
        env = dict(os.environ)
        if pre:
            pre(ck)          # TLC-generated behaviours, left in ck.scratch
            env["VERIF_GEN"] = ck.scratch
        ov = overrides(ck.scratch)  # noqa (compile once)
        procs = []
        for i in range(n):
            out = os.path.join(ck.scratch, "shard%d.ndjson" % i)
            err = open(out + ".err", "w")
            procs.append((subprocess.Popen([sys.executable, os.path.join(ROOT, "checks", "run.py"), pid, "--shard", str(i), str(n), out],
                                           stdout=err, stderr=subprocess.STDOUT, env=env, cwd=ROOT), out))
        if hasattr(mod, "models"):
            mod.models(ck)
        for p, out in procs:
            rc = p.wait()
            if not os.path.exists(out):
                raise RuntimeError(f"recording process failed ({rc}): " + open(out + ".err").read()[-3000:])
            for l in open(out):
                d = json.loads(l)
                if "extra" in d and "op" not in d:
                    for k, v in d["extra"].items():
                        ck.cov[k] = ck.cov.get(k, 0) + v if isinstance(v, (int, float)) else v
                else:
                    ck.events.append(d)
        ck.events.sort(key=lambda e: e["id"])
        ck.log(f"recorded {len(ck.events)} events of the real code in {n} processes")
        if hasattr(mod, "judge"):
            mod.judge(ck)
        else:
            ck.conform("Check%s.tla" % pid)
        return ck.finish(mod.RULE, **(getattr(mod, "EXTRA", {})))
    finally:
        for p, _ in locals().get("procs", []):
            if p.poll() is None:
                p.kill()
        shutil.rmtree(ck.scratch, ignore_errors=True)


# ------------------------------------------------------------------- jax set-up
def setup_jax(x64=True):
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ.setdefault("JAX_DISABLE_MOST_OPTIMIZATIONS", "1")   # compile time dominates
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import jax
    jax.config.update("jax_enable_x64", x64)
    import jax_cosmo
    return jax, jax_cosmo
