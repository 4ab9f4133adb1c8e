"""Shared property-based-testing harness.

A check module (``checks/cNN.py``) registers *sub-properties*.  Each one has a Hypothesis strategy producing a plain,
JSON-serialisable *case* and a body which builds the real objects from the case, runs the code of /repo and compares it
with an explicit oracle.  The harness drives the search (seed = VERIF_SEED, no example database, no deadline), counts
what was generated, and, on failure, writes the shrunk case as a replay file which ``run.sh ID --replay FILE`` runs
again without Hypothesis.
"""
import contextlib
import hashlib
import io
import json
import logging
import math
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)  # *after* the repository's own environment: only hypothesis & friends come from there

import numpy as np  # noqa: E402
import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings, strategies as st  # noqa: E402

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

SHRINK_BUDGET = 60.0  # seconds
QUICK_LIMIT = 450  # seconds after which a quick run generates no further cases
VERIF = Path(__file__).resolve().parent.parent
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation(AssertionError):
    """The code of /repo contradicts the property."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig


class HarnessError(Exception):
    """Something is wrong with the check itself (never reported as a violation)."""


# ---------------------------------------------------------------- oracle helpers
def check(cond, msg, sig=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig=sig)


def eq(got, want, what, sig=None):
    if not (got == want):
        raise Violation(f"{what}: got {got!r}, expected {want!r}", sig=sig)


def close(got, want, what, rtol=1e-9, atol=0.0, sig=None):
    """Elementwise |got-want| <= atol + rtol*|want|, shapes equal, NaN never accepted (unless wanted)."""
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", sig=sig)
    with np.errstate(all="ignore"):
        same = (g == w) | (np.isnan(g) & np.isnan(w))
        bad = ~(same | (np.abs(g - w) <= atol + rtol * np.abs(w)))
    if bad.any():
        idx = tuple(int(x[0]) for x in np.nonzero(bad)) if g.shape else ()
        raise Violation(f"{what}: got {g[idx]!r}, expected {w[idx]!r} at index {idx} "
                        f"({int(bad.sum())} of {g.size} entries differ)", sig=sig)


def close_scaled(got, want, what, tol=1e-9, scale=None, sig=None):
    """Elementwise |got-want| <= tol*max|want| (for quantities with cancellations)."""
    w = np.asarray(want, dtype=float)
    s = scale if scale is not None else (float(np.max(np.abs(w))) if w.size else 0.0)
    close(got, want, what, rtol=tol, atol=tol * s, sig=sig)


def same_bits(got, want, what, sig=None):
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", sig=sig)
    if g.dtype.kind in "fc" or w.dtype.kind in "fc":
        ok = np.array_equal(g.astype(float), w.astype(float), equal_nan=True)
    else:
        ok = np.array_equal(g, w)
    if not ok:
        raise Violation(f"{what}: arrays differ: got {g.ravel()[:8]!r}, expected {w.ravel()[:8]!r}", sig=sig)


def raises(exc_types, fn, what):
    """fn must raise one of exc_types."""
    try:
        res = fn()
    except exc_types:
        return
    raise Violation(f"{what}: accepted (returned {res!r}), expected an error")


# ---------------------------------------------------------------- strategies
def finite(lo, hi, **kw):
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, allow_subnormal=False, **kw)


def nice(lo, hi, n=1000):
    """Floats on a regular lattice in [lo, hi] (shrink well, no pathological values)."""
    return st.integers(0, n).map(lambda k: lo + (hi - lo) * k / n)


def vec(n, elems):
    return st.lists(elems, min_size=n, max_size=n)


@st.composite
def ops_list(draw, elem, lo=1, hi=10):
    """List of operations whose length is uniform in [lo, hi] (Hypothesis' own lists are mostly short)."""
    n = draw(st.integers(lo, hi))
    return [list(draw(elem)) for _ in range(n)]


def lcg(seed, n, lo=-1.0, hi=1.0):
    """Deterministic expansion of one drawn integer into n floats (no RNG library, pure function of the case)."""
    x = (int(seed) * 6364136223846793005 + 1442695040888963407) % (1 << 64)
    out = np.empty(n)
    for i in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        out[i] = (x >> 11) / float(1 << 53)
    return lo + (hi - lo) * out


# ---------------------------------------------------------------- context handed to a body
class Ctx:
    def __init__(self, runner):
        self._runner = runner
        self._labels = set()
        self._nontrivial = False
        self._tmps = []

    def label(self, *labels):
        for lab in labels:
            self._labels.add(str(lab))

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def tmp(self) -> Path:
        d = Path(tempfile.mkdtemp(prefix="case_", dir=self._runner.scratch))
        self._tmps.append(d)
        return d

    def _close(self):
        for d in self._tmps:
            shutil.rmtree(d, ignore_errors=True)
        self._tmps = []


def jsonable(x):
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, Path):
        return str(x)
    return repr(x)


def canon(case):
    return json.dumps(case, sort_keys=True, default=jsonable)


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.last_failure = None
        self.n_failures = 0
        self.known = {}
        self.wall = 0.0


class Check:
    """Container of the sub-properties which together decide one property."""

    def __init__(self, pid, assumptions=(), shards=4):
        self.pid = pid
        self.shards = shards  # worker processes of the quick tier, each with its own seed
        self.subs = []
        self.assumptions = list(assumptions)

    def prop(self, strategy, quick=100, thorough=None, rule="every generated case counts", name=None):
        def deco(fn):
            if (name or fn.__name__) in os.environ.get("PBT_SUBS", name or fn.__name__).split(","):  # development: some of the parts only
                self.subs.append(Sub(name or fn.__name__, strategy, fn, quick, thorough or quick * 20, rule))
            return fn
        return deco


def load_known():
    """known_findings.txt -> {pid: {sig: text}} for the lines 'finding: property=<id> sig=<sig> <text>'."""
    known = {}
    path = VERIF / "known_findings.txt"
    if path.is_file():
        for line in path.read_text().splitlines():
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                sig = parts[2].split("=", 1)[1]
                known.setdefault(pid, {})[sig] = parts[3]
    return known


class _KnownHit(Exception):
    pass


class Runner:
    def __init__(self, chk):
        self.chk = chk
        self.known = load_known().get(chk.pid, {})
        self.scratch = None

    # -- one execution of one case
    def execute(self, sub, case):
        ctx = Ctx(self)
        sub.evaluations += 1
        # bodies get a private deep copy so they cannot disturb the recorded case
        arg = json.loads(json.dumps(case, default=jsonable))
        out = io.StringIO()
        cwd = os.getcwd()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), np.errstate(all="ignore"):
                try:
                    sub.body(arg, ctx)
                except (HarnessError, ImportError, MemoryError, hypothesis.errors.HypothesisException):
                    raise
                except Violation as v:
                    if v.sig is not None and v.sig in self.known:
                        sub.known[v.sig] = sub.known.get(v.sig, 0) + 1
                        return
                    raise
                except OSError as e:
                    if e.errno in (28, 12, 24):  # no space, no memory, too many open files: not the code's fault
                        raise HarnessError(f"environment: {e}") from e
                    raise Violation(self.describe(e)) from e
                except Exception as e:  # valid input, unexpected exception (or an unusable result)
                    raise Violation(self.describe(e)) from e
        finally:
            os.chdir(cwd)
            ctx._close()
            for lab in ctx._labels:
                sub.labels[lab] = sub.labels.get(lab, 0) + 1
            if ctx._nontrivial:
                text = canon(case)
                h = hashlib.sha1(text.encode()).digest()
                if h not in sub.nontrivial:
                    sub.nontrivial.add(h)
                    if len(sub.samples) < 2 or len(sub.nontrivial) in (50, 200):
                        sub.samples.append(text[:500])

    @staticmethod
    def describe(e):
        if os.environ.get("PBT_TRACE"):
            traceback.print_exception(e, file=sys.__stderr__)
        tb = traceback.extract_tb(e.__traceback__)
        repo = [f for f in tb if f.filename.startswith("/repo")]
        where = f"{repo[-1].filename}:{repo[-1].lineno} in {repo[-1].name}" if repo else \
            f"{tb[-1].filename}:{tb[-1].lineno} (while examining the result)"
        return f"unexpected {type(e).__name__}: {e} at {where}"

    def search(self, sub, shard=0):
        n = sub.quick if TIER == "quick" else max(sub.quick, sub.thorough // 2)
        t0 = time.time()

        first = []

        def test(case):
            if not first and TIER == "quick" and time.time() - self.started > QUICK_LIMIT:
                return  # an overloaded machine: fewer cases instead of no answer in time (the evidence counts those executed)
            if first and time.time() - first[0] > SHRINK_BUDGET:
                return  # stop shrinking (reported as flaky by hypothesis, handled below)
            try:
                self.execute(sub, case)
            except Violation as v:
                first.append(time.time())
                sub.n_failures += 1
                sub.last_failure = (case, str(v))
                raise

        h = int.from_bytes(hashlib.sha1(f"{self.chk.pid}/{sub.name}/{SEED}{f'/{shard}' if shard else ''}".encode()).digest()[:8], "big")
        phases = [Phase.explicit, Phase.generate] + ([] if os.environ.get("PBT_FAST") else [Phase.shrink])
        wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False, phases=phases,
                           report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                           suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                                  HealthCheck.large_base_example])(given(sub.strategy)(test))
        wrapped = hypothesis.seed(h)(wrapped)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                wrapped()
        except Violation:
            pass
        except (HarnessError, ImportError, MemoryError):
            raise
        except BaseException as e:
            # Flaky / exception groups: a violation was seen but did not repeat identically
            if sub.last_failure is None:
                raise HarnessError(f"{sub.name}: {type(e).__name__}: {e}") from e
        sub.wall = time.time() - t0
        return sub.last_failure

    def run_shard(self, shard):
        """search every part with the shard's own seed -> what was covered and what failed"""
        t0 = self.started = time.time()
        failed = False
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{self.chk.pid}_")
        home = os.path.join(self.scratch, "home")
        os.makedirs(home)
        os.environ["HOME"] = home
        os.environ["SEYFERT_VERIF_SCRATCH"] = self.scratch
        try:
            os.chdir(self.scratch)
            for sub in self.chk.subs:
                if failed and (time.time() - t0 > 300 or os.environ.get("PBT_FAST")):
                    break
                failed = self.search(sub, shard) is not None or failed
        finally:
            os.chdir("/")
            shutil.rmtree(self.scratch, ignore_errors=True)
        return [{"name": s.name, "evaluations": s.evaluations, "nontrivial": sorted(h.hex() for h in s.nontrivial), "labels": s.labels, "samples": s.samples,
                 "known": s.known, "wall": s.wall, "failure": s.last_failure} for s in self.chk.subs]

    def run(self):
        t0 = time.time()
        n = int(os.environ.get("PBT_SHARDS", self.chk.shards if TIER == "quick" else 8))
        box = tempfile.mkdtemp(prefix=f"verif_{self.chk.pid}_shards_")
        sys.stdout.flush()
        pids = []
        try:
            for k in range(n):
                pid = os.fork()
                if pid == 0:
                    code = 2
                    try:
                        out = self.run_shard(k)
                        with open(f"{box}/{k}.json", "w") as f:
                            json.dump(out, f, default=jsonable)
                        code = 0
                    except BaseException:
                        traceback.print_exc(file=sys.stdout)
                    finally:
                        sys.stdout.flush()
                        os._exit(code)
                pids.append(pid)
            status = [os.waitpid(pid, 0)[1] for pid in pids]
            if any(status):
                raise HarnessError(f"workers ended with status {status}")
            shards = [json.loads(Path(f"{box}/{k}.json").read_text()) for k in range(n)]
        finally:
            shutil.rmtree(box, ignore_errors=True)
        failures = []
        for i, sub in enumerate(self.chk.subs):
            parts = [s[i] for s in shards]
            sub.evaluations = sum(p["evaluations"] for p in parts)
            sub.nontrivial = set().union(*(p["nontrivial"] for p in parts))
            sub.samples = [t for p in parts for t in p["samples"]]
            sub.wall = max(p["wall"] for p in parts)
            for what, into in (("labels", sub.labels), ("known", sub.known)):
                for p in parts:
                    for key, v in p[what].items():
                        into[key] = into.get(key, 0) + v
            found = [p["failure"] for p in parts if p["failure"] is not None]
            if found:
                failures.append((sub, *min(found, key=lambda f: len(canon(f[0])))))
        self.write_evidence(failures, time.time() - t0)
        for sig, text in self.known.items():
            if any(sig in s.known for s in self.chk.subs):
                print(f"KNOWN-FINDING: property={self.chk.pid} {text}")
        for sub in self.chk.subs:
            print(f"  {sub.name}: {sub.evaluations} cases, {len(sub.nontrivial)} distinct non-trivial, "
                  f"{sub.wall:.1f}s" + (f", labels {dict(sorted(sub.labels.items()))}" if sub.labels else ""))
        if failures:
            for sub, case, msg in failures:
                path = self.write_replay(sub, case, msg)
                print(f"  {sub.name}: {msg[:800]}")
                print(f"VIOLATION property={self.chk.pid} replay={path}")
            return 1
        print(f"OK property={self.chk.pid} seed={SEED} tier={TIER} wall={time.time() - t0:.1f}s")
        return 0

    def write_replay(self, sub, case, msg):
        d = VERIF / "replays"
        d.mkdir(exist_ok=True)
        path = d / f"{self.chk.pid}-{sub.name}-{SEED}.json"
        path.write_text(json.dumps({"property": self.chk.pid, "sub": sub.name, "seed": SEED, "tier": TIER,
                                    "message": msg, "case": case}, default=jsonable, indent=1))
        return path

    def write_evidence(self, failures, wall):
        d = VERIF / "evidence"
        d.mkdir(exist_ok=True)
        samples = []
        for s in self.chk.subs:
            for t in s.samples[:3]:
                samples.append({"sub": s.name, "case": t})
        data = {
            "property": self.chk.pid, "tier": TIER, "seed": SEED, "level": "exploration",
            "coverage": {
                "evaluations": sum(s.evaluations for s in self.chk.subs),
                "distinct_nontrivial": sum(len(s.nontrivial) for s in self.chk.subs),
                "rule": " | ".join(f"{s.name}: {s.rule}" for s in self.chk.subs),
                "samples": samples,
                "per_sub": {s.name: {"evaluations": s.evaluations, "distinct_nontrivial": len(s.nontrivial),
                                     "labels": s.labels, "known_findings_hit": s.known,
                                     "wall_s": round(s.wall, 2)} for s in self.chk.subs},
            },
            "assumptions": self.chk.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(failures),
        }
        (d / f"{self.chk.pid}.json").write_text(json.dumps(data, indent=1, default=jsonable))

    def replay(self, path):
        data = json.loads(Path(path).read_text())
        sub = next(s for s in self.chk.subs if s.name == data["sub"])
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{self.chk.pid}_")
        os.environ["HOME"] = self.scratch
        try:
            os.chdir(self.scratch)
            self.execute(sub, data["case"])
        except Violation as v:
            print(f"  {sub.name}: {v}")
            print(f"VIOLATION property={self.chk.pid} replay={path}")
            return 1
        finally:
            os.chdir("/")
            shutil.rmtree(self.scratch, ignore_errors=True)
        print(f"OK property={self.chk.pid} replay={path} does not fail")
        return 0
