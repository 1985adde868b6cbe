"""Bounded exhaustive exploration of the real code.

A check module lists every case of its bounded space (`cases(tier)`) and decides one case
at a time (`run_case(case, ctx)`) by driving skfolio and comparing every observable with a
reference. Cases are JSON values, so any violating case is its own replay file.
"""

import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pathlib
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = pathlib.Path(os.environ.get("VERIF_EVIDENCE") or HERE / "evidence")
KNOWN = HERE / "known_findings.txt"
CASE_CPU_S = 150  # processor time allowed to one case, many times what any case needs
CASE_WALL_S = 400
WORKER_BYTES = 3 << 30
MAX_VIOLATIONS = 12


def load_skfolio():
    """Import skfolio from /repo/src, from source text (never from stale bytecode)."""
    import cvxpy  # noqa: F401
    import joblib  # noqa: F401
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import plotly.express  # noqa: F401
    import plotly.figure_factory  # noqa: F401
    import scipy.optimize  # noqa: F401
    import scipy.stats  # noqa: F401
    import sklearn.covariance  # noqa: F401
    import sklearn.linear_model  # noqa: F401
    import sklearn.model_selection  # noqa: F401
    import sklearn.pipeline  # noqa: F401

    src = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + "/src"
    sys.path.insert(0, src)
    sys.pycache_prefix = tempfile.gettempdir() + f"/no-pycache-{os.getpid()}"
    try:
        import skfolio
        import skfolio.datasets
        import skfolio.distribution
        import skfolio.metrics
        import skfolio.model_selection
        import skfolio.optimization
        import skfolio.pre_selection
        import skfolio.preprocessing
        import skfolio.prior
        import skfolio.uncertainty_set  # noqa: F401
    finally:
        sys.pycache_prefix = None
    assert os.path.realpath(skfolio.__file__).startswith(src), skfolio.__file__


class Violation(Exception):
    """The property is broken: key identifies the kind, message the details."""

    def __init__(self, key, message):
        super().__init__(f"{key}: {message}")
        self.key, self.message = key, message


class CaseTimeout(BaseException):
    """The code under test does not come back; not an Exception, so that no handler hides it."""


class Ctx:
    """Counters measured while exploring."""

    def __init__(self):
        self.states = set()
        self.outcomes = {}
        self.transitions = 0
        self.traces = 0
        self.samples = []

    def state(self, *key):
        """Record a canonical state; True when it had not been seen by this worker."""
        h = int.from_bytes(
            hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big"
        )
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        """n operations of the real code, each compared with the reference."""
        self.transitions += n

    def trace(self, n=1):
        """n complete traces executed on the real code and compared to their end."""
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def fail(self, key, message=""):
        raise Violation(key, str(message)[:2000])

    def expect(self, ok, key, message=""):
        if not ok:
            self.fail(key, message() if callable(message) else message)


@contextlib.contextmanager
def quiet():
    import numpy as np

    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


def _alarm(signum, frame):
    raise CaseTimeout()


def decide(module, case, ctx):
    """Run one case. Returns None or a dict describing the violation."""
    import numpy as np

    np.random.seed(12345)
    limit = getattr(module, "CASE_CPU_S", CASE_CPU_S)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_WALL_S, 5)
    signal.setitimer(signal.ITIMER_PROF, limit, 5)
    try:
        with quiet():
            module.run_case(case, ctx)
    except Violation as e:
        return dict(key=e.key, message=e.message, case=case)
    except CaseTimeout:
        return dict(key="timeout", message="the case does not come back", case=case)
    except MemoryError:
        return dict(key="memory", message=f"the case needs more than {WORKER_BYTES} bytes", case=case)
    except KeyboardInterrupt:
        raise
    except Exception as e:
        return dict(
            key=f"exception-{type(e).__name__}",
            message="".join(traceback.format_exception(e))[-1800:],
            case=case,
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    return None


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_DATA, (WORKER_BYTES, WORKER_BYTES))


_MODULE = None
_STOP = None


def _work(chunk):
    ctx = Ctx()
    found = []
    t0 = time.time()
    dearest = 0.0
    for case in chunk:
        if _STOP.value >= MAX_VIOLATIONS:
            break
        t1 = time.process_time()
        v = decide(_MODULE, case, ctx)
        dearest = max(dearest, time.process_time() - t1)
        if v is not None:
            found.append(v)
            if not is_known(_MODULE.PROPERTY, v["key"]):
                with _STOP.get_lock():  # a case that does not come back ends the run
                    _STOP.value += MAX_VIOLATIONS if v["key"] in ("timeout", "memory") else 1
    return (
        ctx.states,
        ctx.transitions,
        ctx.traces,
        ctx.outcomes,
        ctx.samples[:2],
        found,
        len(chunk),
        time.time() - t0,
        dearest,
    )


def known_findings(prop):
    """{key: text} of `known: property=<id> key=<key> <what>` lines."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"known: property={prop} key="):
                key, _, what = line.split("key=", 1)[1].partition(" ")
                out[key] = what
    return out


def is_known(prop, key):
    return key in known_findings(prop)


def chunks(cases, n_workers, size=None):
    if size is None:
        size = max(1, min(200, len(cases) // (n_workers * 16) or 1))
    return [cases[i : i + size] for i in range(0, len(cases), size)]


def run(prop, tier, seed):
    global _MODULE, _STOP
    t0 = time.time()
    load_skfolio()
    module = importlib.import_module(f"mc.checks.{prop.lower()}")
    assert module.PROPERTY == prop
    _MODULE = module
    cases = list(module.cases(tier))
    n_cases = len(cases)
    distinct_cases = len({json.dumps(c, sort_keys=True) for c in cases})
    assert n_cases == distinct_cases, "the enumeration repeats cases"
    if cases:  # the seed only rotates the order of exploration
        k = (seed * 7919) % n_cases
        cases = cases[k:] + cases[:k]
        # deal the cases so that chunks hold a mix of cheap and dear ones
        m = max(1, n_cases // 24)
        cases = [c for r in range(m) for c in cases[r::m]]
    n_workers = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 1)
    if getattr(module, "SERIAL", False):
        n_workers = 1
    ctx_mp = mp.get_context("fork")
    _STOP = ctx_mp.Value("i", 0)
    work = chunks(cases, n_workers, getattr(module, "CHUNK", None))
    states, transitions, traces, outcomes, samples, found, done = (
        set(), 0, 0, {}, [], [], 0,
    )  # fmt: skip
    busy = dearest = 0.0
    with ctx_mp.Pool(n_workers, _limit_memory) as pool:
        for s, tr, nt, oc, sm, fo, n, dt, dc in pool.imap_unordered(_work, work):
            states |= s
            transitions += tr
            traces += nt
            for k_, v_ in oc.items():
                outcomes[k_] = outcomes.get(k_, 0) + v_
            if len(samples) < 4:
                samples += sm
            found += fo
            done += n
            busy += dt
            dearest = max(dearest, dc)
    known = known_findings(prop)
    seen_known = {}
    violations = []
    for v in found:
        if v["key"] in known:
            seen_known[v["key"]] = v
        else:
            violations.append(v)
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")
    reports = []
    for v in sorted(violations, key=lambda v: len(json.dumps(v["case"])))[:5]:
        path = write_replay(prop, v)
        reports.append(dict(key=v["key"], message=v["message"][:600], replay=str(path)))
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {v['key']}: {v['message'][-500:]}")
    exhaustive = not violations and done == n_cases
    if not violations:
        assert states and transitions and traces, "vacuous run"
    if not samples:
        samples = [json.loads(json.dumps(c)) for c in cases[:2]]
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=getattr(module, "LEVEL", "model_checking"),
        coverage=dict(
            states=len(states),
            transitions=transitions,
            traces_validated_against_impl=traces,
            cases=done,
            outcomes=dict(sorted(outcomes.items())[:60]),
            samples=samples[:4],
            exhaustive=exhaustive,
            bounds=module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
            trace_validation=getattr(
                module,
                "VALIDATION",
                "every trace is executed on skfolio imported from /repo/src; each "
                "transition's observables are compared with the reference model",
            ),
        ),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        violations=reports,
        wall_s=round(time.time() - t0, 3),
    )
    if evidence["level"] in ("fault_enumeration", "exploration"):
        evidence["coverage"].update(
            evaluations=done,
            distinct_nontrivial=len(states),
            rule=module.RULE,
        )
    (EVIDENCE / f"{prop}.json").write_text(json.dumps(evidence, indent=1, default=str))
    print(
        f"{prop} {tier}: {n_cases} cases, {len(states)} states, {transitions} transitions,"
        f" {traces} traces, {len(violations)} violations, {time.time() - t0:.1f} s wall,"
        f" {busy:.0f} s busy, {dearest:.1f} s dearest case"
    )
    if os.environ.get("VERIF_OUTCOMES"):
        for k_, v_ in sorted(outcomes.items()):
            print("   ", k_, v_)
    return 1 if violations else 0


def write_replay(prop, v):
    d = EVIDENCE / "replay"
    d.mkdir(parents=True, exist_ok=True)
    body = json.dumps(dict(property=prop, **v), indent=1, default=str)
    name = f"{prop}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json"
    (d / name).write_text(body)
    return d / name
