"""Property-based testing framework for run-time-assurance.

A *property* (C01..) is decided by a set of *subtests*.  Each subtest couples

  * a Hypothesis strategy producing a JSON-able ``case`` (every random choice is made there),
  * a function ``fn(case, ctx)`` which drives the real code from /repo and raises ``Violation`` when
    the explicit oracle disagrees.

Exit codes of a check: 0 held, 1 violation (with a VIOLATION line), 2 error of the harness.
"""
from __future__ import annotations

import collections
import dataclasses
import faulthandler
import hashlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib
from typing import Any, Callable, Dict, List, Optional

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class CodeCrash(Violation):
    """The code under test raised on an input in its domain."""


def check(cond: Any, msg: Any = "") -> None:
    """assert that cannot be optimised away; msg may be callable"""
    if not bool(cond):
        raise Violation(msg() if callable(msg) else str(msg))


@dataclasses.dataclass
class Subtest:
    prop: str
    name: str
    strategy: Callable[[], Any]
    fn: Callable[[dict, "Ctx"], None]
    quick: int
    thorough: int
    rule: str
    seconds_quick: float = 150.0
    seconds_thorough: float = 1500.0
    hang_seconds: float = 300.0


REGISTRY: Dict[str, List[Subtest]] = collections.OrderedDict()
PROBES: Dict[str, List[Callable]] = {}
RULES: Dict[str, str] = {}
ASSUMPTIONS: Dict[str, List[str]] = {}
# factor on the quick case counts of a property: where cases are cheap next to the compilation they share
QUICK_X = {"C01": 3, "C02": 3, "C03": 2.5, "C04": 3, "C05": 3, "C06": 2.5, "C07": 1.5, "C08": 1.5, "C09": 2, "C11": 2, "C12": 2, "C13": 1.2, "C14": 1.5, "C17": 3, "C18": 2, "C19": 3, "C20": 4}


def subtest(prop: str, name: str, strategy: Callable[[], Any], quick: int, thorough: int = 0, rule: str = "", **kw):
    """register fn(case, ctx) as subtest of a property. strategy is a thunk (built lazily)"""

    def deco(fn):
        t = Subtest(prop, name, strategy, fn, quick, thorough or quick * 20, rule, **kw)
        lst = REGISTRY.setdefault(prop, [])
        if any(s.name == name for s in lst):
            raise HarnessError(f"duplicate subtest {prop} {name}")
        lst.append(t)
        return fn

    return deco


def also(prop: str, other: str, name: str, quick: Optional[int] = None):
    """let property ``prop`` also run the subtest ``name`` of property ``other``"""
    src = [s for s in REGISTRY[other] if s.name == name]
    if not src:
        raise HarnessError(f"no subtest {other}.{name}")
    s = src[0]
    t = dataclasses.replace(s, prop=prop, quick=quick or s.quick)
    REGISTRY.setdefault(prop, []).append(t)


def probe(prop: str, fid: str):
    """register a known-finding probe: fn() returns True when the finding still reproduces"""

    def deco(fn):
        PROBES.setdefault(prop, []).append((fid, fn))
        return fn

    return deco


class Ctx:
    """per-subtest measurement"""

    def __init__(self, name: str):
        self.name = name
        self.evaluations = 0
        self.nontrivial: set = set()
        self.samples: list = []
        self.labels: collections.Counter = collections.Counter()
        self.skipped_budget = 0
        self.slowest = 0.0
        self._case = None

    def label(self, *names: str):
        for n in names:
            self.labels[n] += 1

    def nontriv(self, extra: Any = None):
        """mark the current case (or a part of it) as non-trivial by the rule of the subtest"""
        key = hashlib.blake2b(json.dumps([self._case, extra], sort_keys=True, default=str).encode(), digest_size=10).digest()
        if key not in self.nontrivial:
            self.nontrivial.add(key)
            if len(self.samples) < 2:
                self.samples.append(_trim(self._case))


def _trim(case):
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) < 1500 else s[:1500] + "..."


def in_repo(tb) -> bool:
    """does the traceback pass through the code under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def crash_text(e: BaseException) -> str:
    frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + "/")]
    where = f"{frames[-1].filename}:{frames[-1].lineno}" if frames else "?"
    return f"{type(e).__name__} at {where}: {str(e)[:300]}"


WATCH: Optional[str] = None  # where a worker leaves the current case and the stack of a case that does not come back
_watch_file = None


def watch(path: Optional[str]) -> None:
    global WATCH, _watch_file  # pylint: disable=global-statement
    WATCH = path
    _watch_file = open(path, "w", encoding="utf-8") if path else None  # pylint: disable=consider-using-with


def call_subtest(t: Subtest, case: dict, ctx: Ctx) -> None:
    """run one case; exceptions raised by the code under test become violations, and so do calls that do not return"""
    if WATCH is None:
        return _call_subtest(t, case, ctx)
    with open(WATCH + ".case", "w", encoding="utf-8") as f:
        json.dump(case, f)
    t0 = time.time()
    faulthandler.dump_traceback_later(t.hang_seconds, exit=True, file=_watch_file)
    try:
        return _call_subtest(t, case, ctx)
    finally:
        faulthandler.cancel_dump_traceback_later()
        ctx.slowest = max(ctx.slowest, time.time() - t0)


def hung(path: str) -> Optional[dict]:
    """the case during which the worker gave up, if it was stuck in the code under test"""
    try:
        stack = open(path, encoding="utf-8").read()
        case = json.load(open(path + ".case", encoding="utf-8"))
    except (OSError, ValueError):
        return None
    for thread in stack.split("\n\n"):
        lines = [ln.strip() for ln in thread.splitlines()]
        own = [i for i, ln in enumerate(lines) if "_call_subtest" in ln]
        if own:
            at = [ln for ln in lines[: own[0]] if f'"{REPO}/' in ln]
            if at:
                return {"case": case, "at": at[0]}
    return None


def _call_subtest(t: Subtest, case: dict, ctx: Ctx) -> None:
    ctx._case = case
    ctx.evaluations += 1
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t.fn(case, ctx)
    except (Violation, HarnessError):
        raise
    except Exception as e:  # pylint: disable=broad-except
        if type(e).__module__.startswith("hypothesis"):
            raise
        if in_repo(e.__traceback__) or _chain_in_repo(e):
            raise CodeCrash("code under test raised on a valid input: " + crash_text(e)) from e
        if isinstance(e, (ValueError, TypeError, KeyError, IndexError, ArithmeticError, AttributeError)) and not _own_api(e):
            # the code under test handed out something of another form (None, wrong shape, missing entry) than it does on the tree
            # this harness was built for
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f"result of unexpected form: {type(e).__name__} at {last.filename}:{last.lineno}: {str(e)[:300]}") from e
        raise


def _own_api(e) -> bool:
    """an attribute of the library that is missing says something about its names, not about its behaviour"""
    return isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.split(".")[0] not in ("builtins", "numpy", "jaxlib", "jax")


def _chain_in_repo(e) -> bool:
    seen = 0
    while e is not None and seen < 5:
        if e.__traceback__ is not None and in_repo(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def run_subtest(t: Subtest, seed: int = SEED, tier: str = TIER) -> dict:
    """drive one subtest with Hypothesis; returns a result dict"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import errors as herr
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 25
    # mutation of earlier examples clusters the choice of configurations: every case is drawn independently instead
    engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
    ctx = Ctx(t.name)
    n = int(t.quick * QUICK_X.get(t.prop, 1)) if tier == "quick" else t.thorough
    budget = t.seconds_quick if tier == "quick" else t.seconds_thorough
    t0 = time.time()
    failures: list = []
    state = {"failed_at": None}

    sub_seed = zlib.crc32(f"{t.name}:{seed}".encode())

    @hypothesis.seed(sub_seed)
    @settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
    )
    @given(t.strategy())
    def prop(case):
        if state["failed_at"] is None and time.time() - t0 > budget:
            ctx.skipped_budget += 1
            return
        case = json.loads(json.dumps(case))  # exactly what a replay file would hold
        try:
            call_subtest(t, case, ctx)
        except Violation as e:
            if state["failed_at"] is None:
                state["failed_at"] = time.time()
            failures.append((case, str(e)))
            raise

    res = {"name": t.name, "status": "held", "error": None}
    try:
        prop()
    except Violation:
        res["status"] = "violation"
    except herr.HypothesisException as e:
        # Flaky etc.: an oracle disagreement was observed, but did not repeat on the shrunk input
        if failures:
            res["status"] = "violation"
            res["note"] = f"history dependent ({type(e).__name__})"
        else:
            res["status"] = "error"
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    except BaseException as e:  # pylint: disable=broad-except
        if failures and isinstance(e, BaseExceptionGroup):
            res["status"] = "violation"
        else:
            res["status"] = "error"
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if res["status"] == "violation":
        case, msg = failures[-1]
        res["case"], res["message"] = case, msg
        res["first_case"], res["first_message"] = failures[0]
        res["seed"] = seed
    res.update(
        evaluations=ctx.evaluations,
        nontrivial=len(ctx.nontrivial),
        labels=dict(ctx.labels),
        samples=ctx.samples,
        skipped_budget=ctx.skipped_budget,
        slowest_s=round(ctx.slowest, 2),
        wall_s=round(time.time() - t0, 2),
    )
    return res


def load_all():
    """import every check module (registers the subtests)"""
    import importlib
    import pkgutil

    import rtav.checks as pkg

    for m in sorted(pkgutil.iter_modules(pkg.__path__), key=lambda m: m.name):
        importlib.import_module("rtav.checks." + m.name)


def load_for(prop: str):
    """import the modules that define subtests of prop (all of them: they are cheap, modules are built lazily)"""
    load_all()
    if prop not in REGISTRY:
        raise HarnessError(f"unknown property {prop}")
