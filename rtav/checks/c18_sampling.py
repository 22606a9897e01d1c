"""C18: sample testing reports safety truthfully, records what happened and samples what was requested.

Filters, dynamics, controllers, initial states and faults are scripted through the documented extension points; all numbers are
multiples of 1/16 so that the episode can be replayed exactly. Files are only written to a scratch directory.
"""
import contextlib
import csv
import functools
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from rtav import gen, zoo as Z
from rtav.core import check, subtest

G = st.integers(-32, 32).map(lambda k: k / 16)
DT = st.sampled_from([1.0, 0.5, 0.25])
SAFE = [0.0, 0.0]


@functools.lru_cache(maxsize=None)
def scripted():
    """one scripted filter (memory: it brakes after `patience` calls) and the sample testing classes around it"""
    from collections import OrderedDict

    from run_time_assurance import constraint as M
    from run_time_assurance.rta.base import ConstraintBasedRTA
    from run_time_assurance.utils import SolverError
    from run_time_assurance.utils.sample_testing import DataTrackingSampleTestingModule, SafetyAssuranceSampleTestingModule

    class Split(M.ConstraintModule):
        """phi: x <= L; enforced: x + k v <= L"""

        def __init__(self):
            super().__init__(params={"L": 2.0, "k": 0.5}, bias=-0.0625)

        def _compute(self, state, params):
            return params["L"] - state[0] - params["k"] * state[1]

        def _phi(self, state, params):
            return params["L"] - state[0]

    class Filter(ConstraintBasedRTA):
        calls = 0
        script: dict = {}
        log: list = []

        def _setup_constraints(self):
            return OrderedDict([("split", Split()), ("low", M.ConstraintMinStateLimit(limit_val=-2.0, state_index=0)), ("speed", M.ConstraintMagnitudeStateLimit(limit_val=3.0, state_index=1))])

        def reset(self):
            super().reset()
            self.calls = 0

        def compute_filtered_control(self, input_state, step_size, control_desired):
            i = self.calls
            self.calls += 1
            self.log.append(i)
            fail = self.script.get("fail")
            if fail is not None and i == fail[0]:
                if fail[1] == "solver":
                    raise SolverError()
                raise ValueError("scripted failure")
            s = self.script
            self.intervening = i % s["period"] == s["period"] - 1
            if self.intervening:
                return np.array([s["brake"]])
            return np.array(control_desired) * s["gain"]

        def _pred_state(self, state, step_size, control):
            raise NotImplementedError

        def _filter_control(self, state, step_size, control):
            raise NotImplementedError

    class Mixin:
        script: dict = {}

        def setup(self, script):
            self.script, self.drawn, self.status = script, 0, []

        def _get_initial_state(self):
            s = self.script["init"]
            i = self.drawn
            self.drawn += 1
            return np.array(s[i] if i < len(s) else (self.script["tail"] if "tail" in self.script else SAFE))

        def _pred_state(self, state, step_size, control):
            return np.array([state[0] + step_size * state[1], state[1] + step_size * float(control[0])])

        def _desired_control(self, state):
            return np.array([self.script["fb"][0] * state[0] + self.script["fb"][1]])

    class Safety(Mixin, SafetyAssuranceSampleTestingModule):
        pass

    class SafetyDone(Safety):
        def _check_done_conditions(self, state, time):
            return bool(state[0] >= self.script["done"]) or super()._check_done_conditions(state, time)

    class SafetyMirror(Safety):
        def _transform_state(self, state):
            return -state

    class Tracking(Mixin, DataTrackingSampleTestingModule):
        def _update_status(self, state, time):
            self.status.append((tuple(float(v) for v in state), float(time)))

    class TrackingDone(Tracking):
        def _check_done_conditions(self, state, time):
            return bool(state[0] >= self.script["done"]) or super()._check_done_conditions(state, time)

    return Filter(), {"plain": Safety, "done": SafetyDone, "mirror": SafetyMirror}, {"plain": Tracking, "done": TrackingDone}


def script_strategy(faults=True):
    fail = st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 8), st.sampled_from(["solver", "solver", "other"]))) if faults else st.none()
    return st.fixed_dictionaries(
        {
            "L": st.sampled_from([2.0, 1.0, 1.5]),
            "k": st.sampled_from([0.0, 0.5, 1.0]),
            "period": st.integers(2, 5),
            "brake": st.sampled_from([-1.0, -0.5, 0.0, 1.0]),
            "gain": st.sampled_from([1.0, 0.5, 0.0]),
            "fb": st.tuples(st.sampled_from([0.0, -0.5, -0.25, 0.25]), st.sampled_from([0.0, 0.25, -0.25, 0.0625])),
            "done": st.sampled_from([0.5, 1.0, 1.75]),
            "init": st.lists(st.tuples(G, st.integers(-24, 24).map(lambda k: k / 16)), min_size=1, max_size=5),
            "fail": fail,
        }
    )


class Replay:
    """independent model of the scripted system (exact arithmetic in float64)"""

    def __init__(self, s, dt, T, variant):
        self.s, self.dt, self.T, self.variant = s, dt, T, variant

    def phi(self, x):
        return [self.s["L"] - x[0], x[0] + 2.0, 9.0 - x[1] ** 2]

    def enforced(self, x):
        return [self.s["L"] - x[0] - self.s["k"] * x[1] - 0.0625, x[0] + 2.0, 9.0 - x[1] ** 2]

    def safe_start(self, x):
        return min(self.phi(x)) >= 0 and min(self.enforced(x)) >= 0

    def done(self, x, t):
        return t >= self.T or (self.variant == "done" and x[0] >= self.s["done"])

    def episode(self, x):
        """(verdict, states, controls, flags) of an episode from x with a fresh filter; verdict may be an exception marker"""
        s = self.s
        states, controls, flags, times = [tuple(x)], [0.0], [False], []
        i, t = 0, 0.0
        verdict = True
        while True:
            if not self.off and s["fail"] is not None and i == s["fail"][0]:
                return ("raise" if s["fail"][1] == "other" else False), states, controls, flags, times
            inter = i % s["period"] == s["period"] - 1
            if self.off:  # a disabled filter passes the desired control on
                inter, u = False, s["fb"][0] * x[0] + s["fb"][1]
            else:
                u = s["brake"] if inter else (s["fb"][0] * x[0] + s["fb"][1]) * s["gain"]
            i += 1
            x = (x[0] + self.dt * x[1], x[1] + self.dt * u)
            t += self.dt
            states.append(x)
            controls.append(u)
            flags.append(inter)
            times.append(t)
            if min(self.phi(x)) < 0:
                verdict = False
                if self.stop_at_violation:
                    return verdict, states, controls, flags, times
            if self.done(x, t):
                return verdict, states, controls, flags, times

    stop_at_violation = True
    off = False


@subtest(
    "C18",
    "verdicts",
    lambda: st.fixed_dictionaries({"s": script_strategy(), "dt": DT, "steps": st.integers(1, 8), "short": st.sampled_from([0.0, 0.0, 0.25, 0.5]), "points": st.integers(1, 5), "variant": st.sampled_from(["plain", "done", "mirror"]), "off": st.integers(0, 5)}),
    1200,
    rule="an initial state is redrawn, an episode is unsafe or a solver failure occurs",
)
def verdicts(case, ctx):
    rta, safety, _ = scripted()
    s, dt, T = case["s"], case["dt"], case["dt"] * (case["steps"] - case["short"])
    model = Replay(s, dt, T, case["variant"])
    mod = safety[case["variant"]](simulation_time=T, step_size=dt, control_dim=1, state_dim=2, rta=rta, n_points=case["points"])
    rta.reset()
    rta.enable = case["off"] != 0
    model.off = case["off"] == 0
    rta.script = s
    rta.constraints["split"].params.update(L=s["L"], k=s["k"])
    mod.setup(s)
    # expectation
    rows, raises, i = [], False, 0
    redrawn = 0
    while len(rows) < case["points"] and not raises:
        x = tuple(s["init"][i]) if i < len(s["init"]) else tuple(SAFE)
        i += 1
        if case["variant"] == "mirror":
            x = (-x[0], -x[1])
        if not model.safe_start(x):
            redrawn += 1
            continue
        verdict, states, *_ = model.episode(x)
        if not np.all(np.array(states, np.float32).astype(float) == np.array(states)) or not np.all(np.float32(np.array(states)[:, 1] ** 2) == np.array(states)[:, 1] ** 2):
            ctx.label("inexact")
            return
        if verdict == "raise":
            raises = True
        else:
            rows.append((verdict, x))
    d = tempfile.mkdtemp(prefix="rtav-c18-")
    try:
        out = os.path.join(d, "new", "dir")
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                mod.run_sample_test(out)
                got_raise = False
            except ValueError as e:
                if "scripted failure" not in str(e):
                    raise
                got_raise = True
        check(got_raise == raises, f"an unexpected error of the filter was {'' if got_raise else 'not '}propagated")
        if raises:
            ctx.label("error propagated")
            return
        files = os.listdir(out)
        check(len(files) == 1 and files[0].endswith(".csv"), f"result files {files}")
        with open(os.path.join(out, files[0]), encoding="utf-8") as f:
            got = [(r[0], tuple(float(v) for v in r[1].strip("[]").split(","))) for r in csv.reader(f)]
    finally:
        shutil.rmtree(d)
    check(len(got) == case["points"], f"{len(got)} results for {case['points']} points")
    for k, ((v, x), (ev, ex)) in enumerate(zip(got, rows)):
        check(tuple(x) == tuple(ex), f"result {k}: initial state {x}, expected {ex}")
        check(v in ("True", "False") and (v == "True") == ev, f"result {k} (initial state {x}): reported {v}, but the episode {'stays safe' if ev else 'is unsafe'}")
    check(mod.drawn == i, f"{mod.drawn} initial states drawn, expected {i}")
    kinds = {v for v, _ in rows}
    ctx.label(*("safe" if v else "unsafe" for v in kinds))
    if redrawn:
        ctx.label("redrawn")
    if redrawn or False in kinds:
        ctx.nontriv()


@subtest(
    "C18",
    "recording",
    lambda: st.fixed_dictionaries({"s": script_strategy(faults=False), "dt": DT, "steps": st.integers(1, 9), "short": st.sampled_from([0.0, 0.0, 0.25, 0.5]), "variant": st.sampled_from(["plain", "done"]), "check": st.booleans(), "hopeless": st.integers(0, 9), "enable": st.integers(0, 4)}),
    1000,
    rule="the filter intervenes during the episode or an initial state is redrawn",
)
def recording(case, ctx):
    rta, _, tracking = scripted()
    s, dt, T = case["s"], case["dt"], case["dt"] * (case["steps"] - case["short"])
    model = Replay(s, dt, T, case["variant"])
    model.stop_at_violation = False
    mod = tracking[case["variant"]](simulation_time=T, step_size=dt, control_dim=1, state_dim=2, rta=rta, check_init_state=case["check"])
    rta.reset()
    rta.script = s
    rta.enable = case["enable"] != 4
    rta.constraints["split"].params.update(L=s["L"], k=s["k"])
    mod.setup(s)
    i = 0
    if case["hopeless"] == 9:
        s["tail"] = [5.0, 0.0]  # every later draw is unsafe
    if case["check"]:
        while i < len(s["init"]) and not model.safe_start(s["init"][i]):
            i += 1
    x = tuple(s["init"][i]) if i < len(s["init"]) else tuple(s.get("tail", SAFE))
    if case["check"] and not model.safe_start(x):
        try:
            mod.simulate_episode()
        except ValueError:
            ctx.label("no safe initial state")
            return
        check(False, "an episode was started from an unsafe initial state")
    if not rta.enable:
        model.s = dict(s, period=10**6, gain=1.0)
    _, states, controls, flags, times = model.episode(x)
    if not np.all(np.array(states, np.float32).astype(float) == np.array(states)):
        ctx.label("inexact")
        return
    S, U, F = mod.simulate_episode()
    check(S.shape == (len(states), 2) and U.shape == (len(controls), 1) and F.shape == (len(flags),), f"array shapes {S.shape}, {U.shape}, {F.shape}; expected {len(states)} rows")
    check(np.array_equal(S, np.array(states)), lambda: f"recorded states {S.tolist()}, expected {states}")
    check(np.allclose(U[:, 0], controls, atol=1e-7), lambda: f"recorded controls {U[:, 0].tolist()}, expected {controls}")
    check([bool(v) for v in F] == flags, lambda: f"recorded interventions {F.tolist()}, expected {flags}")
    check(mod.status == [(tuple(a), t) for a, t in zip(states[1:], times)], lambda: f"status updates {mod.status}, expected {list(zip(states[1:], times))}")
    check(mod.drawn == i + 1, f"{mod.drawn} initial states drawn, expected {i + 1}")
    # the single step filters the desired control of the next initial state once
    x1 = s["init"][i + 1] if i + 1 < len(s["init"]) else s.get("tail", SAFE)
    calls = rta.calls
    mod.run_one_step()
    want = s["fb"][0] * x1[0] + s["fb"][1]
    check(rta.calls == calls + (1 if rta.enable else 0) and abs(float(rta.control_desired[0]) - want) <= 1e-6, lambda: f"single step: {rta.calls - calls} filter calls, desired control {rta.control_desired}, expected {want}")
    ctx.label("enabled" if rta.enable else "disabled")
    if any(flags) or i:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- real filters with memory
@functools.lru_cache(maxsize=None)
def latched():
    """a docking filter with a latch inside a sample test: episodes must not influence each other"""
    from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule

    class Test(SafetyAssuranceSampleTestingModule):
        inits: list = []

        def _get_initial_state(self):
            self.k = getattr(self, "k", -1) + 1
            return np.array(self.inits[self.k], float)

        def _pred_state(self, state, step_size, control):
            self.controls.append(float(control[0]))
            return np.array([state[0] + step_size * state[1], state[1] + step_size * float(control[0])])

        def _desired_control(self, state):
            return np.array([self.push])

    return Z.make("iis", latch_time=6.0), Test


@subtest(
    "C18",
    "independent",
    lambda: st.fixed_dictionaries({"inits": st.lists(st.tuples(st.sampled_from([-1.0, -3.0, -6.0, -20.0]), st.sampled_from([0.0, 0.5, 1.0])), min_size=2, max_size=4), "push": st.sampled_from([1.0, 0.5])}),
    60,
    rule="the filter intervenes in an episode which is not the last one",
)
def independent(case, ctx):
    rta, Test = latched()

    def run(inits):
        mod = Test(simulation_time=3.0, step_size=1.0, control_dim=1, state_dim=2, rta=rta, n_points=len(inits))
        mod.inits, mod.controls, mod.push = inits, [], case["push"]
        d = tempfile.mkdtemp(prefix="rtav-c18-")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mod.run_sample_test(d)
            with open(os.path.join(d, os.listdir(d)[0]), encoding="utf-8") as f:
                return [r[0] for r in csv.reader(f)], mod.controls
        finally:
            shutil.rmtree(d)

    def stays(x):
        return -x[0] >= 0

    inits = [i for i in case["inits"] if stays(i)]
    rta.reset()
    v, c = run(inits)
    vs, cs = [], []
    for i in inits:
        rta.reset()
        a, b = run([i])
        vs += a
        cs += b
    check(v == vs and c == cs, f"episodes from {inits}: verdicts {v}, controls {c}; run one at a time: {vs}, {cs}")
    if any(u != case["push"] for u in cs):
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- samplers
@subtest(
    "C18",
    "latin",
    lambda: st.fixed_dictionaries({"dim": st.integers(1, 5), "n": st.integers(1, 12), "mult": st.integers(1, 4), "lo": gen.vec(5, -100.0, 100.0), "w": st.lists(gen.logmag(0.01, 500.0), min_size=5, max_size=5)}),
    200,
    rule="at least two dimensions and five samples",
)
def latin(case, ctx):
    from run_time_assurance.utils.sample_testing import LatinHypercubeRandomSampleTestingModule

    class Test(LatinHypercubeRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state

    dim, n = case["dim"], case["n"] * case["mult"]
    lo = np.array(case["lo"][:dim])
    hi = lo + np.array(case["w"][:dim])
    t = Test(simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=dim, rta=None, n_points=case["n"], bounds=np.array([lo, hi]), multiplier=case["mult"])
    s = np.array([t._get_initial_state() for _ in range(n)])
    check(s.shape == (n, dim), f"samples have shape {s.shape}")
    check(np.all(s >= lo - 1e-9) and np.all(s <= hi + 1e-9), f"a sample lies outside the bounds {lo} {hi}: {s}")
    for j in range(dim):
        c = np.sort((s[:, j] - lo[j]) / (hi[j] - lo[j]) * n)
        k = np.arange(n)
        check(np.all(c >= k - 1e-6) and np.all(c <= k + 1 + 1e-6), f"component {j} is not stratified: {c}")
    if dim >= 2 and n >= 5:
        ctx.nontriv()


@subtest(
    "C18",
    "parametric",
    lambda: st.fixed_dictionaries({"pdfs": st.lists(st.sampled_from(["gaussian", "constant", "uniform"]), min_size=1, max_size=5), "a": gen.vec(5, -50.0, 50.0, special=(0.0,)), "b": st.lists(gen.logmag(0.01, 50.0), min_size=5, max_size=5), "seed": st.integers(0, 2**20)}),
    120,
    rule="at least two different distributions",
)
def parametric(case, ctx):
    from run_time_assurance.utils.sample_testing import ParametricRandomSampleTestingModule

    class Test(ParametricRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state

    pdfs = case["pdfs"]
    dim = len(pdfs)
    a, b = np.array(case["a"][:dim]), np.array(case["b"][:dim])
    p2 = np.array([a[i] + b[i] if pdfs[i] == "uniform" else b[i] for i in range(dim)])
    params = np.array([a, p2]) if case["seed"] % 2 else [a.tolist(), [None if p == "constant" else float(v) for p, v in zip(pdfs, p2)]]
    t = Test(simulation_time=1.0, step_size=1.0, control_dim=1, state_dim=dim, rta=None, n_points=3, state_pdfs=list(pdfs), distribution_params=params)
    state = np.random.get_state()
    try:
        np.random.seed(case["seed"])
        N = 400
        s = np.array([t._get_initial_state() for _ in range(N)])
    finally:
        np.random.set_state(state)
    check(s.shape == (N, dim), f"samples have shape {s.shape}")
    for i, p in enumerate(pdfs):
        c = s[:, i]
        if p == "constant":
            check(np.all(c == a[i]), f"component {i} is not constant {a[i]}: {c[:5]}")
            continue
        if p == "uniform":
            check(np.all(c >= a[i]) and np.all(c <= p2[i]), f"component {i} outside [{a[i]}, {p2[i]}]")
            mean, sd, kurt = a[i] + b[i] / 2, b[i] / np.sqrt(12), 1.8
        else:
            mean, sd, kurt = a[i], b[i], 3.0
        check(abs(np.mean(c) - mean) <= 7 * sd / np.sqrt(N), f"component {i} ({p}): mean {np.mean(c)}, expected {mean}")
        check(0.7 <= np.std(c) / sd <= 1.3, f"component {i} ({p}): standard deviation {np.std(c)}, expected {sd}")
        k = np.mean((c - mean) ** 4) / sd**4
        check(abs(k - kurt) < (1.0 if p == "uniform" else 3.5), f"component {i} ({p}): normalised fourth moment {k}, expected about {kurt}")
    for i in range(dim):
        for j in range(i):
            if pdfs[i] != "constant" and pdfs[j] != "constant":
                r = np.corrcoef(s[:, i], s[:, j])[0, 1]
                check(abs(r) < 0.35, f"components {j} and {i} are correlated ({r})")
    if len(set(pdfs)) >= 2:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- the docking examples
@subtest(
    "C18",
    "docking",
    lambda: st.fixed_dictionaries({"kind": st.sampled_from(["latin", "parametric"]), "seed": st.integers(0, 2**20), "v": st.sampled_from([0.2, 1.0, 2.0]), "r": st.sampled_from([200.0, 2000.0])}),
    30,
    rule="every case",
)
def docking(case, ctx):
    from run_time_assurance.zoo.cwh import random_sample_testing as R

    rta = Z.module("d2eo")
    A, B = Z.cwh(Z.M0, Z.N0, 2)
    Ad, Bd = Z.zoh(A, B, 1.0)
    r, v = case["r"], case["v"]
    steps = []

    def instrument(cls):
        class T(cls):
            def _pred_state(self, state, step_size, control):
                out = super()._pred_state(state, step_size, control)
                steps.append((np.array(state, float), np.array(control, float), np.array(out, float)))
                return out

        return T

    kw = dict(rta=rta, n_points=2, simulation_time=4.0)
    state = np.random.get_state()
    d = tempfile.mkdtemp(prefix="rtav-c18-")
    try:
        np.random.seed(case["seed"])
        if case["kind"] == "latin":
            t = instrument(R.Docking2DLatinHypercubeRandomSampleTest)(bounds=np.array([[-r, -r, -v, -v], [r, r, v, v]]), multiplier=60, **kw)
        else:
            t = instrument(R.Docking2DParametricRandomSampleTest)(distribution_params=np.array([[0, 0, 0, 0], [r, r, v / 2, v / 2]]), **kw)
        with contextlib.redirect_stdout(io.StringIO()):
            t.run_sample_test(d)
        with open(os.path.join(d, os.listdir(d)[0]), encoding="utf-8") as f:
            got = [(x[0] == "True", np.array([float(c) for c in x[1].strip("[]").split(",")])) for x in csv.reader(f)]
    finally:
        np.random.set_state(state)
        shutil.rmtree(d)
    check(len(got) == 2, f"{len(got)} results for two points")
    i = 0
    for ok, x0 in got:
        h = lambda x: Z.h_rel_vel(x[:2], x[2:], 0.2, 2 * Z.N0)  # noqa: E731
        check(h(x0) >= 1e-4 - 1e-5, f"episode from the unsafe initial state {x0}")
        if case["kind"] == "latin":
            check(np.all(np.abs(x0) <= np.array([r, r, v, v])), f"initial state {x0} outside the bounds")
        check(np.array_equal(steps[i][0], x0), f"the episode of {x0} started at {steps[i][0]}")
        n, low = 0, np.inf
        while n < 4 and i < len(steps) and (n == 0 or np.allclose(steps[i][0], steps[i - 1][2], rtol=1e-6, atol=1e-6)):
            x, u, y = steps[i]
            e = Ad @ x + Bd @ u
            check(np.allclose(y, e, rtol=2e-4, atol=2e-3), f"simulated step from {x} with {u} gives {y}, expected {e}")
            low = min(low, h(y))
            i += 1
            n += 1
        check(n == 4 or low < 1e-4, f"the episode of {x0} ended after {n} of 4 steps without a violation")
        if abs(low) > 1e-4:
            check(ok == (low >= 0), f"episode of {x0} reported {ok}, least constraint value {low}")
    check(i == len(steps), "more steps were simulated than reported")
    ctx.nontriv()
