"""C20: the delta-v limiter against an explicit model (prediction, latch, integral action) and in closed loop."""
import functools

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import solve_continuous_are

from rtav import gen, zoo as Z
from rtav.core import HarnessError, check, subtest


@functools.lru_cache(maxsize=256)
def gains(m, n):
    """station keeping gains: LQR of the CWH equations with integrators on all states (Q=1e-5, R=1e5)

    The integrator of the velocity equals the position, so the limit of slightly leaking integrators is used."""
    A, B = Z.cwh(m, n, 3)
    K = None
    for eps in (1e-8, 1e-7):
        Ai = np.block([[A, np.zeros((6, 6))], [np.eye(6), -eps * np.eye(6)]])
        Bi = np.vstack((B, np.zeros((6, 3))))
        P = solve_continuous_are(Ai, Bi, 1e-5 * np.eye(12), 1e5 * np.eye(3))
        Kn = Bi.T @ P / 1e5
        if K is not None and np.max(np.abs(Kn - K)) > 1e-3:
            raise HarnessError("reference gains do not converge")
        K = Kn if K is None else K
    return K[:, :6], K[:, 6:]


class Model:
    def __init__(self, m, n, limit, steps, high=1.0):
        self.m, self.n, self.limit, self.steps, self.high = m, n, limit, steps, high
        self.A, self.B = Z.cwh(m, n, 3)
        self.K1, self.K2 = gains(m, n)
        self.reset()

    def reset(self):
        self.latched, self.e, self.intervening, self.enable = False, np.zeros(6), False, True

    def error(self, x):
        return np.array([0, 0, 0, x[3] - self.n / 2 * x[1], x[4] + 2 * self.n * x[0], 0])

    def backup(self, x, e, dt):
        err = self.error(x)
        u = np.clip(-self.K1 @ err - self.K2 @ e, -1, 1)
        return u, e + err * dt

    def step(self, x, dt, u):
        d = np.concatenate((self.A @ x[:6] + self.B @ u, [-self.n, np.sum(np.abs(u)) / self.m]))
        return x + dt * d

    def excess(self, x, dt, ud):
        """largest accumulated delta-v of the prediction minus the limit"""
        x = self.step(x, dt, ud)
        e = self.e
        for _ in range(self.steps):
            u, e = self.backup(x, e, dt)
            x = self.step(x, dt, u)
        return x[7] - self.limit  # delta-v never decreases

    def call(self, x, dt, ud):
        """expected (control, intervening), or None when the decision is too close"""
        if not self.enable:
            self.intervening = False
            return ud, False
        if not self.latched:
            over = [self.excess(x, dt, v) for v in (ud, np.clip(ud, -self.high, self.high))]
            self.over = over[0]
            tol = 1e-4 + 1e-5 * abs(self.limit) + 1e-4 * (over[0] + self.limit - x[7])
            if min(abs(o) for o in over) < tol or (over[0] > 0) != (over[1] > 0):
                return None
            if over[0] < 0:
                self.intervening = False
                return np.clip(ud, -self.high, self.high), False
            self.latched = True
        u, self.e = self.backup(x, self.e, dt)
        self.intervening = True
        return u, True


CONFIGS = st.one_of(
    st.just({}),
    st.fixed_dictionaries({"m": gen.logmag(2.0, 200.0), "n": gen.logmag(5e-4, 0.1), "n_steps": st.sampled_from([1, 3, 20, 60, 500]), "delta_v_limit": gen.num(0.5, 40.0), "high": st.sampled_from([1.0, 1.0, 2.0])}),
)


def config(kw):
    kw = dict(kw)
    high = kw.pop("high", 1.0)
    lib = dict(kw)
    if high != 1.0:
        lib.update(control_bounds_high=high, control_bounds_low=-high)
    model = Model(kw.get("m", Z.M0), kw.get("n", Z.N0), kw.get("delta_v_limit", 20.0), kw.get("n_steps", 500), high)
    return lib, model


VEC = st.tuples(gen.direction(3), gen.logmag(1.0, 800.0), gen.direction(3), gen.logmag(1e-3, 3.0))
CALL = st.fixed_dictionaries({"op": st.sampled_from(["call"] * 9 + ["reset", "toggle"]), "p": VEC, "gap": gen.logmag(1e-2, 6.0), "free": st.booleans(), "ud": gen.vec(3, -1.3, 1.3, special=(0.0, 1.0, -1.0)), "dt": st.sampled_from([1.0, 0.5, 5.0])})


@subtest(
    "C20",
    "model",
    lambda: st.fixed_dictionaries({"kw": CONFIGS, "calls": st.lists(CALL, min_size=1, max_size=7)}),
    320,
    rule="the limiter latches after a call it let pass, or applies its controller in a later call",
)
def model(case, ctx):
    lib, m = config(case["kw"])
    rta = Z.make("dv", **lib)
    x = None
    passed = held = 0
    for k, c in enumerate(case["calls"]):
        if c["op"] == "reset":
            rta.reset()
            m.reset()
            check(rta.intervening is False, "intervening after a reset")
            continue
        if c["op"] == "toggle":
            rta.enable = not rta.enable
            m.enable = not m.enable
            continue
        pd, r, vd, s = c["p"]
        if x is None or c["free"]:
            x = np.array([r * v for v in pd] + [s * v for v in vd] + [1.0, 0.0])
            x[7] = max(0.0, m.limit - c["gap"])
        ud, dt = np.array(c["ud"]), c["dt"]
        was = m.latched
        exp = m.call(x, dt, ud)
        xin, uin = x.copy(), ud.copy()
        u = rta.filter_control(x, dt, ud)
        check(np.array_equal(x, xin) and np.array_equal(ud, uin), "the caller's arrays were modified")
        if exp is None:
            ctx.label("ambiguous")
            return
        what = f"call {k}: state {x.tolist()}, desired {ud.tolist()}, step {dt}"
        check(bool(rta.intervening) == exp[1], f"{what}: intervening is {rta.intervening}, expected {exp[1]} (predicted excess {getattr(m, 'over', None)})")
        if hasattr(rta, "error_integral"):
            check(np.all(np.abs(rta.error_integral - m.e) <= 1e-9 * (1 + np.abs(m.e))), f"{what}: accumulated error {rta.error_integral}, expected {m.e}")
        tol = 2e-4 * (1 + np.linalg.norm(m.error(x)) + 1e-5 * np.linalg.norm(m.e))
        check(np.shape(u) == (3,) and np.all(np.abs(u - exp[0]) <= tol), f"{what}: control {u}, expected {exp[0]}")
        if m.enable:
            ctx.label("latched" if was else ("latches" if m.latched else "pass"))
            held += was
            passed += not m.latched
            if (m.latched and not was and passed) or held:
                ctx.nontriv()
        x = m.step(x, dt, np.clip(np.array(u, float), -2, 2))


@subtest(
    "C20",
    "closed_loop",
    lambda: st.fixed_dictionaries(
        {"kw": st.fixed_dictionaries({"m": gen.logmag(2.0, 200.0), "n": gen.logmag(5e-4, 0.1), "n_steps": st.sampled_from([10, 30, 100]), "delta_v_limit": gen.num(0.5, 40.0)}), "p": VEC, "gap": gen.logmag(0.05, 4.0), "mode": st.sampled_from(["full", "random", "bang", "coast then burn"]), "seed": st.integers(0, 2**20), "dt": st.sampled_from([1.0, 0.5, 5.0])}
    ),
    120,
    rule="the limiter passes at least one call and takes over later",
)
def closed_loop(case, ctx):
    """whatever is desired, the accumulated delta-v stays within the limit for the prediction horizon after the take-over"""
    lib, m = config(case["kw"])
    rta = Z.make("dv", **lib)
    rng = np.random.default_rng(case["seed"])
    pd, r, vd, s = case["p"]
    x = np.array([r * v for v in pd] + [s * v for v in vd] + [1.0, max(0.0, m.limit - case["gap"])])
    took, passed, dt = None, 0, case["dt"]
    for k in range(260):
        if case["mode"] == "full":
            ud = np.ones(3)
        elif case["mode"] == "random":
            ud = rng.uniform(-1, 1, 3)
        elif case["mode"] == "bang":
            ud = rng.choice([-1.0, 1.0], 3)
        else:
            ud = np.zeros(3) if k < 20 else -np.ones(3)
        u = np.array(rta.filter_control(x, dt, ud), float)
        if took is None and rta.intervening:
            if k == 0:
                ctx.label("unsafe from the start")
                return
            took = k
        if took is None:
            passed += 1
            check(np.array_equal(u, ud), f"call {k}: control {u} although not intervening, desired {ud}")
        else:
            check(bool(rta.intervening), f"call {k}: the limiter released the control without a reset")
            if k >= took + m.steps:
                break
        x = m.step(x, dt, u)
        if took is None or k < took + m.steps:
            check(x[7] <= m.limit + 1e-6 * (1 + m.limit), f"delta-v {x[7]} exceeds the limit {m.limit} after call {k} (take-over at call {took}, horizon {m.steps})")
    ctx.label("took over" if took else "never needed")
    if took:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- the cascade of the library
@functools.lru_cache(maxsize=None)
def cascade():
    from run_time_assurance.zoo.cwh.inspection_1v1 import InspectionCascadedRTA

    return InspectionCascadedRTA(), Z.make("i1"), Z.make("dv")


@subtest(
    "C20",
    "cascade",
    lambda: st.lists(st.fixed_dictionaries({"z": Z.inspection_state(), "gap": gen.logmag(1e-2, 8.0), "ud": gen.vec(3, -1.5, 1.5, special=(0.0, 1.0))}), min_size=1, max_size=4),
    60,
    rule="one of the two filters intervenes",
)
def in_cascade(case, ctx):
    c, a, b = cascade()
    for r in (c, a, b):
        r.reset()
    for k, call in enumerate(case):
        x = np.array(call["z"], float)
        x[7] = 20.0 - call["gap"]
        ud = np.array(call["ud"], float)
        u = c.filter_control(x, 1.0, ud)
        v = a.filter_control(x, 1.0, ud)
        w = b.filter_control(x, 1.0, v)
        check(np.array_equal(u, w), f"call {k}: cascade returns {u}, its filters one after the other {w}")
        check(bool(c.intervening) == bool(a.intervening or b.intervening), f"call {k}: cascade intervening {c.intervening}, parts {a.intervening}, {b.intervening}")
        if c.intervening:
            ctx.nontriv(k)


# ------------------------------------------------------------------------------------------------- predictions leave the controller alone
@subtest(
    "C20",
    "undisturbed",
    lambda: st.fixed_dictionaries({"kw": CONFIGS, "before": st.lists(st.tuples(VEC, gen.vec(3, -1.0, 1.0)), min_size=1, max_size=6), "p": VEC, "after": st.integers(1, 4), "dt": st.sampled_from([1.0, 0.5, 5.0])}),
    120,
    rule="the limiter lets at least one call pass and then takes over",
)
def undisturbed(case, ctx):
    """calls that are let through leave no trace: the later take-over equals that of a fresh limiter, digit for digit"""
    lib, m = config(dict(case["kw"], n_steps=min(case["kw"].get("n_steps", 60), 60)))
    a, b = Z.make("dv", **lib), Z.make("dv", **lib)
    dt = case["dt"]

    def state(v, dv):
        pd, r, vd, s = v
        return np.array([r * q for q in pd] + [s * q for q in vd] + [1.0, dv])

    passed = 0
    for v, ud in case["before"]:
        a.filter_control(state(v, -1e4), dt, np.array(ud))
        check(not a.intervening, "intervening although the budget is practically unlimited")
        passed += 1
    x = state(case["p"], m.limit + 1.0)
    for k in range(case["after"]):
        ua, ub = (r.filter_control(x, dt, np.zeros(3)) for r in (a, b))
        check(a.intervening and b.intervening, "not intervening although the budget is used up")
        check(np.all(np.abs(ua - ub) <= 1e-12), f"call {k} after the take-over: {ua}, but a limiter without the {passed} earlier calls returns {ub}")
        x = m.step(x, dt, np.array(ua, float))
    ctx.nontriv()


@subtest(
    "C20",
    "integral",
    lambda: st.fixed_dictionaries({"kw": CONFIGS, "p": VEC, "e": gen.vec(6, -4e4, 4e4, special=(0.0,)), "dt": st.sampled_from([1.0, 0.5, 5.0])}),
    120,
    rule="the integral term contributes more than 1e-3 to an unsaturated control",
)
def integral(case, ctx):
    """the station keeping controller itself: feedback plus integral term, and the advanced integral"""
    lib, m = config(case["kw"])
    rta = Z.module("dv", **lib)
    fn = getattr(rta, "backup_control", None)
    if fn is None:
        ctx.label("not applicable: no backup_control")
        return
    pd, r, vd, s = case["p"]
    x = np.array([r * q for q in pd] + [s * q for q in vd] + [1.0, 0.0])
    e = np.array(case["e"])
    e0, x0 = e.copy(), x.copy()
    u, e1 = fn(x, case["dt"], e)
    check(np.array_equal(e, e0) and np.array_equal(x, x0), f"the integral handed in was changed from {e0} to {e}")
    ue, ee = m.backup(x, e0, case["dt"])
    tol = 2e-4 * (1 + np.linalg.norm(m.error(x))) + 1e-9 * np.linalg.norm(e0)
    check(np.all(np.abs(np.array(u, float) - ue) <= tol), f"station keeping control {u}, expected {ue} (state {x.tolist()}, integral {e0.tolist()})")
    check(np.all(np.abs(e1 - ee) <= 1e-9 * (1 + np.abs(ee))), f"advanced integral {e1}, expected {ee}")
    if np.max(np.abs(m.K2 @ e0)[np.abs(ue) < 0.99], initial=0) > 1e-3:
        ctx.nontriv()
