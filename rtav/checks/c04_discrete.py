"""C04: discrete ASIF."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from rtav import pools, systems as S
from rtav.core import check, subtest
from rtav.ref import QP


def run_discrete(rta, z, dt, ud):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        u = rta.filter_control(z, dt, ud)
    failed = any(issubclass(x.category, UserWarning) and "olver" in str(x.message) for x in w)
    return u, failed


def next_state(ref, spec, dt, u):
    if spec["kind"] == "discrete":
        return ref.step(ref.x, dt, u)
    return solve_ivp(lambda t, y: ref.f(y) + ref.g(y) @ u, (0.0, dt), ref.x, rtol=1e-9, atol=1e-11).y[:, -1]


def cbf_values(ref, spec, case, dt, u):
    """[(value of the discrete barrier condition, uncertainty)] of the enabled constraints"""
    xn = next_state(ref, spec, dt, u)
    out = []
    for i, c in enumerate(spec["constraints"]):
        if not case["cons"][i].get("on", True):
            continue
        par = S.case_params(case, i, ref.n)
        b = c.get("bias", 0)
        h0, h1 = S.h_val(par, ref.x) + b, S.h_val(par, xn) + b
        a, da, sa = S.alpha_ref(c["alpha"], h0)
        scale = S.h_abs(par, ref.x) + S.h_abs(par, xn) + abs(b) + 0.01
        unc = 1e-5 * scale * (1 / dt + da) + 1e-5 * sa
        if spec["kind"] == "discrete_int":
            unc += 2e-4 * scale / dt
        out.append(((h1 - h0) / dt + a, unc, c.get("slack") is not None))
    return out


def is_linear(case):
    return all(not c.get("on", True) or c.get("edge") or not any(c["P"]) for c in case["cons"]) and all(
        not c.get("on", True) or c.get("edge") != "on" or case.get("grid") for c in case["cons"]
    )


def linear_qp(ref, spec, case, ud, dt):
    """exact QP of the discrete filter when every constraint is linear and the model is the Euler step"""
    weights = [c["slack"] for c in spec["constraints"] if c.get("slack") is not None]
    qp = QP(ud, ref.low, ref.high, weights)
    j = 0
    us = 1 + np.max(np.abs(ud)) + 2
    for i, c in enumerate(spec["constraints"]):
        slack = None
        if c.get("slack") is not None:
            slack, j = j, j + 1
        if not case["cons"][i].get("on", True) or (case["cons"][i].get("edge") == "zero" and not c.get("bias", 0)):
            continue
        par = S.case_params(case, i, ref.n)
        h0 = S.h_val(par, ref.x) + c.get("bias", 0)
        a, da, sa = S.alpha_ref(c["alpha"], h0)
        row = par["q"] @ ref.g(ref.x)
        b = -par["q"] @ ref.f(ref.x) - a
        eps = 2e-5 * (S.h_abs(par, ref.x) + 0.1) / dt + 1e-5 * (sa + us * np.sum(np.abs(row)) + np.abs(par["q"]) @ (np.abs(ref.A) @ np.abs(ref.x) + 0.2))
        qp.add(row, b, eps, slack, f"c{i}")
    return qp


def discrete_case(pool, case, ctx, need=None):
    spec = pool[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    discrete_call(rta, spec, case, ctx, need)


def discrete_call(rta, spec, case, ctx, need=None):
    """one call judged by the discrete barrier conditions"""
    ref = S.Ref(spec, case)
    ud, dt = np.array(case["ud"], float), case["dt"]
    u, failed = run_discrete(rta, ref.z(), dt, ud)
    check(np.shape(u) == (spec["m"],) and np.all(np.isfinite(u)), f"control {u}")
    check(np.all(u >= ref.low - 1e-5) and np.all(u <= ref.high + 1e-5), f"control {u} outside the bounds")
    lin = spec["kind"] == "discrete" and is_linear(case)
    qp = linear_qp(ref, spec, case, ud, dt) if lin else None
    if failed:
        ctx.label("solver-failed")
        if lin:
            ctx.label("linear-failed-" + qp.verdict()[0])
        vals = cbf_values(ref, spec, case, dt, ud)
        inside = np.all(ud > ref.low) and np.all(ud < ref.high)
        check(not (inside and all(v > 10 * e for v, e, _ in vals)), f"solver failed although the desired control {ud} satisfies everything: {vals}")
        if need == "failed":
            ctx.nontriv()
        return
    vals = cbf_values(ref, spec, case, dt, np.array(u, float))
    for v, e, slack in vals:
        if not slack:
            check(v >= -(1e-5 + 5 * e), lambda: f"discrete barrier condition violated by {-v} (uncertainty {e}); control {u}, desired {ud}")
    dist = np.linalg.norm(u - ud)
    vd = cbf_values(ref, spec, case, dt, ud)
    if np.all(ud >= ref.low) and np.all(ud <= ref.high) and all(v > e for v, e, _ in vd):
        ctx.label("desired-ok")
        check(dist <= 2e-3 * (1 + np.max(np.abs(ud))), f"desired control {ud} satisfies every condition, but {u} was returned")
        return
    if lin:
        kind, v = qp.verdict()
        ctx.label("linear-" + kind)
        if kind == "infeasible":
            # SLSQP accepts violations of its tolerance 1e-6
            check(qp.infeasible_by(-1) > -1e-4, f"no control satisfies the constraints, but the solver reported success with {u}")
        if kind == "feasible":
            fu, fv = qp.cost(np.array(u, float), -1), qp.cost(v, +1)
            check(fu <= fv + 2e-3 * (0.05 + np.sqrt(2 * fv)) + 1e-3 * fv, f"control {u} (cost {fu}) is not minimal, {v} (cost {fv}) is feasible; desired {ud}")
    else:
        # no point on the way to the desired control may be clearly admissible
        for t in (0.3, 0.1):
            w = ref.clip(u + t * (ud - u))
            if np.linalg.norm(w - ud) < dist - 0.05 and not any(s for _, _, s in vals):
                ok = all(v > 5 * e + 0.02 for v, e, _ in cbf_values(ref, spec, case, dt, w))
                check(not ok, lambda: f"control {u} is not minimal: {w} is admissible and closer to the desired control {ud}")
    ctx.label("active")
    if need is None:
        ctx.nontriv()


def with_dt(spec):
    return {"dt": st.sampled_from([0.125, 0.25, 0.5])}


MIXED = [
    {"kind": "discrete", "n": 3, "m": 2, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5]}, {"alpha": [0, 0.3], "slack": 10.0}]},
    {"kind": "discrete", "n": 3, "m": 2, "low": -1, "constraints": [{"alpha": [0, 0.5], "slack": 10.0}, {"alpha": [0, 0.3]}, {"alpha": [0, 0.3], "slack": 10.0}]},
]
A = [s for s in pools.DISCRETE if s["kind"] == "discrete"] + MIXED
B = [s for s in pools.DISCRETE if s["kind"] == "discrete_int"]


@subtest("C04", "generic", lambda: S.case_strategy(A, with_dt, xr=1.5), 500, rule="the discrete barrier conditions force a change of the desired control")
def c04_generic(case, ctx):
    discrete_case(A, case, ctx)


@subtest("C04", "integrator", lambda: S.case_strategy(B, with_dt, xr=1.5), 160, rule="the discrete barrier conditions force a change of the desired control")
def c04_int(case, ctx):
    discrete_case(B, case, ctx)
