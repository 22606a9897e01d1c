"""C08: infeasible problems are signalled; slack variables relax constraints by priority."""
import warnings

import numpy as np

from rtav import pools, systems as S
from rtav.checks import c02_explicit as c02
from rtav.checks import c03_implicit as c03
from rtav.checks import c04_discrete as c04
from rtav.core import check, probe, subtest
from run_time_assurance.utils import SolverError

HARD = dict(r=(-3.0, 1.5), p_off=19)


def relaxed(qp, u):
    """is some soft constraint violated at the returned control?"""
    return bool(np.any(qp.slacks(np.array(u, float), 0) < -1e-3))


def slack_case(kind, pool, case, ctx):
    spec = pool[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    ref = S.Ref(spec, case)
    ud = np.array(case["ud"], float)
    dt = 0.25
    u, warned, _ = c02.run_filter(rta, ref.z(), dt, ud)
    if kind == "explicit":
        qp, amb = S.explicit_qp(ref, spec, case, ud)
    else:
        qp, amb = S.implicit_qp(ref, spec, case, ud, dt, int(spec["backup_window"] / dt))
    if qp is None or amb:
        ctx.label("ambiguous-branch")
        return
    verdict, _ = qp.verdict()
    ctx.label(verdict)
    if verdict == "ambiguous":
        return
    if verdict == "infeasible":
        check(warned, f"hard constraints are inconsistent, but no warning; control {u}")
        check(np.allclose(u, ref.clip(ud), atol=1e-5), f"infeasible problem: control {u} is not the clipped desired control")
        return
    check(not warned, f"problem with slack reported as infeasible although the hard constraints are consistent; control {u}")
    qp.check_solution(u)
    if relaxed(qp, u):
        ctx.label("relaxed")
        ctx.nontriv()


@subtest("C08", "explicit_slack", lambda: S.case_strategy(pools.EXPLICIT_SLACK, **HARD), 420, rule="a soft constraint is violated at the optimum")
def explicit_slack(case, ctx):
    slack_case("explicit", pools.EXPLICIT_SLACK, case, ctx)


@subtest("C08", "implicit_slack", lambda: S.case_strategy(pools.IMPLICIT_SLACK, xr=1.5, **HARD), 130, rule="a soft constraint is violated at the optimum")
def implicit_slack(case, ctx):
    slack_case("implicit", pools.IMPLICIT_SLACK, case, ctx)


@subtest("C08", "discrete_slack", lambda: S.case_strategy(pools.DISCRETE_SLACK, c04.with_dt, xr=1.5, **HARD), 170, rule="the discrete barrier conditions force a change of the desired control")
def discrete_slack(case, ctx):
    c04.discrete_case(pools.DISCRETE_SLACK, case, ctx)


@subtest("C08", "explicit_infeasible", lambda: S.case_strategy(pools.EXPLICIT, **HARD), 300, rule="no control satisfies all constraints")
def explicit_infeasible(case, ctx):
    c02.explicit_case(pools.EXPLICIT, case, ctx, need="infeasible")


IMP = [pools.IMPLICIT[0], pools.IMPLICIT[2]]


@subtest("C08", "implicit_infeasible", lambda: S.case_strategy(IMP, c03.with_dt, xr=1.5, **HARD), 90, rule="no control satisfies all constraints")
def implicit_infeasible(case, ctx):
    c03.implicit_case(IMP, case, ctx, need="infeasible")


RAISING = [
    dict(pools.EXPLICIT[1], solver_exception=True),
    dict(pools.EXPLICIT[3], solver_exception=True),
    dict(pools.EXPLICIT_SLACK[2], solver_exception=True),
    dict(pools.IMPLICIT[0], solver_exception=True),
    dict(pools.DISCRETE[0], solver_exception=True),
    dict(pools.DISCRETE[1], solver_exception=True),
]


@subtest("C08", "solver_exception", lambda: S.case_strategy(RAISING, xr=1.5, **HARD), 300, rule="no control satisfies all constraints, with solver_exception=True")
def solver_exception(case, ctx):
    spec = RAISING[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    ref = S.Ref(spec, case)
    ud = np.array(case["ud"], float)
    dt = 0.25
    raised, u = False, None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            u = rta.filter_control(ref.z(), dt, ud)
        except SolverError:
            raised = True
    if spec["kind"] == "discrete":
        if not c04.is_linear(case):
            ctx.label("nonlinear")
            return
        qp, amb = c04.linear_qp(ref, spec, case, ud, dt), False
    elif spec["kind"] == "iasif":
        qp, amb = S.implicit_qp(ref, spec, case, ud, dt, int(spec["backup_window"] / dt))
    else:
        qp, amb = S.explicit_qp(ref, spec, case, ud)
    if qp is None or amb:
        return
    verdict, _ = qp.verdict()
    ctx.label(f"{spec['kind']}-{verdict}-{'raised' if raised else 'returned'}")
    if verdict == "infeasible" and not (spec["kind"] == "discrete" and qp.infeasible_by(-1) > -1e-4):
        check(raised, f"inconsistent constraints, but no SolverError; returned {u}, warnings {[str(x.message) for x in w]}")
        ctx.nontriv()
    if verdict == "feasible" and spec["kind"] != "discrete":
        check(not raised, "consistent constraints raised SolverError")


DISC = [pools.DISCRETE[0], pools.DISCRETE[1], pools.DISCRETE[2]]


@subtest("C08", "discrete_infeasible", lambda: S.case_strategy(DISC, c04.with_dt, xr=1.5, **HARD), 200, rule="no control satisfies all constraints and the solver reports it")
def discrete_infeasible(case, ctx):
    c04.discrete_case(DISC, case, ctx, need="failed")


@probe("C08", "slack-sqrt")
def probe_sqrt():
    """one soft row u >= 1, desired 0: slack weight w gives u = w / (1 + w)"""
    spec = {"kind": "easif", "n": 2, "m": 1, "constraints": [{"alpha": [0, 1.0], "slack": 16.0}]}
    rta = S.module(spec)
    case = {"x": [0.0, 0.0], "A": [0.0] * 4, "B": [1.0, 0.0], "K": [0.0, 0.0], "k0": [0.0], "cons": [{"r": -0.09, "q": [1.0, 0.0], "P": [0.0] * 4}]}
    S.apply_params(rta, spec, case)
    ref = S.Ref(spec, case)
    u = float(rta.filter_control(ref.z(), 0.5, np.zeros(1))[0])
    b = 0.09 * 10 + 0.01  # h < 0: 10 alpha plus the negative bias
    return abs(u - b * 4 / 5) < 1e-3 and abs(u - b * 16 / 17) > 1e-3
