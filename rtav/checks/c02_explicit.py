"""C02: explicit ASIF = closest control that satisfies every barrier condition, direct constraint and bound."""
import warnings

import numpy as np
from hypothesis import strategies as st

from rtav import pools, systems as S, zoo as Z
from rtav.core import check, subtest
from run_time_assurance.utils import SolverWarning


def run_filter(rta, z, dt, ud):
    """filter_control plus whether a SolverWarning was raised"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        u = rta.filter_control(z, dt, ud)
    return u, any(issubclass(x.category, SolverWarning) for x in w), w


def explicit_case(pool, case, ctx, need=None):
    spec = pool[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    explicit_call(rta, spec, case, ctx, need)


def explicit_call(rta, spec, case, ctx, need=None):
    """one call judged by the reference QP"""
    ref = S.Ref(spec, case)
    ud = np.array(case["ud"], float)
    u, warned, _ = run_filter(rta, ref.z(), 0.5, ud)
    check(np.shape(u) == (spec["m"],), f"shape of the control is {np.shape(u)}")
    qp, amb = S.explicit_qp(ref, spec, case, ud)
    if amb:
        ctx.label("ambiguous-branch")
        return
    kind, _ = qp.verdict()
    ctx.label(kind)
    if kind == "ambiguous":
        return
    if kind == "infeasible":
        if need == "infeasible":
            ctx.nontriv()
        check(warned, f"infeasible problem did not warn, control {u}")
        check(np.allclose(u, ref.clip(ud), atol=1e-5), f"infeasible problem: control {u} is not the clipped desired control {ref.clip(ud)}")
        return
    check(not warned, f"feasible problem reported as infeasible; control {u}")
    qp.check_solution(u)
    nominal = qp.solve(0)
    if nominal is not None and np.linalg.norm(nominal - ref.clip(ud)) > 1e-3:
        ctx.label("active")
        if need is None:
            ctx.nontriv()


@subtest(
    "C02", "generic_qp", lambda: S.case_strategy(pools.EXPLICIT), 700,
    rule="a barrier or direct constraint moves the control away from the clipped desired control",
)
def generic_qp(case, ctx):
    explicit_case(pools.EXPLICIT, case, ctx)


ZOO = ["d2eo", "d3eo", "ieo", "i1", "i1h", "i3"]


def zoo_module(name):
    if name == "i1h":
        return Z.module("i1", use_hocbf=True)
    if name == "i3":
        return Z.module("i3", num_deputies=3)
    return Z.module(name)


def zoo_strategy(names):
    def one(name):
        key = "i1" if name == "i1h" else name
        return st.fixed_dictionaries({"zoo": st.just(name), "z": Z.state_for(key), "ud": Z.ud_for(key)})

    return lambda: st.sampled_from(names).flatmap(one)


def zoo_qp(case, ctx):
    name = case["zoo"]
    rta = zoo_module(name)
    rta.reset()
    ud = np.array(case["ud"], float)
    z = np.array(case["z"], float)
    u, warned, _ = run_filter(rta, z, 1.0, ud)
    qp, amb = Z.own_qp(rta, z, ud, -1.0, 1.0, ud.size)
    if qp is None or amb:
        ctx.label("ambiguous-branch")
        return
    kind, _ = qp.verdict()
    ctx.label(f"{name}-{kind}")
    if kind == "ambiguous":
        return
    if kind == "infeasible":
        check(warned, f"infeasible problem did not warn, control {u}")
        check(np.allclose(u, np.clip(ud, -1, 1), atol=1e-5), f"infeasible: control {u} is not the clipped desired control")
        return
    check(not warned, f"feasible problem reported as infeasible; control {u}")
    qp.check_solution(u)
    nominal = qp.solve(0)
    if nominal is not None and np.linalg.norm(nominal - np.clip(ud, -1, 1)) > 1e-3:
        ctx.label(f"{name}-active")
        ctx.nontriv()


for _group in (["d2eo", "d3eo", "ieo"], ["i1", "i1h"], ["i3"]):
    subtest(
        "C02", "zoo_qp_" + "_".join(_group), zoo_strategy(_group), {"i3": 250}.get(_group[0], 500),
        rule="a barrier condition moves the control away from the clipped desired control",
    )(zoo_qp)
