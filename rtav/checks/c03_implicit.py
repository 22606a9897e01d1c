"""C03: implicit ASIF enforces the barrier conditions along the backup trajectory."""
import numpy as np
from hypothesis import strategies as st

from rtav import pools, systems as S
from rtav.checks.c02_explicit import run_filter
from rtav.core import check, subtest
from rtav.simplex_model import n_steps


def implicit_case(pool, case, ctx, need=None):
    spec = pool[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    implicit_call(rta, spec, case, ctx, need)


def implicit_call(rta, spec, case, ctx, need=None):
    """one call judged by the reference QP"""
    ref = S.Ref(spec, case)
    ud = np.array(case["ud"], float)
    dt = case["dt"]
    u, warned, _ = run_filter(rta, ref.z(), dt, ud)
    check(np.shape(u) == (spec["m"],), f"shape of the control is {np.shape(u)}")
    qp, amb = S.implicit_qp(ref, spec, case, ud, dt, n_steps(spec["backup_window"], dt))
    if qp is None or amb:
        ctx.label("ambiguous-selection")
        return
    kind, _ = qp.verdict()
    ctx.label(kind)
    if kind == "ambiguous":
        return
    if kind == "infeasible":
        if need == "infeasible":
            ctx.nontriv()
        check(warned, f"infeasible problem did not warn, control {u}")
        check(np.allclose(u, ref.clip(ud), atol=1e-5), f"infeasible problem: control {u} is not the clipped desired control {ref.clip(ud)}")
        return
    check(not warned, f"feasible problem reported as infeasible; control {u}")
    qp.check_solution(u)
    nominal = qp.solve(0)
    if nominal is not None and np.linalg.norm(nominal - ref.clip(ud)) > 1e-3:
        ctx.label("active")
        if need is None:
            ctx.nontriv()


def with_dt(spec):
    return {"dt": st.sampled_from([0.25] if spec.get("no_jit") else [0.25, 0.1])}


def pool_part(idx):
    return [pools.IMPLICIT[i] for i in idx]


PARTS = {"a": pool_part([0, 2, 4]), "b": pool_part([3, 5, 7]), "rk45": pool_part([1, 6])}
for _name, _pool in PARTS.items():
    subtest(
        "C03", "generic_" + _name, lambda _pool=_pool: S.case_strategy(_pool, with_dt, xr=1.5, r=(-0.5, 4.0), p_off=14), 200,
        rule="a barrier condition of the backup trajectory moves the control away from the clipped desired control",
    )(lambda case, ctx, _pool=_pool: implicit_case(_pool, case, ctx))


def _sub(window, *cfgs, **kw):
    return {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": window, "constraints": [{"alpha": [0, 0.5 + 0.25 * i], "subsample": c} for i, c in enumerate(cfgs)], **kw}


LEAST = "subsample_constraints_num_least"
SUBSAMPLING = [  # corner cases of the subsampling configuration
    _sub(1.0, {"num_check_all": 10, "skip_length": 2}, {"skip_length": 50}),
    _sub(1.25, {"keep_first": True, LEAST: 2, "skip_length": 2}, {"num_check_all": 0, "skip_length": 3}),
    _sub(1.0, {LEAST: 50}, {"num_check_all": 1, "skip_length": 2, "keep_last": True, "keep_first": True, LEAST: 1}),
    _sub(1.5, {"num_check_all": 2}, {"keep_last": True, LEAST: 3}, {"keep_first": True, LEAST: 3}),
    _sub(1.25, {"num_check_all": 5, "skip_length": 2, LEAST: 2}, {"skip_length": 4}),
    _sub(0.5, {"num_check_all": 2, "skip_length": 5}, {LEAST: 1, "keep_last": True}),
]
subtest(
    "C03", "subsampling", lambda: S.case_strategy(SUBSAMPLING, lambda s: {"dt": st.just(0.25)}, xr=1.5, r=(-0.5, 3.0), p_off=14), 240,
    rule="a barrier condition of the backup trajectory moves the control away from the clipped desired control",
)(lambda case, ctx: implicit_case(SUBSAMPLING, case, ctx))
