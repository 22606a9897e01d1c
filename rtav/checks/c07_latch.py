"""C07: latching; C19: stateful backup controllers. Model based: random histories next to SimplexModel."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen, pools, systems as S
from rtav.core import also, check, subtest
from rtav.ref import fd_grad
from rtav.simplex_model import SimplexModel

LATCH = [
    {"kind": "esimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 1.0, "constraints": [{}]},
    {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 0.75, "backup_window": 0.5, "constraints": [{}, {"bias": -0.1}]},
    {"kind": "esimplex", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "latch_time": 0, "constraints": [{}]},
    {"kind": "isimplex", "n": 3, "m": 2, "latch_time": 2, "backup_window": 0.5, "backup": "array", "constraints": [{}]},
    {"kind": "esimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 0.25, "backup": "dict", "constraints": [{}]},
]
STATEFUL = [
    {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 1.0, "backup": "array", "constraints": [{}]},
    {"kind": "isimplex", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "backup_window": 0.75, "backup": "dict", "constraints": [{}, {}]},
    {"kind": "esimplex", "n": 2, "m": 1, "low": -0.5, "latch_time": 0.5, "backup": "dict", "constraints": [{}]},
    {"kind": "isimplex", "n": 2, "m": 1, "latch_time": 0.75, "backup_window": 0.5, "backup": "array", "constraints": [{}]},
    {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.75, "backup": "inplace", "constraints": [{}]},
    {"kind": "esimplex", "n": 3, "m": 2, "low": -1, "high": 1, "backup": "inplace", "constraints": [{}]},
    {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.75, "backup": "dict", "backup_jit": True, "constraints": [{}]},
    {"kind": "esimplex", "n": 2, "m": 1, "latch_time": 0.5, "backup": "array", "backup_jit": True, "constraints": [{}]},
]


def op_strategy(n, m, n_con, dts=(0.25, 0.5)):
    call = st.fixed_dictionaries(
        {
            "op": st.just("call"),
            "x": st.integers(0, 2).flatmap(lambda k: st.none() if k < 2 else gen.vec(n, -2.0, 2.0)),
            "ud": gen.vec(m, -3.0, 3.0),
            "dt": st.sampled_from(list(dts)),
        }
    )
    other = st.one_of(
        st.sampled_from([{"op": "disable"}, {"op": "enable"}, {"op": "reset"}]),
        st.integers(0, n_con - 1).map(lambda i: {"op": "toggle", "i": i}),
        st.tuples(st.integers(0, n_con - 1), S.con_strategy(n)).map(lambda t: {"op": "params", "i": t[0], "con": t[1]}),
    )
    return st.integers(0, 6).flatmap(lambda k: other if k == 6 else call)


def history_strategy(pool, lo=4, hi=14):
    def extra(spec):
        return {"ops": st.lists(op_strategy(spec["n"], spec["m"], len(spec["constraints"])), min_size=lo, max_size=hi)}

    return lambda: S.case_strategy(pool, extra)


def run_history(rta, spec, case, ctx, on_call=None):
    """drive rta and model with the operations of the case; returns statistics"""
    rta.reset()
    S.apply_params(rta, spec, case)
    model = SimplexModel(spec, case)
    x = model.ref.x
    stats = {"latched": 0, "release": 0, "switch": 0, "disabled": 0, "switch_after": 0}
    was = "pass"
    for step, op in enumerate(case["ops"]):
        kind = op["op"]
        if kind == "disable":
            rta.enable = model.enable = False
        elif kind == "enable":
            rta.enable = model.enable = True
        elif kind == "reset":
            rta.reset()
            model.reset()
            was = "pass"
        elif kind in ("toggle", "params"):
            i = op["i"]
            if kind == "toggle":
                model.cons[i]["on"] = not model.cons[i].get("on", True)
            else:
                model.cons[i] = dict(op["con"])
            S.apply_params(rta, spec, dict(case, cons=model.cons))
        else:
            if op["x"] is not None:
                x = np.array(op["x"], float)
            ud = np.array(op["ud"], float)
            u = np.array(rta.filter_control(model.ref.z(x), op["dt"], ud), float)
            exp, tol = model.call(x, op["dt"], ud)
            if exp is None:
                ctx.label("ambiguous-end")
                return stats
            check(rta.intervening == model.intervening, lambda: f"op {step}: intervening is {rta.intervening}, expected {model.intervening} ({model.why})")
            check(u.shape == exp.shape and np.all(np.abs(u - exp) <= tol), lambda: f"op {step}: control {u}, expected {exp} ({model.why})")
            if on_call:
                on_call(rta, model, step)
            stats[model.why] = stats.get(model.why, 0) + 1
            if was == "latched" and model.why == "pass":
                stats["release"] += 1
            if was in ("switch", "latched") and model.why == "switch":
                stats["switch_after"] += 1
            was = model.why
            x = model.ref.step(x, op["dt"], u)
            x = np.clip(x, -3.0, 3.0).astype(np.float32).astype(float)
    return stats


@subtest("C07", "history", history_strategy(LATCH), 350, rule="a latch holds the backup control for at least one call")
def c07_history(case, ctx):
    spec = LATCH[case["spec"]]
    s = run_history(S.module(spec), spec, case, ctx)
    for k, v in s.items():
        if v:
            ctx.label("has-" + k)
    if s["latched"]:
        ctx.nontriv()


def controller_state(rta):
    s = rta.backup_controller.controller_state
    return np.array(s["s"] if isinstance(s, dict) else s, float)


@subtest("C19", "history", history_strategy(STATEFUL), 300, rule="the stateful backup controller is applied at least twice without a reset in between")
def c19_history(case, ctx):
    spec = STATEFUL[case["spec"]]

    def on_call(rta, model, step):
        got = controller_state(rta)
        check(np.allclose(got, model.s, atol=1e-4), lambda: f"op {step}: controller state {got}, but the applied backup controls lead to {model.s} ({model.why})")

    s = run_history(S.module(spec), spec, case, ctx, on_call)
    ctx.label("switches" if s["switch"] else "no-switch")
    if s["switch"] + s["latched"] >= 2:
        ctx.nontriv()


# ---------------------------------------------------------------------------------------- controller interface
def ctl_strategy():
    def mk(nm):
        n, m = nm
        return st.fixed_dictionaries(
            {
                "nm": st.just([n, m]),
                "kind": st.sampled_from(["affine", "array", "dict", "inplace"]),
                "jit": st.integers(0, 3),
                **S.system_fields(n, m),
                "ops": st.lists(
                    st.one_of(
                        st.tuples(st.just("gen"), gen.vec(n, -2.0, 2.0), st.sampled_from([0.25, 0.5])),
                        st.tuples(st.just("peek"), gen.vec(n, -2.0, 2.0), st.sampled_from([0.25, 0.5])),
                        st.tuples(st.just("jac"), gen.vec(n, -2.0, 2.0), st.sampled_from([0.25, 0.5])),
                        st.sampled_from([("save", [], 0.0), ("restore", [], 0.0), ("reset", [], 0.0), ("save", [], 0.0), ("restore", [], 0.0)]),
                        st.sampled_from([("save", [], 0.0), ("restore", [], 0.0)]),
                    ),
                    min_size=3,
                    max_size=14,
                ),
            }
        )

    return st.sampled_from([(2, 1), (3, 2)]).flatmap(mk)


@subtest("C19", "controller", ctl_strategy, 250, rule="a save is followed by a control and a restore")
def c19_controller(case, ctx):
    n, m = case["nm"]
    spec = {"n": n, "m": m, "backup": case["kind"], "backup_jit": case["jit"] == 0 and case["kind"] != "inplace"}
    ref = S.Ref(dict(spec, constraints=[]), case)
    ctl = S._backup(spec)
    s, saved = ref.s0(), None
    gen_since_save = False
    in_place = case["kind"] == "inplace"
    for i, (op, x, dt) in enumerate(case["ops"]):
        z = jnp.array(ref.z(x if op in ("gen", "peek", "jac") else None), dtype=jnp.float32)
        x = np.array(x, float)
        if op == "gen":
            u = np.array(ctl.generate_control(z, dt), float)
            exp = ref.ub(x, s)
            s = ref.s_next(x, s, dt)
            gen_since_save = True
            check(np.allclose(u, exp, atol=1e-4), f"op {i}: control {u}, expected {exp}")
        elif in_place and op in ("peek", "jac"):
            continue  # outside the contract: tracers must not be stored
        elif op == "peek":
            given = None if s is None else {"s": jnp.array(s + 0.5)} if case["kind"] == "dict" else jnp.array(s + 0.5)
            u, new = ctl.generate_control_with_controller_state(z, dt, given)
            exp = ref.ub(x, None if s is None else s + 0.5)
            check(np.allclose(np.array(u), exp, atol=1e-4), f"op {i}: control for a given controller state {u}, expected {exp}")
            if s is not None:
                got = np.array(new["s"] if isinstance(new, dict) else new, float)
                check(np.allclose(got, ref.s_next(x, s + 0.5, dt), atol=1e-4), f"op {i}: updated controller state {got}")
        elif op == "jac":
            J = np.array(ctl.jacobian(z, dt), float)
            check(J.shape == (m, z.size), f"jacobian shape {J.shape}")
            exp = fd_grad(lambda y: ref.ub(y, s), x)
            check(np.allclose(J[:, :n], exp, atol=1e-3), f"op {i}: jacobian {J[:, :n]}, expected {exp}")
        elif op == "save":
            ctl.save()
            saved = s
            gen_since_save = False
        elif op == "restore":
            if saved is None and s is not None:
                continue  # restore without a save is outside the contract
            ctl.restore()
            if gen_since_save:
                ctx.nontriv()
            s = saved
            if in_place:  # one restore per save
                saved = None
        else:
            ctl.reset()
            s = ref.s0()
        if s is not None:
            cs = ctl.controller_state
            got = np.array(cs["s"] if isinstance(cs, dict) else cs, float)
            check(np.allclose(got, s, atol=1e-4), f"op {i} {op}: controller state {got}, expected {s}")
        else:
            check(ctl.controller_state is None, f"op {i}: stateless controller has state {ctl.controller_state}")


also("C06", "C19", "history", quick=120)


# ------------------------------------------------------------------- implicit ASIF with a stateful backup controller
IASIF = [pools.IMPLICIT[5], pools.IMPLICIT[6], dict(pools.IMPLICIT[5], backup_jit=True)]


def iasif_strategy():
    def extra(spec):
        n, m = spec["n"], spec["m"]
        item = st.fixed_dictionaries(
            {"backup": st.booleans(), "x": st.one_of(st.none(), gen.vec(n, -1.5, 1.5)), "ud": gen.vec(m, -3.0, 3.0)}
        )
        return {"items": st.lists(item, min_size=2, max_size=6)}

    return S.case_strategy(IASIF, extra, r=(-0.5, 4.0))


@subtest("C19", "implicit_asif", iasif_strategy, 90, rule="a filter call follows a backup control that changed the controller state")
def c19_iasif(case, ctx):
    from rtav.checks.c02_explicit import run_filter

    case = dict(case, grid=False)
    spec = IASIF[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    ref = S.Ref(spec, case)
    s = ref.s0()
    dt = 0.25
    moved = False
    for i, it in enumerate(case["items"]):
        x = ref.x if it["x"] is None else np.array(it["x"], float)  # None: the state has not moved
        if it["backup"]:
            u = np.array(rta.backup_control(jnp.array(ref.z(x), dtype=jnp.float32), dt), float)
            exp = ref.clip(ref.ub(x, s))
            check(np.allclose(u, exp, atol=1e-4), f"item {i}: backup control {u}, expected {exp}")
            s = ref.s_next(x, s, dt)
            moved = True
            continue
        ref.x = x
        ud = np.array(it["ud"], float)
        u, warned, _ = run_filter(rta, ref.z(), dt, ud)
        got = controller_state(rta)
        check(np.allclose(got, s, atol=1e-4), f"item {i}: filtering changed the controller state to {got}, expected {s}")
        qp, amb = S.implicit_qp(ref, spec, case, ud, dt, int(spec["backup_window"] / dt), s=s)
        if qp is None or amb:
            continue
        kind, _ = qp.verdict()
        ctx.label(kind)
        if kind == "feasible":
            check(not warned, f"item {i}: feasible problem reported as infeasible")
            qp.check_solution(u, f"item {i}: ")
        if moved:
            ctx.nontriv()


also("C03", "C19", "implicit_asif")
