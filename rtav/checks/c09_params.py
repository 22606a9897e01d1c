"""C09: parameters and enable flags changed at run time take effect on the next call; constraint selection."""
import numpy as np
from hypothesis import strategies as st

from rtav import gen, pools, systems as S, zoo as Z
from rtav.checks import c02_explicit as c02
from rtav.checks import c03_implicit as c03
from rtav.checks import c04_discrete as c04
from rtav.checks import c05_simplex as c05
from rtav.checks.c11_reports import check_values
from rtav.core import check, subtest

JUDGE = {
    "easif": c02.explicit_call, "iasif": c03.implicit_call, "discrete": c04.discrete_call, "discrete_int": c04.discrete_call,
    "esimplex": c05.simplex_call, "isimplex": c05.simplex_call,
}
PARTS = {
    "explicit": [pools.EXPLICIT[1], pools.EXPLICIT[2], pools.EXPLICIT[4]],
    "implicit": [pools.IMPLICIT[2], dict(pools.IMPLICIT[0], constraints=[{"alpha": [0, 1.0]}, {"alpha": [0, 0.5]}])],
    "discrete": [pools.DISCRETE[1], pools.DISCRETE[2]],
    "simplex": [pools.ESIMPLEX[1], pools.ESIMPLEX[2], pools.ISIMPLEX[1], pools.ISIMPLEX[2]],
}


class Quiet:
    """context handed to the judges of the other properties: only labels"""

    def __init__(self, ctx):
        self.ctx, self.hit = ctx, False

    def label(self, *a):
        self.ctx.label(*a)

    def nontriv(self, *_):
        self.hit = True


def op_strategy(spec):
    n, m, k = spec["n"], spec["m"], len(spec["constraints"])
    ops = [
        st.tuples(st.just("params"), st.integers(0, k - 1), S.con_strategy(n, p_off=5), st.sampled_from(["replace", "inplace", "item"])),
        st.tuples(st.just("toggle"), st.integers(0, k - 1)),
    ]
    if spec.get("direct"):
        d = spec["direct"]
        ops.append(st.tuples(st.just("direct"), st.integers(0, d - 1), S.direct_strategy(n, m), st.sampled_from(["replace", "inplace", "item"])))
        ops.append(st.tuples(st.just("dtoggle"), st.integers(0, d - 1)))
    call = st.tuples(st.just("call"), st.one_of(st.none(), gen.vec(n, -1.5, 1.5)), gen.vec(m, -3.0, 3.0))
    report = st.tuples(st.just("report"), gen.vec(n, -1.5, 1.5))
    return st.integers(0, 6).flatmap(lambda i: report if i == 6 else call if i % 2 else st.one_of(*ops)).map(list)


def install(c, new, how):
    """three ways a user changes parameters"""
    if how == "replace":
        c.params = dict(new)
    elif how == "inplace":
        c.params.update(new)
    else:
        for k, v in new.items():
            c.params[k] = v


def history(pool):
    def fn(case, ctx):
        spec = pool[case["spec"]]
        rta = S.module(spec)
        rta.reset()
        S.apply_params(rta, spec, case)
        now = dict(case, cons=[dict(c) for c in case["cons"]], dt=0.25, grid=False)
        for c in now["cons"]:
            c["edge"] = None
        S.apply_params(rta, spec, now)
        if spec.get("direct"):
            now["direct"] = [dict(d) for d in case["direct"]]
        q = Quiet(ctx)
        changed = called = 0
        for op in case["ops"]:
            kind = op[0]
            if kind == "params":
                i = op[1]
                now["cons"][i] = dict(op[2], edge=None)
                c = list(rta.constraints.values())[i]
                install(c, S.lib_params(S.case_params(now, i, spec["n"])), op[3])
                c.enabled = bool(now["cons"][i]["on"])
            elif kind == "toggle":
                i = op[1]
                now["cons"][i]["on"] = not now["cons"][i]["on"]
                list(rta.constraints.values())[i].enabled = now["cons"][i]["on"]
            elif kind == "direct":
                i = op[1]
                now["direct"][i] = dict(op[2])
                c = list(rta.direct_inequality_constraints.values())[i]
                install(c, S.lib_direct(S.direct_params(now, i, spec["n"], spec["m"])), op[3])
                c.enabled = bool(now["direct"][i]["on"])
            elif kind == "dtoggle":
                i = op[1]
                now["direct"][i]["on"] = not now["direct"][i]["on"]
                list(rta.direct_inequality_constraints.values())[i].enabled = now["direct"][i]["on"]
            elif kind == "report":  # the values are those of the parameters in force
                x = np.array(op[1], float)
                rta.update_constraint_values(S.Ref(spec, now).z(x))
                check_values(rta.generate_info()["constraints"], spec, now["cons"], x, "refreshed values")
                continue
            else:
                if op[1] is not None:
                    now["x"] = op[1]
                now["ud"] = op[2]
                q.hit = False
                JUDGE[spec["kind"]](rta, spec, now, q)
                if q.hit and changed and called:
                    ctx.nontriv(called)
                called += 1
                continue
            changed += 1

    return fn


for _name, _pool in PARTS.items():
    subtest(
        "C09", _name, lambda _pool=_pool: S.case_strategy(_pool, lambda s: {"ops": st.lists(op_strategy(s), min_size=3, max_size=10)}, xr=1.5),
        {"explicit": 160, "implicit": 60, "discrete": 90, "simplex": 160}[_name],
        rule="a call after a parameter or flag change, preceded by another call, whose control is forced by a constraint",
    )(history(_pool))


# ------------------------------------------------------------------------------ a disabled constraint has no influence
DIS = [pools.EXPLICIT[3], pools.EXPLICIT[4], PARTS["implicit"][1], pools.DISCRETE[1], pools.ESIMPLEX[1], pools.ISIMPLEX[1], pools.EXPLICIT_SLACK[3]]


@subtest(
    "C09", "disabled", lambda: S.case_strategy(DIS, lambda s: {"which": st.integers(0, len(s["constraints"]) - 1), "other": S.con_strategy(s["n"], r=(-40.0, -10.0), pscale=4.0)}, xr=1.5), 160,
    rule="the disabled constraint would be violated at the given state",
)
def disabled(case, ctx):
    spec = DIS[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    i = case["which"]
    cons = [dict(c) for c in case["cons"]]
    cons[i]["on"] = False
    S.apply_params(rta, spec, dict(case, cons=cons))
    ref = S.Ref(spec, case)
    ud = np.array(case["ud"], float)
    u1, w1, _ = c02.run_filter(rta, ref.z(), 0.25, ud)
    i1 = rta.intervening
    cons2 = [dict(c) for c in cons]
    cons2[i] = dict(case["other"], on=False, edge=None)
    S.apply_params(rta, spec, dict(case, cons=cons2))
    u2, w2, _ = c02.run_filter(rta, ref.z(), 0.25, ud)
    check(w1 == w2 and i1 == rta.intervening and np.array_equal(np.array(u1), np.array(u2)), f"parameters of the disabled constraint {i} change the control from {u1} to {u2} (intervening {i1} -> {rta.intervening})")
    if S.h_val(S.case_params(dict(case, cons=cons2), i, spec["n"]), ref.x) < 0:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------------- selection
SEL = [
    dict(pools.EXPLICIT[3], no_jit=True, direct=1),
    {"kind": "esimplex", "n": 3, "m": 2, "low": -1, "high": 1, "no_jit": True, "constraints": [{"name": "a"}, {"name": "b", "bias": -0.1}, {"name": "aa"}, {"name": "d"}]},
    {"kind": "discrete", "n": 2, "m": 1, "low": -1, "high": 1, "no_jit": True, "constraints": [{"alpha": [0, 0.5], "name": "x"}, {"alpha": [0, 0.25], "name": "y"}]},
]


def sel_strategy():
    def extra(s):
        names = [c.get("name", f"c{i}") for i, c in enumerate(s["constraints"])]
        return {"use": st.lists(st.sampled_from(names + ["unknown", "", "d0"]), min_size=0, max_size=5), "as_tuple": st.booleans()}

    return S.case_strategy(SEL, extra, p_off=30)


@subtest("C09", "selection", sel_strategy, 60, rule="a proper non-empty subset of the constraints is selected")
def selection(case, ctx):
    spec = SEL[case["spec"]]
    names = [c.get("name", f"c{i}") for i, c in enumerate(spec["constraints"])]
    keep = [i for i, k in enumerate(names) if k in case["use"]]
    use = tuple(case["use"]) if case["as_tuple"] else list(case["use"])
    sub = dict(spec, constraints_to_use=use)
    if not keep:
        try:
            S.build(sub)
        except ValueError:
            ctx.label("rejected")
            return
        check(False, f"constraints_to_use={use} selects nothing but was accepted")
    rta = S.build(sub)
    got = list(rta.constraints.keys())
    check(got == [names[i] for i in keep], f"constraints_to_use={use}: got {got}, expected {[names[i] for i in keep]}")
    small = dict(spec, constraints=[spec["constraints"][i] for i in keep])
    now = dict(case, cons=[case["cons"][i] for i in keep], dt=0.25)
    S.apply_params(rta, small, now)
    q = Quiet(ctx)
    JUDGE[spec["kind"]](rta, small, now, q)
    info = rta.generate_info()["constraints_at_last_state"]
    check(list(info) == got, f"reported constraints {list(info)}")
    if len(keep) < len(names):
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------------------- zoo
ZOO = {
    "d2eo": {"rel_vel": {"v0": (0.05, 1.0), "v1": (0.0005, 0.01)}, "x_vel": {"limit_val": (0.1, 12.0)}, "y_vel": {"limit_val": (0.1, 12.0)}},
    "d3eo": {"rel_vel": {"v0": (0.05, 1.0), "v1": (0.0005, 0.01)}, "z_vel": {"limit_val": (0.1, 12.0)}},
    "i1": {
        "sun": {"fov": (0.3, 2.0), "a_max": (0.01, 0.1)}, "r_max": {"r_max": (100.0, 2000.0)}, "PSM": {"collision_radius": (1.0, 60.0)},
        "x_vel": {"limit_val": (0.2, 2.0)}, "chief_collision": {"collision_radius": (2.0, 30.0), "a_max": (0.01, 0.1)}, "rel_vel": {"v0": (0.05, 1.0)},
    },
    "d2es": {"rel_vel": {"v0": (0.05, 1.0), "v1": (0.0005, 0.01)}, "x_vel": {"limit_val": (0.1, 12.0)}},
}


def zoo_strategy():
    def one(name):
        table = ZOO[name]
        change = st.sampled_from(sorted(table)).flatmap(
            lambda k: st.tuples(st.just("set"), st.just(k), st.fixed_dictionaries({p: gen.num(*r) for p, r in table[k].items()}), st.sampled_from(["replace", "inplace"]))
        )
        toggle = st.sampled_from(sorted(table)).map(lambda k: ("toggle", k))
        call = st.tuples(st.just("call"), Z.state_for(name), Z.ud_for(name))
        return st.fixed_dictionaries({"zoo": st.just(name), "ops": st.lists(st.one_of(change, change, toggle, call, call, call), min_size=3, max_size=8)})

    return st.sampled_from(sorted(ZOO)).flatmap(one)


@subtest("C09", "zoo", zoo_strategy, 120, rule="a call after a change, preceded by another call")
def zoo_params(case, ctx):
    name = case["zoo"]
    rta = Z.module(name)
    rta.reset()
    orig = {k: (dict(c.params), c.enabled) for k, c in rta.constraints.items()}
    try:
        called = changed = 0
        for op in case["ops"]:
            if op[0] == "set":
                c = rta.constraints[op[1]]
                if op[3] == "replace":
                    c.params = {**c.params, **op[2]}
                else:
                    c.params.update(op[2])
                changed += 1
                continue
            if op[0] == "toggle":
                rta.constraints[op[1]].enabled = not rta.constraints[op[1]].enabled
                changed += 1
                continue
            z, ud = np.array(op[1], float), np.array(op[2], float)
            u, warned, _ = c02.run_filter(rta, z, 1.0, ud)
            if name == "d2es":
                zoo_switch(rta, z, ud, u, ctx)
            else:
                qp, amb = Z.own_qp(rta, z, ud, -1.0, 1.0, ud.size)
                if qp is None or amb:
                    continue
                kind, _ = qp.verdict()
                ctx.label(f"{name}-{kind}")
                if kind == "infeasible":
                    check(warned, f"infeasible problem did not warn, control {u}")
                elif kind == "feasible":
                    check(not warned, f"feasible problem reported as infeasible; control {u}")
                    qp.check_solution(u, f"{name}: ")
            if changed and called:
                ctx.nontriv(called)
            called += 1
    finally:
        for k, (p, e) in orig.items():
            rta.constraints[k].params, rta.constraints[k].enabled = p, e


def zoo_switch(rta, z, ud, u, ctx):
    """docking 2d explicit switching filter with the current parameters, in float64"""
    A, B = Z.cwh(Z.M0, Z.N0, 2)
    Ad, Bd = Z.zoh(A, B, 1.0)
    c = np.clip(ud, -1, 1)
    x = Ad @ z + Bd @ c
    vals = []
    for k, con in rta.constraints.items():
        if not con.enabled:
            continue
        p = con.params
        if k == "rel_vel":
            nrm = np.linalg.norm(x[:2])
            vals.append((Z.h_rel_vel(x[:2], x[2:], p["v0"], p["v1"]) - 1e-4, 2e-5 * (p["v0"] + p["v1"] * nrm + 3 * np.linalg.norm(x[2:]))))
        else:
            s = x[2] if k == "x_vel" else x[3]
            vals.append((p["limit_val"] ** 2 - s * s, 1e-4 * (p["limit_val"] ** 2 + s * s)))
    bad, good = any(h < -e for h, e in vals), all(h > e for h, e in vals)
    if not bad and not good:
        return
    ctx.label("d2es-switch" if bad else "d2es-pass")
    check(rta.intervening == bad, f"intervening is {rta.intervening}, constraint values {vals}")
    exp = np.clip(c05.ZooModel("d2es", {}).backup(z), -1, 1) if bad else c
    check(np.allclose(u, exp, atol=2e-4, rtol=2e-4), f"control {u}, expected {exp}")
