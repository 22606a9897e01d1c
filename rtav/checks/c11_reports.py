"""C11: reports tell the truth about the last call."""
import numpy as np
import quadprog
from hypothesis import strategies as st

from rtav import gen, pools, systems as S, zoo as Z
from rtav.checks.c02_explicit import run_filter
from rtav.core import check, subtest
from rtav.ref import distinct

BOX = {"low": -1, "high": 1}
OPT = {
    "explicit": [
        dict(pools.EXPLICIT[1]),
        dict(pools.EXPLICIT[2], epsilon=0.5),
        dict(pools.EXPLICIT[3], epsilon=0.05),
        dict(pools.EXPLICIT[4], epsilon=1.0),
        {"kind": "easif", "n": 3, "m": 2, "high": [0.5, 1.0], "epsilon": 0.25, "constraints": [{"alpha": [0, 1.0], "phi": True}, {"alpha": [0, 0.5], "bias": -0.3, "slack": 1e6}], "direct": 1},
    ],
    "implicit": [
        dict(pools.IMPLICIT[2], epsilon=0.25),
        {"kind": "iasif", "n": 3, "m": 2, **BOX, "backup_window": 0.75, "constraints": [{"alpha": [0, 1.0], "phi": True}, {"alpha": [0, 0.5], "bias": -0.2}, {"alpha": [0, 0.7], "subsample": {"subsample_constraints_num_least": 1}}], "direct": 1},
        # the number of rows of a constraint differs from one to the next: first and last kept, the worst kept, all kept
        {"kind": "iasif", "n": 2, "m": 2, **BOX, "backup_window": 1.0, "constraints": [
            {"alpha": [0, 1.0], "subsample": {"subsample_constraints_num_least": 1, "keep_first": True, "keep_last": True}},
            {"alpha": [0, 0.7], "bias": -0.1}, {"alpha": [0, 0.5], "subsample": {"subsample_constraints_num_least": 2, "keep_last": True}}, {"alpha": [0, 0.8]}], "direct": 2},
    ],
    "discrete": [
        dict(pools.DISCRETE[1], epsilon=0.5),
        {"kind": "discrete", "n": 2, "m": 1, **BOX, "constraints": [{"alpha": [0, 0.5], "phi": True}, {"alpha": [0, 0.5], "bias": -0.3}]},
    ],
    "simplex": [
        {"kind": "esimplex", "n": 2, "m": 1, **BOX, "constraints": [{"bias": -0.25}, {"phi": True}]},
        {"kind": "isimplex", "n": 3, "m": 2, **BOX, "backup_window": 0.5, "latch_time": 0.5, "constraints": [{"phi": True, "bias": 0.25}, {}]},
    ],
}


def expected_values(spec, cons, x):
    out = {}
    for i, c in enumerate(spec["constraints"]):
        par = S.case_params({"cons": cons}, i, spec["n"])
        out[c.get("name", f"c{i}")] = (S.h_val(par, x) + (7.0 if c.get("phi") else 0.0), 1e-5 * (S.h_abs(par, x) + 1))
    return out


def check_values(got, spec, cons, x, what):
    exp = expected_values(spec, cons, x)
    check(list(got) == list(exp), f"{what}: reported constraints {list(got)}, expected {list(exp)}")
    for k, (v, e) in exp.items():
        check(abs(float(got[k]) - v) <= e, lambda: f"{what}: reported value of {k} is {got[k]}, expected {v}")


def active_names(qp):
    """({names certainly active}, {names certainly inactive}) at the optimum, or None"""
    C, b = qp._mats(0)
    nrm = np.linalg.norm(C, axis=1)
    keep = nrm > 1e-9
    G = np.diag(np.concatenate((np.ones(qp.m), qp.w)))
    a = np.concatenate((qp.ud, np.zeros(qp.w.size)))
    names = np.array(qp.names)[keep]
    eps = np.array([r[2] for r in qp.rows])[keep]
    Ck, bk = C[keep], b[keep]
    if len(bk) == 0:
        return set(), set()
    idx, group = distinct(Ck, bk)
    shared = {k for g in range(len(idx)) for k in set(names[group == g]) if len(set(names[group == g])) > 1}  # either may be named
    names, eps, Ck, bk = np.array(names)[idx], eps[idx], Ck[idx], bk[idx]
    try:
        sol, _, _, _, lag, _ = quadprog.solve_qp(G, a, Ck.T.copy(), bk.copy(), 0)
    except ValueError:
        return None
    res = Ck @ sol - bk
    act, inact = set(), set()
    for k in set(names) - shared:
        i = names == k
        soft = qp.w.size and np.any(np.abs(Ck[i][:, qp.m:]) > 0)
        size = float(np.max(lag[i] * np.linalg.norm(Ck[i][:, : qp.m], axis=1)))
        if size > 2e-3 + 20 * float(np.max(eps[i])) and not (soft and size < 0.02):
            act.add(k)
        elif np.all(res[i] > 1e-4 + 20 * eps[i]):
            inact.add(k)
    return act, inact


def ops_strategy(spec):
    n, m, k = spec["n"], spec["m"], len(spec["constraints"])
    call = st.tuples(st.just("call"), gen.vec(n, -1.5, 1.5), gen.vec(m, -2.0, 2.0), st.sampled_from([0.25, 0.25, 0.5]))
    upd = st.tuples(st.just("update"), gen.vec(n, -1.5, 1.5))
    other = st.one_of(upd, upd, st.sampled_from([("disable",), ("enable",), ("mutate",), ("reset",)]), st.integers(0, k - 1).map(lambda i: ("toggle", i)))
    return st.lists(st.integers(0, 2).flatmap(lambda i: other if i == 2 else call).map(list), min_size=2, max_size=7)


def make(pool):
    def fn(case, ctx):
        spec = pool[case["spec"]]
        rta = S.module(spec)
        rta.reset()
        case = dict(case, grid=False, cons=[dict(c, edge=None) for c in case["cons"]])
        S.apply_params(rta, spec, case)
        ref = S.Ref(spec, case)
        enabled, ud, u, u_arr, ud_arr, z_arr = True, None, None, None, None, None
        label = None  # key under which constraint values are reported
        x_rep = None
        old = []  # earlier reports and what they said
        for i, op in enumerate(case["ops"]):
            kind = op[0]
            if kind == "call":
                ref.x = np.array(op[1], float)
                ud_arr, z_arr = np.array(op[2], float), ref.z()
                ud = ud_arr.copy()
                dt = op[3] if len(op) > 3 else 0.25
                u_arr, warned, _ = run_filter(rta, z_arr, dt, ud_arr)
                u = np.array(u_arr, float)
                if enabled:
                    label, x_rep = "constraints_at_last_state", ref.x.copy()
                    if spec["kind"] not in S.OPTIM and rta.intervening:
                        ctx.nontriv(i)
                    if spec["kind"] in S.OPTIM:
                        judge(rta, spec, case, ref, ud, u, warned, dt, ctx, i)
                else:
                    check(not rta.intervening, f"op {i}: disabled filter reports intervening")
            elif kind == "update":
                x_rep = np.array(op[1], float)
                rta.update_constraint_values(ref.z(x_rep))
                label = "constraints"
            elif kind == "toggle":
                case["cons"][op[1]]["on"] = not case["cons"][op[1]]["on"]
                S.apply_params(rta, spec, case)
                continue
            elif kind == "mutate":
                for a in (u_arr, ud_arr, z_arr):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[:] = 77.0
                ctx.label("mutate")
            elif kind == "reset":
                rta.reset()
                enabled, ud, u, label, x_rep = True, None, None, None, None
                if spec["kind"] in ("easif", "iasif"):
                    check(not rta.constraints_causing_intervention, f"op {i}: intervention attributed to {rta.constraints_causing_intervention} after reset")
            else:
                enabled = kind == "enable"
                rta.enable = enabled
            info = rta.generate_info()
            check(info["enable"] == enabled, f"op {i}: enable reported as {info['enable']}")
            check(info["intervening"] == rta.intervening, f"op {i}: intervening reported as {info['intervening']}")
            for key, val in (("control_desired", ud), ("control_actual", u)):
                if val is None:
                    check(info[key] is None, f"op {i}: {key} is {info[key]} without a call")
                else:
                    check(np.array_equal(np.array(info[key], float), val), f"op {i} {kind}: {key} reported as {info[key]}, was {val}")
            keys = [k for k in info if k.startswith("constraints")]
            if label:
                check(keys == [label], f"op {i} {kind}: constraint values reported under {keys}, expected {label}")
                check_values(info[label], spec, case["cons"], x_rep, f"op {i} {kind}")
            for rep, said in old:
                now = (np.array(rep["control_desired"], float), np.array(rep["control_actual"], float))
                check(np.array_equal(now[0], said[0]) and np.array_equal(now[1], said[1]), f"op {i}: an earlier report changed")
                flags = {k: v for k, v in rep.items() if not k.startswith("control_")}
                check(repr(flags) == said[2], lambda: f"op {i}: an earlier report changed: it said {said[2]}, now {flags}")
            if ud is not None:
                old.append((info, (ud.copy(), u.copy(), repr({k: v for k, v in info.items() if not k.startswith("control_")}))))
            if kind == "update":
                ctx.label("refreshed")

    return fn


def judge(rta, spec, case, ref, ud, u, warned, dt, ctx, i):
    eps = spec.get("epsilon", 1e-2)
    if spec["kind"] == "discrete":
        if not warned:
            d = float(np.linalg.norm(u - ud))
            if abs(d - eps) > 1e-5 * (1 + d):
                check(rta.intervening == (d > eps), f"op {i}: intervening is {rta.intervening}, distance {d}, threshold {eps}")
                ctx.label("intervening" if d > eps else "not-intervening")
                if d > 1e-3:
                    ctx.nontriv(i)
        return
    if spec["kind"] == "easif":
        qp, amb = S.explicit_qp(ref, spec, case, ud)
    else:
        qp, amb = S.implicit_qp(ref, spec, case, ud, dt, int(round(spec["backup_window"] / dt, 6)))
    if qp is None or amb:
        return
    verdict, _ = qp.verdict()
    cause = rta.constraints_causing_intervention
    if verdict == "infeasible":
        check(list(cause) == [], f"op {i}: infeasible problem, but the intervention is attributed to {cause}")
        ctx.label("infeasible")
        return
    if verdict != "feasible":
        return
    d = float(np.linalg.norm(u - ud))
    if abs(d - eps) > 1e-5 * (1 + d):
        check(rta.intervening == (d > eps), f"op {i}: intervening is {rta.intervening}, distance {d}, threshold {eps}")
        ctx.label("intervening" if d > eps else "changed-not-intervening" if d > 1e-3 else "unchanged")
    sets = active_names(qp)
    if sets is None:
        return
    act, inact = sets
    check(act <= set(cause), f"op {i}: active constraints {sorted(act)} are not all among the reported {cause}")
    check(not inact & set(cause), f"op {i}: {sorted(inact & set(cause))} reported as cause, but inactive at the optimum (reported {cause}, active {sorted(act)})")
    check(len(set(cause)) == len(cause), f"op {i}: duplicates in {cause}")
    if any(not k.startswith("u") for k in act):
        ctx.label("attributed")
        ctx.nontriv(i)


for _n, _p in OPT.items():
    subtest(
        "C11", _n, lambda _p=_p: S.case_strategy(_p, lambda s: {"ops": ops_strategy(s)}, xr=1.5, r=(-0.5, 3.0)),
        {"explicit": 220, "implicit": 70, "discrete": 90, "simplex": 160}[_n],
        rule={"simplex": "a call with intervention", "discrete": "a call that changes the control"}.get(_n, "a barrier or direct constraint is certainly active at the optimum and has to be named"),
    )(make(_p))


# ---------------------------------------------------------------------------------------------- composite and zoo
ZOO = [("d2eo", {}), ("d3es", {}), ("i1", {}), ("comb", {"num_deputies": 2}), ("dv", {"m": 100.0, "n": 0.1, "n_steps": 20})]


def zoo_strategy():
    def one(i):
        name, kw = ZOO[i]
        dim = 3 * kw["num_deputies"] if name == "comb" else 3 if name == "dv" else Z.control_dim(name)
        key = "i1" if name == "dv" else name
        item = st.fixed_dictionaries({"z": Z.state_for(key, 2), "ud": gen.vec(dim, -2.0, 2.0, special=(0.0,)), "on": st.integers(0, 5).map(bool), "z2": Z.state_for(key, 2)})
        return st.fixed_dictionaries({"entry": st.just(i), "calls": st.lists(item, min_size=1, max_size=3)})

    return st.integers(0, len(ZOO) - 1).flatmap(one)




@subtest("C11", "zoo", zoo_strategy, 110, rule="an enabled call that changes the control")
def zoo(case, ctx):
    name, kw = ZOO[case["entry"]]
    rta = Z.module(name, **kw)
    rta.reset()
    for i, c in enumerate(case["calls"]):
        rta.enable = c["on"]
        z, ud = np.array(c["z"], float), np.array(c["ud"], float)
        u, _, _ = run_filter(rta, z, 1.0, ud)
        u = np.array(u, float)
        info = rta.generate_info()
        check(np.array_equal(np.array(info["control_desired"], float), ud), f"{name}: control_desired {info['control_desired']}")
        check(np.array_equal(np.array(info["control_actual"], float), u), f"{name}: control_actual {info['control_actual']}, returned {u}")
        check(info["enable"] == c["on"] and info["intervening"] == rta.intervening, f"{name}: flags {info}")
        if not c["on"]:
            check(not info["intervening"], f"{name}: disabled filter intervenes")
        elif np.max(np.abs(u - ud)) > 1e-3:
            ctx.nontriv(i)
        if hasattr(rta, "constraints") and c["on"]:
            rep = info["constraints_at_last_state"]
            zoo_values(name, rta, rep, z)
            z2 = np.array(c["z2"], float)
            rta.update_constraint_values(z2)
            info = rta.generate_info()
            check("constraints_at_last_state" not in info, f"{name}: refreshed values are reported as stale")
            zoo_values(name, rta, info["constraints"], z2)


def zoo_values(name, rta, rep, z):
    from rtav.checks.c14_constraints import phi_of

    check(list(rep) == list(rta.constraints), f"{name}: reported constraints {list(rep)}")
    for k, v in rep.items():
        exp = phi_of(name, k, z)
        if exp is not None:
            e, tol = exp
            check(abs(v - e) <= tol, f"{name}: reported value of {k} is {v}, expected {e}")
