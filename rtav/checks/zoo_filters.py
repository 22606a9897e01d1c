"""The zoo modules as instances of the general guarantees: C03, C04, C07, C08, C11, C13 (the other checks have zoo subtests of their own)."""
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen, zoo as Z
from rtav.checks import c11_reports as c11
from rtav.checks import c13_pure as c13
from rtav.checks import c14_constraints as c14
from rtav.checks.c02_explicit import run_filter, zoo_module
from rtav.checks.c05_simplex import ZooModel
from rtav.core import check, subtest
from rtav.ref import QP, same
from rtav.simplex_model import n_steps
from run_time_assurance.utils import SolverError

# ------------------------------------------------------------------------------------------------ C03: implicit ASIF
IMPLICIT = [
    ("d2io", {}), ("d3io", {}), ("iio", {}),
    ("d2io", {"m": 6.0, "n": 0.002, "v0": 0.5, "v1_coef": 3, "x_vel_limit": 2.0, "y_vel_limit": 3.0, "control_bounds_high": [0.5, 0.25], "control_bounds_low": -0.5, "backup_window": 3, "integration_method": "Euler"}),
    ("iio", {"m": 2.0, "control_bounds_low": -0.5, "backup_window": 3}),
    ("d2io", {"backup": [0.25, 0.125]}), ("d3io", {"backup": [0.5, -0.125], "backup_window": 3}), ("iio", {"backup": [0.5, -0.25]}),
]


def implicit_rows(rta, mdl, z, ud, dt):
    """reference QP: trajectory and sensitivities in float64, constraint functions as published by the module"""
    dim = mdl.dim
    qp = QP(ud, mdl.low, mdl.high)
    J = mdl.A - (mdl.B @ np.hstack((np.zeros((dim, dim)), mdl.gain()[:, dim:])) if mdl.docking or "backup" in mdl.kw else 0.0)
    num = n_steps(mdl.window, dt)
    f0, g0 = mdl.A @ z, mdl.B
    runs = []
    for dtype in (np.float64, np.float32):
        x, phi = z.astype(dtype).astype(float), np.eye(z.size)
        pts = [(x, phi)]
        for _ in range(num):
            x = mdl.step(x, dt, mdl.clip(mdl.backup(x))).astype(dtype).astype(float)
            phi = (phi + dt * J @ phi).astype(dtype).astype(float)
            pts.append((x, phi))
        runs.append(pts)
    us = 1 + np.max(np.abs(mdl.low)) + np.max(np.abs(ud))
    for k, c in rta.constraints.items():
        rows = []
        for (x, phi), (x2, phi2) in zip(*runs):
            vals = []
            for xx, pp in ((x, phi), (x2, phi2)):
                xj = jnp.array(xx, dtype=jnp.float32)
                h = float(c(xj, c.params))
                gr = np.array(c.grad(xj, c.params), float) @ pp
                vals.append((h, gr @ g0, -gr @ f0 - float(c.alpha(h)), gr))
            (h, w, b, gr), (h2, w2, b2, _) = vals
            eh = 1e-5 * (1e-3 + abs(h)) + 1e-6 * float(np.abs(np.array(c.grad(jnp.array(x, dtype=jnp.float32), c.params), float)) @ np.abs(x)) + 5 * abs(h2 - h)
            da = abs(float(c.alpha(h + eh)) - float(c.alpha(h - eh))) / 2
            eps = 2 * da + 1e-6 + 3e-5 * float(np.abs(gr) @ np.abs(f0)) + 3e-5 * us * float(np.sum(np.abs(gr) @ np.abs(g0))) + 5 * (abs(b2 - b) + us * float(np.sum(np.abs(w2 - w))))
            rows.append((h, eh, w, b, eps))
        keep = range(len(rows))
        if not mdl.docking:  # only the point with the least value
            order = sorted(keep, key=lambda i: rows[i][0])
            if rows[order[1]][0] - rows[order[0]][0] <= rows[order[0]][1] + rows[order[1]][1]:
                return None
            keep = order[:1]
        for i in keep:
            qp.add(rows[i][2], rows[i][3], rows[i][4], None, k)
    return qp


def implicit_strategy(entries):
    def one(i):
        name, kw = entries[i]
        return st.fixed_dictionaries({"entry": st.just(i), "z": ZooModel(name, kw).states(), "ud": Z.ud_for(name), "dt": st.sampled_from([1.0, 0.5])})

    return lambda: st.integers(0, len(entries) - 1).flatmap(one)


@subtest("C03", "zoo", implicit_strategy(IMPLICIT), 120, rule="a barrier condition of the backup trajectory moves the control away from the clipped desired control")
def c03_zoo(case, ctx):
    name, kw = IMPLICIT[case["entry"]]
    rta = Z.module(name, **kw)
    rta.reset()
    mdl = ZooModel(name, kw)
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    u, warned, _ = run_filter(rta, z, case["dt"], ud)
    qp = implicit_rows(rta, mdl, z, ud, case["dt"])
    if qp is None:
        ctx.label("ambiguous-selection")
        return
    kind, _ = qp.verdict()
    ctx.label(f"{name}-{kind}")
    if kind == "ambiguous":
        return
    if kind == "infeasible":
        check(warned, f"{name} {kw}: infeasible problem did not warn, control {u}")
        check(np.allclose(u, mdl.clip(ud), atol=1e-5), f"{name}: infeasible, but control {u} is not the clipped desired control")
        return
    check(not warned, f"{name} {kw}: feasible problem reported as infeasible; control {u}")
    qp.check_solution(u, f"{name} {kw}: ")
    nominal = qp.solve(0)
    if nominal is not None and np.linalg.norm(nominal - mdl.clip(ud)) > 1e-3:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------ C04: discrete ASIF
DISCRETE = [{}, {"m": 20.0, "n": 0.0015, "control_bounds_low": [-0.5, -1.0, -0.75]}]


def discrete_strategy():
    def near(t):
        pd, r, vd, fac, aim, th = t
        v = np.array(vd) if aim else -np.array(pd)
        return Z._sv(pd, r) + Z._sv(v, fac * min(1.0, 0.2 + 2 * Z.N0 * r)) + [th, 0.0]

    z = st.tuples(gen.direction(3), gen.logmag(12.0, 950.0), gen.direction(3), gen.num(0.0, 1.0, special=(0.97,)), st.booleans(), Z.ANGLE).map(near)
    return st.fixed_dictionaries({"entry": st.integers(0, 1), "z": z, "ud": Z.ud_for("i1d"), "dt": st.sampled_from([1.0, 2.0, 5.0])})


@subtest("C04", "zoo", discrete_strategy, 160, rule="the discrete barrier conditions force a change of the desired control")
def c04_zoo(case, ctx):
    kw, dt = DISCRETE[case["entry"]], case["dt"]
    rta = Z.module("i1d", **kw)
    rta.reset()
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    refs = c14.expected("i1d", kw)
    if any(c.skip(z, c.par) for c in refs.values()):
        return
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        u = np.array(rta.filter_control(z, dt, ud), float)
    m, n = kw.get("m", Z.M0), kw.get("n", Z.N0)
    low = np.broadcast_to(np.array(kw.get("control_bounds_low", -1.0)), (3,))
    Ad, Bd = Z.zoh(*Z.cwh(m, n, 3), dt)

    def nxt(v):
        return np.concatenate((Ad @ z[:6] + Bd @ v, [z[6] - Z.N0 * dt, z[7] + np.sum(np.abs(v)) / m * dt]))

    def conditions(v):
        out = []
        x1 = nxt(v)
        for k, c in refs.items():
            con = rta.constraints[k]
            if c.skip(x1, c.par):
                continue
            (h0, t0), (h1, t1) = (c14.tol_of(c.value, x, 1e-3) for x in (z, x1))
            b = float(con.bias)
            tol = 20 * (t0 + c.extra_tol(z, c.par) + t1 + c.extra_tol(x1, c.par)) + {"psm": 5e-3, "cone": 5e-4}.get(c.kind, 0.0)
            a, a2 = float(con.alpha(h0 + b)), float(con.alpha(h0 + b + tol))
            out.append((k, (h1 - h0) / dt + a, tol / dt + abs(a2 - a) + 2e-5))
        return out

    if any("olv" in str(x.message) for x in w):
        ctx.label("solver-failed")
        return
    for k, v, t in conditions(u):
        check(v >= -t, f"i1d {kw}: discrete barrier condition of {k} violated by {-v} (tolerance {t}), control {u.tolist()}, desired {ud.tolist()}, step {dt}")
    ok = np.all(ud >= low) and np.all(ud <= 1.0) and all(v > 2 * t for _, v, t in conditions(ud))
    if ok:
        ctx.label("desired-ok")
        check(np.linalg.norm(u - ud) <= 3e-3 * (1 + np.max(np.abs(ud))), f"i1d {kw}: {u} was returned although the desired control {ud} satisfies every condition")
        return
    if np.max(np.abs(u - np.clip(ud, low, 1.0))) > 1e-3:
        ctx.label("active")
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------------ C07: latching
LATCH = [
    ("d2es", {}, 3.0), ("d3es", {}, 2.0), ("ies", {}, 2.5), ("d2is", {}, 4.0), ("iis", {}, 1.5), ("d3is", {}, 1.0),
    ("d2es", {"backup": [0.25, 0.125]}, 2.0), ("iis", {"backup": [0.5, -0.25]}, 2.5),
]


def latch_strategy():
    def one(i):
        name, kw, _ = LATCH[i]
        mdl = ZooModel(name, kw)
        call = st.fixed_dictionaries({"z": st.one_of(st.none(), mdl.states()), "ud": Z.ud_for(name), "dt": st.sampled_from([1.0, 0.5]), "op": st.sampled_from(["call"] * 9 + ["reset", "disabled"])})
        return st.fixed_dictionaries({"entry": st.just(i), "z": mdl.states(), "calls": st.lists(call, min_size=3, max_size=9)})

    return st.integers(0, len(LATCH) - 1).flatmap(one)


@subtest("C07", "zoo", latch_strategy, 150, rule="a latch holds the backup control for at least one call")
def c07_zoo(case, ctx):
    """a latching zoo filter next to the same filter without latch, whose decisions are those of fresh evaluations"""
    name, kw, latch = LATCH[case["entry"]]
    rta, fresh = Z.module(name, latch_time=latch, **kw), Z.module(name, **kw)
    rta.reset()
    mdl = ZooModel(name, kw)
    z = np.array(case["z"], float)
    left, on, held = 0.0, False, 0
    for i, c in enumerate(case["calls"]):
        if c["z"] is not None:
            z = np.array(c["z"], float)
        ud, dt = np.array(c["ud"], float), c["dt"]
        if c["op"] == "reset":
            rta.reset()
            on = False
        rta.enable = c["op"] != "disabled"
        u = np.array(rta.filter_control(z, dt, ud), float)
        if c["op"] == "disabled":
            check(not rta.intervening and np.array_equal(u, ud), f"{name}: disabled filter intervenes")
            on = False
            continue
        fresh.reset()
        v = np.array(fresh.filter_control(z, dt, ud), float)
        if on and left <= 0:
            on = False
        if on:
            left -= dt
            exp, what, tell = mdl.clip(mdl.backup(z)), "latched", True
            held += 1
        else:
            exp, what, tell = v, "evaluated afresh", fresh.intervening
            if tell:
                on, left = True, latch
        check(rta.intervening == tell, f"{name} call {i}: intervening is {rta.intervening}, expected {tell} ({what})")
        check(np.allclose(u, exp, atol=3e-4, rtol=3e-4), f"{name} call {i}: control {u}, expected {exp} ({what})")
        z = mdl.step(z, dt, u)
        if not np.all(np.isfinite(z)) or np.max(np.abs(z)) > 1e4:
            break
    if held:
        ctx.label(name)
        ctx.nontriv()


# ---------------------------------------------------------------------- C08: infeasibility, C11: attribution of the QP
QPS = [("d2eo", {}), ("d3eo", {}), ("ieo", {}), ("i1", {}), ("i1", {"use_hocbf": True}), ("i3", {"num_deputies": 2})]


def qp_strategy(extra=None):
    def one(i):
        name, kw = QPS[i]
        s = Z.state_for(name, 2)
        return st.fixed_dictionaries({"entry": st.just(i), "z": s, "ud": Z.ud_for(name), "raising": st.booleans()})

    return lambda: st.integers(0, len(QPS) - 1).flatmap(one)


@subtest("C08", "zoo", qp_strategy(), 260, rule="no control satisfies all constraints of the zoo module")
def c08_zoo(case, ctx):
    name, kw = QPS[case["entry"]]
    rta = Z.module(name, solver_exception=True, **kw) if case["raising"] else Z.module(name, **kw)
    rta.reset()
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    raised, warned, u = False, False, None
    try:
        u, warned, _ = run_filter(rta, z, 1.0, ud)
    except SolverError:
        raised = True
    qp, amb = Z.own_qp(rta, z, ud, -1.0, 1.0, ud.size)
    if qp is None or amb:
        return
    kind, _ = qp.verdict()
    ctx.label(f"{name}-{kind}")
    if kind == "infeasible":
        ctx.nontriv()
        if case["raising"]:
            check(raised, f"{name}: inconsistent constraints, but no SolverError (control {u})")
        else:
            check(warned and not raised, f"{name}: inconsistent constraints, but no warning (control {u})")
            check(np.allclose(u, np.clip(ud, -1, 1), atol=1e-5), f"{name}: control {u} is not the clipped desired control {ud}")
    elif kind == "feasible":
        check(not raised and not warned, f"{name}: consistent constraints reported as infeasible")


@subtest("C11", "zoo_attribution", qp_strategy(), 300, rule="a barrier condition is certainly active at the optimum and has to be named")
def c11_zoo_attribution(case, ctx):
    name, kw = QPS[case["entry"]]
    eps = 0.25 if case["raising"] else 1e-2
    rta = Z.module(name, epsilon=0.25, **kw) if case["raising"] else Z.module(name, **kw)
    rta.reset()
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    u, _, _ = run_filter(rta, z, 1.0, ud)
    qp, amb = Z.own_qp(rta, z, ud, -1.0, 1.0, ud.size)
    if qp is None or amb:
        return
    kind, _ = qp.verdict()
    cause = list(rta.constraints_causing_intervention)
    if kind == "infeasible":
        check(cause == [], f"{name}: infeasible problem, but the intervention is attributed to {cause}")
    if kind != "feasible":
        return
    d = float(np.linalg.norm(np.array(u, float) - ud))
    if abs(d - eps) > 1e-4 * (1 + d):
        check(rta.intervening == (d > eps), f"{name}: intervening is {rta.intervening}, distance {d}, threshold {eps}")
    sets = c11.active_names(qp)
    if sets is None:
        return
    act, inact = sets
    known = set(rta.constraints)
    check((act & known) <= set(cause), f"{name}: active constraints {sorted(act)} are not all among the reported {cause}")
    check(not inact & known & set(cause), f"{name}: {sorted(inact & known & set(cause))} reported as cause, but inactive at the optimum (reported {cause}, active {sorted(act)})")
    if act & known:
        ctx.label(name)
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- C13: compilation
JIT = [("d2eo", {}), ("d2es", {}), ("ieo", {}), ("i1", {"constraints_to_use": ["rel_vel", "chief_collision", "sun", "x_vel"]}), ("d3is", {"backup_window": 3})]


def jit_strategy():
    def one(i):
        name, _ = JIT[i]
        return st.fixed_dictionaries({"entry": st.just(i), "z": Z.state_for(name), "ud": Z.ud_for(name), "ut": st.sampled_from(c13.TYPES), "zt": st.sampled_from(c13.TYPES)})

    return st.integers(0, len(JIT) - 1).flatmap(one)


@subtest("C13", "zoo_jit", jit_strategy, 120, rule="the call changes the control")
def c13_zoo_jit(case, ctx):
    """compiled against uncompiled zoo modules, and all array types"""
    name, kw = JIT[case["entry"]]
    a, b = Z.module(name, **kw), Z.module(name, jit_enable=False, **kw)
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    for r in (a, b):
        r.reset()
    first = c13.observe(a, z.copy(), 1.0, ud.copy())
    zt, ut = c13.as_type(case["zt"], z), c13.as_type(case["ut"], ud)
    typed = c13.observe(a, zt, 1.0, ut)
    check(np.array_equal(np.array(zt, float), z) and np.array_equal(np.array(ut, float), ud), f"{name}: input arrays modified")
    lim = 1e-5 * (1 + np.max(np.abs(ud)))
    check(np.all(np.abs(first["u"].astype(float) - typed["u"].astype(float)) <= lim) and first["intervening"] == typed["intervening"], lambda: f"{name}: types {case['zt']}/{case['ut']} give {typed}, float64 arrays {first}")
    other = c13.observe(b, z.copy(), 1.0, ud.copy())
    tol = 1e-4
    if name.endswith("o") or name == "i1":
        qp, amb = Z.own_qp(a, z, ud, -1.0, 1.0, ud.size)
        if qp is None or amb or qp.verdict()[0] == "ambiguous":
            return
        hi, lo = qp.solve(1), qp.solve(-1)
        if hi is not None and lo is not None:
            tol += 3 * float(np.max(np.abs(hi - lo)))
        check(first["warned"] == other["warned"], f"{name}: warning with jit {first['warned']}, without {other['warned']}")
    else:
        mdl = ZooModel(name, kw)
        x = mdl.step(z, 1.0, mdl.clip(ud))
        traj = [x]
        for _ in range(n_steps(mdl.window, 1.0) if name.endswith("is") else 0):
            x = mdl.step(x, 1.0, mdl.clip(mdl.backup(x)))
            traj.append(x)
        if any(abs(h) <= e for t in traj for h, e in mdl.h(t)):
            return
        check(first["intervening"] == other["intervening"], f"{name}: intervening with jit {first['intervening']}, without {other['intervening']}")
    check(np.all(np.abs(first["u"] - other["u"]) <= tol), lambda: f"{name}: control without compilation {other['u']}, with {first['u']}")
    ctx.label(name)
    if not same(first["u"], np.clip(ud, -1, 1)) and np.max(np.abs(first["u"] - np.clip(ud, -1, 1))) > 1e-3:
        ctx.nontriv()
