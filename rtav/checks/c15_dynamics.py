"""C15: zoo dynamics are the CWH / point mass equations, backup controllers the LQR feedback, wrappers address their component."""
import numpy as np
from hypothesis import strategies as st

from rtav import gen, zoo as Z
from rtav.checks.c05_simplex import lqr_gain
from rtav.core import check, subtest

SUN = st.one_of(st.just(None), gen.num(-0.05, 0.05, special=(0.0,)))
MASS = gen.logmag(0.5, 500.0)
MOTION = gen.logmag(2e-4, 0.3)


def block(mats, k):
    A, B = mats
    n = A.shape[0]
    A2 = np.kron(np.eye(k), A)
    B2 = np.vstack([B] + [np.zeros_like(B)] * (k - 1))
    return A2[: n * k, : n * k], B2


# ---------------------------------------------------------------------------------------------------- f and g
TRANSITION = ["d2eo", "d2io", "d3eo", "d3io", "ieo", "iio", "i1", "i3"]


def transition_strategy():
    def rest(name):
        d = {"zoo": st.just(name), "m": MASS, "n": MOTION, "deputies": st.integers(1, 4) if name == "i3" else st.just(1), "sun": SUN if name in ("i1", "i3") else st.just(None)}
        return st.fixed_dictionaries(d).flatmap(
            lambda c: st.tuples(gen.vec(dims(c)[0], -300.0, 300.0, special=(0.0, 1.0)), gen.vec(dims(c)[1], -3.0, 3.0, special=(0.0, 1.0))).map(lambda t: dict(c, z=t[0], u=t[1]))
        )

    return st.sampled_from(TRANSITION).flatmap(rest)


def dims(c):
    name = c["zoo"]
    return {"d2": (4, 2), "d3": (6, 3), "ie": (2, 1), "ii": (2, 1), "i1": (8, 3)}.get(name[:2]) or (6 * c["deputies"] + 1, 3)


def kwargs(c):
    kw = {"m": c["m"]}
    if c["zoo"] not in ("ieo", "iio", "ies", "iis"):
        kw["n"] = c["n"]
    if c["zoo"] == "i3":
        kw["num_deputies"] = c["deputies"]
    if c.get("sun") is not None:
        kw["sun_vel"] = c["sun"]
    return kw


def exact(c):
    name = c["zoo"]
    if name in ("ieo", "iio", "ies", "iis"):
        return Z.integrator_mats(c["m"])
    return Z.cwh(c["m"], c["n"], 2 if name.startswith("d2") else 3)


@subtest("C15", "transition", transition_strategy, 450, rule="state and control are both non-zero and mass or mean motion are not the defaults")
def transition(case, ctx):
    import jax
    import jax.numpy as jnp

    name = case["zoo"]
    with jax.disable_jit():
        rta = Z.make(name, **kwargs(case))
        z = jnp.array(case["z"], jnp.float32)
        f = np.array(rta.state_transition_system(z), float)
        g = np.array(rta.state_transition_input(z), float)
    A, B = exact(case)
    x = np.array(case["z"], float)
    k = case["deputies"]
    if name in ("i1", "i3"):
        A, B = block((A, B), k)
        sun = case["sun"] if case["sun"] is not None else -Z.N0
        tail = [sun, 0.0] if name == "i1" else [sun]
        ef = np.concatenate((A @ x[: 6 * k], tail))
        eg = np.vstack((B, np.zeros((len(tail), 3))))
        mag = np.concatenate((np.abs(A) @ np.abs(x[: 6 * k]), np.abs(tail)))
    else:
        ef, eg, mag = A @ x, B, np.abs(A) @ np.abs(x)
    check(f.shape == ef.shape and np.all(np.abs(f - ef) <= 1e-6 * mag + 1e-12), lambda: f"{name}: f(x) = {f}, expected {ef}")
    check(g.shape == eg.shape and np.all(np.abs(g - eg) <= 1e-6 * np.abs(eg)), lambda: f"{name}: g(x) = {g}, expected {eg}")
    ctx.label(name)
    if np.any(x) and np.any(case["u"]):
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- predicted states
PRED = ["d2es", "d2is", "d3es", "d3is", "ies", "iis"]
PARAMS = [(Z.M0, Z.N0), (30.0, 0.04), (3.0, 0.011)]


def pred_case(name):
    dim = {"d2": 4, "d3": 6}.get(name[:2], 2)
    cd = Z.control_dim(name)
    return st.fixed_dictionaries(
        {
            "zoo": st.just(name),
            "par": st.integers(0, len(PARAMS) - 1),
            "method": st.sampled_from([None, "RK45", "Euler"]),
            "dt": st.sampled_from([1.0, 0.25, 5.0]),
            "p": gen.vec(dim // 2, -400.0, 400.0, special=(0.0,)),
            "v": gen.vec(dim // 2, -4.0, 4.0, special=(0.0,)),
            "u": gen.vec(cd, -2.0, 2.0, special=(0.0, 1.0)),
        }
    )


@subtest("C15", "pred", lambda: st.sampled_from(PRED).flatmap(pred_case), 300, rule="the step moves the state by more than the rounding error in every velocity component")
def pred(case, ctx):
    name, dt = case["zoo"], case["dt"]
    m, n = PARAMS[case["par"]]
    c = dict(case, m=m, n=n, deputies=1)
    kw = kwargs(c)
    if case["method"]:
        kw["integration_method"] = case["method"]
    method = case["method"] or ("Euler" if name.startswith("i") else "RK45")
    rta = Z.module(name, **kw)
    x, u = np.array(case["p"] + case["v"], float), np.array(case["u"], float)
    import jax.numpy as jnp

    out = np.array(rta._pred_state(jnp.array(x, jnp.float32), dt, jnp.array(u, jnp.float32)), float)
    A, B = exact(c)
    if method == "Euler":
        Ad, Bd = np.eye(len(x)) + dt * A, dt * B
    else:
        Ad, Bd = Z.zoh(A, B, dt)
    e = Ad @ x + Bd @ u
    mag = np.abs(Ad) @ np.abs(x) + np.abs(Bd) @ np.abs(u)
    # the adaptive integrator is run with absolute and relative tolerances of its own
    tol = 2e-6 * mag + 1e-7 if method == "Euler" else 3e-5 * mag + 3e-5
    check(out.shape == e.shape and np.all(np.abs(out - e) <= tol), lambda: f"{name} {kw} step {dt}: predicted {out}, expected {e} (difference {out - e}, tolerance {tol})")
    ctx.label(f"{name}-{method}")
    if np.all(np.abs(e - x)[len(x) // 2 :] > 10 * tol[len(x) // 2 :]):
        ctx.nontriv()


def method_of(obj, *names):
    """internal prediction functions: whichever of the names exists (None: the module does without them)"""
    for q in names:
        if callable(getattr(obj, q, None)):
            return getattr(obj, q)
    return None


# ------------------------------------------------------------------------------------------------- inspection prediction
@subtest(
    "C15",
    "pred_inspection",
    lambda: st.fixed_dictionaries(
        {"par": st.integers(0, 2), "sun": st.sampled_from([None, 0.02]), "dt": st.sampled_from([1.0, 10.0]), "cwh": st.booleans(), "z": gen.vec(6, -3.0, 3.0, special=(0.0,)), "scale": st.sampled_from([1.0, 100.0]), "ang": Z.ANGLE, "dv": gen.num(0.0, 20.0), "u": gen.vec(3, -1.0, 1.0, special=(0.0, 1.0))}
    ),
    160,
    rule="the control is not zero",
)
def pred_inspection(case, ctx):
    import jax.numpy as jnp

    m, n = PARAMS[case["par"]]
    kw = {"m": m, "n": n}
    if case["sun"] is not None:
        kw["sun_vel"] = case["sun"]
    rta = Z.module("i1", **kw)
    dt = case["dt"]
    x = np.array(case["z"], float)
    x[:3] *= case["scale"]
    u = np.array(case["u"], float)
    Ad, Bd = Z.zoh(*Z.cwh(m, n, 3), dt)
    e = Ad @ x + Bd @ u
    mag = np.abs(Ad) @ np.abs(x) + np.abs(Bd) @ np.abs(u)
    sun = -Z.N0 if case["sun"] is None else case["sun"]
    fn = method_of(rta, "_pred_state_cwh_fn", "_pred_state_cwh") if case["cwh"] else method_of(rta, "_pred_state_fn", "_pred_state")
    if fn is None:
        ctx.label("no such prediction function")
        return
    if case["cwh"]:
        out = np.array(fn(jnp.array(x, jnp.float32), dt, jnp.array(u, jnp.float32)), float)
    else:
        full = np.concatenate((x, [case["ang"], case["dv"]]))
        out = np.array(fn(jnp.array(full, jnp.float32), dt, jnp.array(u, jnp.float32)), float)
        e = np.concatenate((e, [case["ang"] + sun * dt, case["dv"] + np.sum(np.abs(u)) / m * dt]))
        mag = np.concatenate((mag, np.abs(e[6:]) + [1.0, 1.0]))
    tol = 2e-5 * mag + 1e-6
    check(out.shape == e.shape and np.all(np.abs(out - e) <= tol), lambda: f"Inspection1v1RTA({kw}) step {dt}: predicted {out}, expected {e} (difference {out - e}, tolerance {tol})")
    if np.any(u):
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- discrete inspection
@subtest(
    "C15",
    "discrete",
    lambda: st.fixed_dictionaries(
        {"m": MASS, "n": gen.logmag(1e-3, 0.3), "sun": SUN, "dt": gen.logmag(0.05, 20.0), "p": gen.vec(3, -400.0, 400.0, special=(0.0,)), "v": gen.vec(3, -2.0, 2.0, special=(0.0,)), "ang": Z.ANGLE, "dv": gen.num(0.0, 20.0), "u": gen.vec(3, -2.0, 2.0, special=(0.0, 1.0))}
    ),
    350,
    rule="n*dt is large enough for the orbital coupling to exceed the rounding error",
)
def discrete(case, ctx):
    import jax
    import jax.numpy as jnp

    m, n, dt = case["m"], case["n"], case["dt"]
    kw = {"m": m, "n": n}
    if case["sun"] is not None:
        kw["sun_vel"] = case["sun"]
    with jax.disable_jit():
        rta = Z.make("i1d", **kw)
        z = np.array(case["p"] + case["v"] + [case["ang"], case["dv"]], float)
        u = np.array(case["u"], float)
        out = np.array(rta.next_state_differentiable(jnp.array(z, jnp.float32), dt, jnp.array(u, jnp.float32)), float)
    A, B = Z.cwh(m, n, 3)
    Ad, Bd = Z.zoh(A, B, dt)
    e = Ad @ z[:6] + Bd @ u
    mag = np.abs(Ad) @ np.abs(z[:6]) + np.abs(Bd) @ np.abs(u)
    # the closed forms cancel in float32: an error of eps*(n dt) in the sine is amplified by 1/n, 1/n^2
    x = max(1.0, n * dt)
    eps = 6e-7
    aerr = np.zeros((6, 6))
    aerr[:3, :3] = 8 * eps * x
    aerr[:3, 3:] = 8 * eps * x / n
    aerr[3:, :3] = 8 * eps * n * x
    aerr[3:, 3:] = 8 * eps * x
    berr = np.vstack((8 * eps * x / n**2 * np.ones((3, 3)), 8 * eps * x / n * np.ones((3, 3)))) / m
    tol = 3e-6 * mag + aerr @ np.abs(z[:6]) + berr @ np.abs(u) + 1e-9
    check(out.shape == (8,) and np.all(np.abs(out[:6] - e) <= tol), lambda: f"DiscreteInspection1v1RTA({kw}) step {dt}: next state {out[:6]}, expected {e} (difference {out[:6] - e}, tolerance {tol})")
    sun = -Z.N0 if case["sun"] is None else case["sun"]
    check(abs(out[6] - (case["ang"] + sun * dt)) <= 2e-6 * (1 + abs(case["ang"]) + abs(sun) * dt), f"sun angle {out[6]}, expected {case['ang'] + sun * dt}")
    free = z[:6] + dt * np.concatenate((z[3:6], u / m))
    ctx.label("n dt > 0.1" if n * dt > 0.1 else "n dt <= 0.1")
    if np.any(np.abs(e - free) > 10 * tol):
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- backup controllers
@subtest(
    "C15",
    "lqr",
    lambda: st.fixed_dictionaries(
        {"dim": st.sampled_from([2, 3]), "via": st.sampled_from(["controller", "es", "is", "io"]), "m": gen.logmag(2.0, 80.0), "n": gen.logmag(8e-4, 0.03), "other": st.sampled_from([None, "m", "n"]), "p": gen.vec(3, -500.0, 500.0, special=(0.0,)), "v": gen.vec(3, -4.0, 4.0, special=(0.0,)), "dt": st.sampled_from([1.0, 0.1])}
    ),
    160,
    rule="the velocity is not zero and mass and mean motion differ from the defaults",
)
def lqr(case, ctx):
    import jax
    import jax.numpy as jnp

    dim, m, n = case["dim"], case["m"], case["n"]
    with jax.disable_jit():
        if case["other"]:  # another controller with one parameter in common was built before
            from run_time_assurance.zoo.cwh import docking_2d, docking_3d

            kw = {"m": m, "n": n, case["other"]: (m if case["other"] == "m" else n) * 2.0}
            (docking_2d.Docking2dStopLQRBackupController if dim == 2 else docking_3d.Docking3dStopLQRBackupController)(**kw)
        if case["via"] == "controller":
            from run_time_assurance.zoo.cwh import docking_2d, docking_3d

            ctl = (docking_2d.Docking2dStopLQRBackupController if dim == 2 else docking_3d.Docking3dStopLQRBackupController)(m=m, n=n)
        else:
            ctl = Z.make(f"d{dim}{case['via']}", m=m, n=n).backup_controller
        z = np.array(case["p"][:dim] + case["v"][:dim], float)
        u = np.array(ctl.generate_control(jnp.array(z, jnp.float32), case["dt"]), float)
    try:
        K = lqr_gain(dim, m, n)
    except Exception:  # pole placement failed: no reference
        ctx.label("no reference gain")
        return
    A, B = Z.cwh(m, n, dim)
    # certificate that the reference gain is the stabilising solution
    if np.max(np.linalg.eigvals(A - B @ K).real) >= 0:
        ctx.label("no reference gain")
        return
    e = -K @ np.concatenate((np.zeros(dim), z[dim:]))
    tol = 2e-4 * (np.abs(K) @ np.abs(np.concatenate((np.zeros(dim), z[dim:])))) + 1e-6
    check(u.shape == e.shape and np.all(np.abs(u - e) <= tol), lambda: f"{dim}D LQR backup (m={m}, n={n}) at {z}: {u}, expected {e}")
    ctx.label(f"{dim}D-{case['via']}")
    if np.any(z[dim:]):
        ctx.nontriv()


@subtest(
    "C15",
    "integrator_backup",
    lambda: st.fixed_dictionaries({"via": st.sampled_from(["ies", "iis", "iio"]), "m": gen.logmag(0.2, 20.0), "z": gen.vec(2, -50.0, 50.0, special=(0.0,)), "dt": st.sampled_from([1.0, 0.1])}),
    80,
    rule="every case",
)
def integrator_backup(case, ctx):
    import jax
    import jax.numpy as jnp

    with jax.disable_jit():
        rta = Z.make(case["via"], m=case["m"])
        u = np.array(rta.backup_controller.generate_control(jnp.array(case["z"], jnp.float32), case["dt"]), float)
    check(u.shape == (1,) and u[0] == -1.0, f"integrator backup control {u}, expected full braking [-1]")
    ctx.nontriv()


# ------------------------------------------------------------------------------------------------- state wrappers
WRAP = {
    "Docking2dState": ("docking_2d", ["x", "y", "x_dot", "y_dot"]),
    "Docking3dState": ("docking_3d", ["x", "y", "z", "x_dot", "y_dot", "z_dot"]),
    "Inspection3dState": ("inspection_1v1", ["x", "y", "z", "x_dot", "y_dot", "z_dot", "sun_angle", "delta_v"]),
    "Integrator1dDockingState": ("integrator_1d", ["x", "x_dot"]),
}


def wrap_strategy():
    def rest(name):
        n = len(WRAP[name][1])
        op = st.tuples(st.integers(0, n - 1), gen.num(-100.0, 100.0, special=(0.0,)))
        return st.fixed_dictionaries({"cls": st.just(name), "z": gen.vec(n, -100.0, 100.0, special=(0.0,)), "np": st.booleans(), "ops": st.lists(op, max_size=6)})

    return st.sampled_from(sorted(WRAP)).flatmap(rest)


@subtest("C15", "wrappers", wrap_strategy, 300, rule="at least two components are written")
def wrappers(case, ctx):
    import importlib

    import jax.numpy as jnp

    mod, fields = WRAP[case["cls"]]
    pkg = "integrators" if mod.startswith("integrator") else "cwh"
    cls = getattr(importlib.import_module(f"run_time_assurance.zoo.{pkg}.{mod}"), case["cls"])
    src = np.array(case["z"], np.float32)
    keep = src.copy()
    w = cls(src if case["np"] else jnp.array(src))
    model = [float(v) for v in case["z"]]

    def compare(what):
        got = [float(getattr(w, f)) for f in fields]
        check(got == model, f"{case['cls']} after {what}: components {got}, expected {model}")
        check([float(v) for v in np.array(w.vector)] == model, f"{case['cls']} after {what}: vector {w.vector}, expected {model}")
        check(w.size == len(model) and len(w) == len(model), f"size {w.size}, len {len(w)}, expected {len(model)}")

    compare("construction")
    for i, v in case["ops"]:
        setattr(w, fields[i], v)
        model[i] = float(v)
        compare(f"setting {fields[i]}={v}")
    check(np.array_equal(src, keep), f"{case['cls']}: the caller's array was modified")
    if len({i for i, _ in case["ops"]}) >= 2:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- relations
@subtest(
    "C15",
    "relations",
    lambda: st.fixed_dictionaries(
        {"fam": st.sampled_from(["d2", "d3"]), "par": st.integers(0, 2), "kind": st.sampled_from(["odd", "superposition", "along-track shift", "planar", "compose"]), "a": gen.vec(6, -3.0, 3.0), "b": gen.vec(6, -3.0, 3.0), "u": gen.vec(3, -1.0, 1.0), "w": gen.vec(3, -1.0, 1.0)}
    ),
    200,
    rule="every case (states and controls are generic)",
)
def relations(case, ctx):
    """metamorphic relations of the linear time invariant dynamics (no reference solution involved)"""
    import jax.numpy as jnp

    dim = 2 if case["fam"] == "d2" else 3
    m, n = PARAMS[case["par"]]
    rta = Z.module(case["fam"] + "es", m=m, n=n)

    def step(x, u, dt=1.0, r=rta):
        return np.array(r._pred_state(jnp.array(x, jnp.float32), dt, jnp.array(u, jnp.float32)), float)

    sel = [0, 1, 3, 4] if dim == 2 else list(range(6))
    a, b = np.array(case["a"], float)[sel], np.array(case["b"], float)[sel]
    a[:dim] *= 50
    b[:dim] *= 50
    u, w = np.array(case["u"][:dim], float), np.array(case["w"][:dim], float)
    tol = 3e-5 * (1 + np.max(np.abs(a)) + np.max(np.abs(b)))
    if case["kind"] == "odd":
        l, r = step(-a, -u), -step(a, u)
    elif case["kind"] == "superposition":
        l, r = step(a + b, u + w), step(a, u) + step(b, w)
    elif case["kind"] == "along-track shift":
        s = np.zeros(2 * dim)
        s[1] = 40.0 * case["w"][0]
        l, r = step(a + s, u), step(a, u) + s
    elif case["kind"] == "compose":
        l, r = step(a, u, 1.0), step(step(a, u, 0.25), u, 0.25)
        r = step(step(r, u, 0.25), u, 0.25)
    else:
        r3 = Z.module("d3es", m=m, n=n)
        r2 = Z.module("d2es", m=m, n=n)
        a3 = np.array(case["a"], float)
        a3[:3] *= 50
        a3[2] = a3[5] = 0.0
        u3 = np.array([case["u"][0], case["u"][1], 0.0])
        l3 = step(a3, u3, 1.0, r3)
        check(l3[2] == 0.0 and l3[5] == 0.0, f"planar motion leaves the plane: {l3}")
        l, r = l3[[0, 1, 3, 4]], step(a3[[0, 1, 3, 4]], u3[:2], 1.0, r2)
    check(np.all(np.abs(l - r) <= tol), lambda: f"{case['kind']} fails for {case['fam']} (m={m}, n={n}): {l} against {r}")
    ctx.label(case["kind"])
    ctx.nontriv()
