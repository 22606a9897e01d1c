"""C05/C06: a switching filter switches exactly when the predicted state / backup trajectory is unsafe."""
import numpy as np
from hypothesis import strategies as st

from rtav import gen, pools, systems as S, zoo as Z
from rtav.core import check, subtest
from rtav.simplex_model import SimplexModel, n_steps

STEPS = [0.1, 0.125, 0.25, 0.3, 0.5]


def one_call(pool, case, ctx):
    spec = pool[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    simplex_call(rta, spec, case, ctx)


def simplex_call(rta, spec, case, ctx):
    """one call of an unlatched filter with stateless (or fresh) backup controller judged by the model"""
    model = SimplexModel(spec, case)
    ud = np.array(case["ud"], float)
    dt = case["dt"]
    u = rta.filter_control(model.ref.z(), dt, ud)
    exp, tol = model.call(model.ref.x, dt, ud)
    if exp is None:
        ctx.label("ambiguous")
        return
    ctx.label(model.why)
    check(rta.intervening == model.intervening, f"intervening is {rta.intervening}, but the least constraint value is {model.h} (at predicted state {model.where})")
    check(np.shape(u) == exp.shape and np.all(np.abs(u - exp) <= tol), f"control {u}, expected {exp} ({model.why}; least constraint value {model.h})")
    if model.why == "switch":
        if model.where > 0:
            ctx.label("unsafe later on the trajectory")
        ctx.nontriv()


def with_dt(spec):
    return {"dt": st.sampled_from(STEPS)}


@subtest("C05", "generic", lambda: S.case_strategy(pools.ESIMPLEX, with_dt), 500, rule="the filter switches to the backup controller")
def c05_generic(case, ctx):
    one_call(pools.ESIMPLEX, case, ctx)


@subtest("C06", "generic", lambda: S.case_strategy(pools.ISIMPLEX, with_dt, xr=1.5), 420, rule="the filter switches to the backup controller")
def c06_generic(case, ctx):
    one_call(pools.ISIMPLEX, case, ctx)


# ------------------------------------------------------------------------------------------- exactly at the boundary
TINY = [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 5e-5, 1e-4, 1e-3, 1e-2]


def boundary_strategy(pool):
    """constraints of constant, exactly representable value: 0 is safe, anything below is not, however little"""
    usable = [i for i, s in enumerate(pool) if not any(c.get("bias") for c in s["constraints"])]

    def one(i):
        s = pool[i]
        n, m = s["n"], s["m"]
        con = st.fixed_dictionaries({"r": st.tuples(st.sampled_from(TINY), st.sampled_from([1.0, 1.0, -1.0])).map(lambda t: t[0] * t[1]), "on": st.integers(0, 9).map(bool)})
        return st.fixed_dictionaries({
            "spec": st.just(i), **S.system_fields(n, m, 1.5), "ud": gen.vec(m, -2.0, 2.0), "dt": st.sampled_from(STEPS),
            "cons": st.lists(con, min_size=len(s["constraints"]), max_size=len(s["constraints"])),
        })

    return lambda: st.sampled_from(usable).flatmap(one)


def boundary(pool):
    def fn(case, ctx):
        spec = pool[case["spec"]]
        n = spec["n"]
        case = dict(case, cons=[dict(c, q=[0.0] * n, P=[0.0] * (n * n)) for c in case["cons"]])
        rta = S.module(spec)
        rta.reset()
        S.apply_params(rta, spec, case)
        ref = S.Ref(spec, case)
        ud = np.array(case["ud"], float)
        u = rta.filter_control(ref.z(), case["dt"], ud)
        worst = min([c["r"] for c in case["cons"] if c["on"]], default=np.inf)
        check(rta.intervening == (worst < 0), f"least constraint value is exactly {worst}, intervening is {rta.intervening}")
        if worst >= 0:
            check(np.allclose(u, ref.clip(ud), atol=1e-6, rtol=1e-6), f"least constraint value {worst}, but control {u}, desired {ud}")
        elif worst > -1e-3:
            ctx.nontriv()
        ctx.label("0" if worst == 0 else "below" if worst < 0 else "above")

    return fn


for _p, _pool in (("C05", pools.ESIMPLEX), ("C06", pools.ISIMPLEX)):
    subtest(_p, "boundary", boundary_strategy(_pool), 60, rule="a constraint is violated by less than 0.001")(boundary(_pool))


# ------------------------------------------------------------------------------------------------- zoo modules
def lqr_gain(dim, m=Z.M0, n=Z.N0):
    """gain of the docking backup controllers by an independent solution of the Riccati equation (Kleinman iteration)"""
    from scipy.linalg import solve_continuous_lyapunov
    from scipy.signal import place_poles

    A, B = Z.cwh(m, n, dim)
    Q, R = 0.05 * np.eye(2 * dim), 1000.0 * np.eye(dim)
    poles = -np.linspace(0.01, 0.02, 2 * dim)
    K = place_poles(A, B, poles).gain_matrix
    for _ in range(60):
        Ac = A - B @ K
        P = solve_continuous_lyapunov(Ac.T, -(Q + K.T @ R @ K))
        Kn = np.linalg.solve(R, B.T @ P)
        if np.max(np.abs(Kn - K)) < 1e-13:
            break
        K = Kn
    return Kn


_K = {}
ZOO_E = [
    ("d2es", {}), ("d3es", {}), ("ies", {}),
    ("d2es", {"m": 6.0, "n": 0.002, "v0": 0.5, "v1_coef": 3, "x_vel_limit": 2.0, "y_vel_limit": 3.0, "control_bounds_high": [0.5, 0.25], "control_bounds_low": -0.5}),
    ("d3es", {"m": 20.0, "v0": 0.125, "v1_coef": 2, "v0_distance": 5.0, "x_vel_limit": 1.0, "y_vel_limit": 4.0, "z_vel_limit": 2.0, "control_bounds_low": [-0.5, -1.0, -0.25], "integration_method": "Euler"}),
    ("ies", {"m": 2.0, "integration_method": "RK45", "control_bounds_high": 0.5}),
    ("d2es", {"backup": [0.25, 0.125]}), ("d3es", {"backup": [0.5, -0.125]}), ("ies", {"backup": [0.5, -0.25]}),
]
ZOO_I = [
    ("d2is", {}), ("d3is", {}), ("iis", {}),
    ("d2is", {"m": 6.0, "n": 0.002, "v0": 0.5, "v1_coef": 3, "x_vel_limit": 2.0, "y_vel_limit": 3.0, "control_bounds_high": [0.5, 0.25], "control_bounds_low": -0.5, "backup_window": 3, "integration_method": "Euler"}),
    ("d3is", {"m": 20.0, "v0": 0.125, "v1_coef": 2, "v0_distance": 5.0, "x_vel_limit": 1.0, "y_vel_limit": 4.0, "z_vel_limit": 2.0, "control_bounds_low": [-0.5, -1.0, -0.25], "backup_window": 8}),
    ("iis", {"m": 2.0, "integration_method": "RK45", "control_bounds_low": -0.5, "backup_window": 3}),
    ("d2is", {"backup": [0.25, 0.125]}), ("d3is", {"backup": [0.5, -0.125], "backup_window": 3}), ("iis", {"backup": [0.5, -0.25]}),
]


class ZooModel:
    """mathematics of a docking / integrator module with the given constructor arguments"""

    def __init__(self, name, kw):
        self.name, self.kw = name, kw
        self.dim = {"d2": 2, "d3": 3}.get(name[:2], 1)
        self.docking = name.startswith("d")
        self.m = kw.get("m", Z.M0 if self.docking else 1.0)
        self.n = kw.get("n", Z.N0)
        self.low = np.broadcast_to(np.array(kw.get("control_bounds_low", -1.0), float), (self.dim,))
        self.high = np.broadcast_to(np.array(kw.get("control_bounds_high", 1.0), float), (self.dim,))
        self.A, self.B = Z.cwh(self.m, self.n, self.dim) if self.docking else Z.integrator_mats(self.m)
        self.euler = kw.get("integration_method", "RK45" if self.docking else "Euler") == "Euler"
        self.window = kw.get("backup_window", 5 if self.docking else 2)
        self.v0, self.v0d = kw.get("v0", 0.2), kw.get("v0_distance", 0.0)
        self.v1 = kw.get("v1_coef", 2 if self.dim == 2 else 4) * self.n
        self.limits = [kw.get(k + "_vel_limit", 10.0) for k in "xyz"[: self.dim]]

    def clip(self, u):
        return np.minimum(np.maximum(u, self.low), self.high)

    def step(self, x, dt, u):
        if self.euler:
            return x + dt * (self.A @ x + self.B @ u)
        Ad, Bd = Z.zoh(self.A, self.B, dt)
        return Ad @ x + Bd @ u

    def gain(self):
        if "backup" in self.kw:
            return np.hstack((np.zeros((self.dim, self.dim)), self.kw["backup"][0] * np.eye(self.dim)))
        key = (self.dim, self.m, self.n)
        if key not in _K:
            _K[key] = lqr_gain(*key)
        return _K[key]

    def backup(self, x):
        if "backup" in self.kw:
            k, b = self.kw["backup"]
            return b - k * x[self.dim :]
        if not self.docking:
            return np.array([-1.0])
        return -self.gain() @ np.concatenate((np.zeros(self.dim), x[self.dim :]))

    def h(self, x):
        """[(constraint value, uncertainty)]"""
        if self.name in ("ies", "ieo"):
            return [(-2 * x[0] - x[1] ** 2, 1e-5 * (2 * abs(x[0]) + x[1] ** 2 + 0.01))]
        if not self.docking:
            return [(-x[0], 1e-5 * (abs(x[0]) + abs(x[1]) + 0.01))]
        p, v = x[: self.dim], x[self.dim :]
        out = [(Z.h_rel_vel(p, v, self.v0, self.v1, self.v0d) - 1e-4, 2e-5 * (0.2 + self.v1 * np.linalg.norm(p) + 3 * np.linalg.norm(v)))]
        return out + [(lim * lim - c * c, 1e-4 * (lim * lim + c * c)) for lim, c in zip(self.limits, v)]

    def states(self):
        if not self.docking:
            return Z.integrator_state()
        far = 5000.0 if min(self.limits) > 5 else 1500.0

        def mk(t):
            pd, r, vd, fac = t
            return Z._sv(pd, r) + Z._sv(vd, fac * max(self.v0 + self.v1 * (r - self.v0d), 0.05))

        return st.tuples(gen.direction(self.dim), gen.logmag(0.05, far), gen.direction(self.dim), gen.num(0.0, 1.4, special=(0.0, 1.0, 0.98))).map(mk)


def zoo_case(entries, case, ctx):
    name, kw = entries[case["entry"]]
    dt = case["dt"]
    rta = Z.module(name, **kw)
    rta.reset()
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    u = rta.filter_control(z, dt, ud)
    mdl = ZooModel(name, kw)
    c = mdl.clip(ud)
    x = mdl.step(z, dt, c)
    traj = [x]
    if name.endswith("is"):
        for _ in range(n_steps(mdl.window, dt)):
            x = mdl.step(x, dt, mdl.clip(mdl.backup(x)))
            traj.append(x)
    vals = [h for t in traj for h in mdl.h(t)]
    bad = any(h < -e for h, e in vals)
    good = all(h > e for h, e in vals)
    if not bad and not good:
        ctx.label("ambiguous")
        return
    ctx.label(f"{name}-{'switch' if bad else 'pass'}")
    worst = min(vals)
    check(rta.intervening == bad, f"{name} {kw}: intervening is {rta.intervening}, least constraint value {worst}")
    exp = mdl.clip(mdl.backup(z)) if bad else c
    check(np.allclose(u, exp, atol=2e-4, rtol=2e-4), f"{name} {kw}: control {u}, expected {exp} ({'backup' if bad else 'desired'})")
    if bad:
        ctx.nontriv()


def zoo_strategy(entries):
    def one(i):
        name, kw = entries[i]
        return st.fixed_dictionaries({"entry": st.just(i), "z": ZooModel(name, kw).states(), "ud": Z.ud_for(name), "dt": st.sampled_from([1.0, 0.5])})

    return lambda: st.integers(0, len(entries) - 1).flatmap(one)


subtest("C05", "zoo", zoo_strategy(ZOO_E), 400, rule="the zoo filter switches to its backup controller")(lambda case, ctx: zoo_case(ZOO_E, case, ctx))
subtest("C06", "zoo", zoo_strategy(ZOO_I), 320, rule="the zoo filter switches to its backup controller")(lambda case, ctx: zoo_case(ZOO_I, case, ctx))
