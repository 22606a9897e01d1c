"""A family of control affine systems whose matrices are part of the rta state.

rta state z = [x(n), A(n*n), B(n*m), K(m*n), k0(m)], with

    x' = A x + c sin(reversed x) + B (1 + 0.25 tanh(x[0])) u,         all other entries constant
    backup control u_b = k0 - K x (+ controller state, for the stateful variants)
    constraints h(x) = r + q.x + x'Px   with {r, q, P} in ConstraintModule.params

so one compiled rta module is exercised with a different system, backup controller and constraint in every case.
Only the documented extension points of the library are used. Next to each library object stands its float64 reference.
"""
from __future__ import annotations

import collections
import functools
import json

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen
from rtav.ref import QP
from run_time_assurance.constraint import (
    ConstraintModule,
    ConstraintStrengthener,
    DirectInequalityConstraint,
    PolynomialConstraintStrengthener,
)
from run_time_assurance.controller import RTABackupController
from run_time_assurance.rta import (
    DiscreteASIFModule,
    ExplicitASIFModule,
    ExplicitSimplexModule,
    ImplicitASIFModule,
    ImplicitSimplexModule,
)

NL = 0.2  # coefficient of the sin term
OrderedDict = collections.OrderedDict


# ----------------------------------------------------------------------------------------------- library side
def unpack(z, n, m):
    i = n
    A = z[i : i + n * n].reshape(n, n)
    i += n * n
    B = z[i : i + n * m].reshape(n, m)
    i += n * m
    K = z[i : i + n * m].reshape(m, n)
    i += n * m
    return z[:n], A, B, K, z[i : i + m]


def zdim(n, m):
    return n + n * n + 2 * n * m + m


class QuadConstraint(ConstraintModule):
    """h = r + q.x + x'Px"""

    def __init__(self, n, scale=None, **kw):
        self.n = n
        params = {"r": np.float32(0.0), "q": np.zeros(n, np.float32), "P": np.zeros((n, n), np.float32)}
        super().__init__(params=params, **kw)

    def _compute(self, state, params):
        x = state[: self.n]
        return params["r"] + params["q"] @ x + x @ (params["P"] @ x)


class PhiConstraint(QuadConstraint):
    """reports phi = h + 7 (phi is only for logging)"""

    def _phi(self, state, params):
        return self._compute(state, params) + 7.0


class TanhStrengthener(ConstraintStrengthener):
    """a custom strengthening function"""

    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return self.a * jnp.tanh(x)


class DirectRow(DirectInequalityConstraint):
    """(w0 + W x) u >= d0 + d.x"""

    def __init__(self, n, m, enabled=True):
        self.n = n
        super().__init__(enabled=enabled, params={"w": np.zeros(m, np.float32), "W": np.zeros((m, n), np.float32), "d0": np.float32(-1.0), "d": np.zeros(n, np.float32)})

    def ineq_weight(self, state, params):
        return params["w"] + params["W"] @ state[: self.n]

    def ineq_constant(self, state, params):
        return params["d0"] + params["d"] @ state[: self.n]


class AffineBackup(RTABackupController):
    """stateless u_b = k0 - K x"""

    def __init__(self, n, m, **kw):
        self.nm = (n, m)
        super().__init__(**kw)

    def _generate_control(self, state, step_size, controller_state=None):
        x, _, _, K, k0 = unpack(state, *self.nm)
        return k0 - K @ x, None


class IntegralBackup(RTABackupController):
    """stateful u_b = k0 - (1 + 0.25 s) K x - 0.25 s;  s += step_size * tanh(K x)   (array or dict controller state)"""

    def __init__(self, n, m, as_dict=False, in_place=False, jit_enable=True, **kw):
        self.nm = (n, m)
        self.as_dict = as_dict
        self.in_place = in_place
        s0 = jnp.full(m, 0.125)
        super().__init__(controller_state_initial={"s": s0} if as_dict else s0, jit_enable=jit_enable, **kw)

    def _generate_control(self, state, step_size, controller_state=None):
        x, _, _, K, k0 = unpack(state, *self.nm)
        s = controller_state["s"] if self.as_dict else controller_state
        u = k0 - (1 + 0.25 * s) * (K @ x) - 0.25 * s
        new = s + step_size * jnp.tanh(K @ x)
        if self.in_place:  # a controller that updates the dictionary it was given
            controller_state["s"] = new
            return u, controller_state
        return u, ({"s": new} if self.as_dict else new)


def strengthener(spec):
    if spec is None:
        return None
    if isinstance(spec, dict):
        return TanhStrengthener(spec["tanh"])
    return PolynomialConstraintStrengthener(list(spec))


class _Sys:
    """mixin with the dynamics and the constraints given by self.spec"""

    def _init_spec(self, spec):
        self.spec = spec
        self.n, self.m = spec["n"], spec["m"]

    def _f(self, z):
        x, A, _, _, _ = unpack(z, self.n, self.m)
        return jnp.concatenate((A @ x + NL * jnp.sin(x[::-1]), jnp.zeros(z.shape[0] - self.n)))

    def _g(self, z):
        x, _, B, _, _ = unpack(z, self.n, self.m)
        return jnp.vstack((B * (1.0 + 0.25 * jnp.tanh(x[0])), jnp.zeros((z.shape[0] - self.n, self.m))))

    def _setup_constraints(self):
        out = OrderedDict()
        for i, c in enumerate(self.spec["constraints"]):
            kw = dict(
                alpha=strengthener(c.get("alpha", [0, 1.0])),
                alpha_negative=strengthener(c.get("alpha_negative")),
                bias=c.get("bias", 0),
            )
            if "bias_negative" in c:
                kw["bias_negative"] = c["bias_negative"]
            if c.get("slack") is not None:
                kw["slack_priority_scale"] = c["slack"]
            kw.update(c.get("subsample", {}))
            if c.get("off0"):  # built disabled, switched on (or not) by the case
                kw["enabled"] = False
            cls = PhiConstraint if c.get("phi") else QuadConstraint
            out[c.get("name", f"c{i}")] = cls(self.n, **kw)
        return out

    def _setup_direct_constraints(self):
        return OrderedDict((f"d{i}", DirectRow(self.n, self.m, enabled=not (i == 0 and self.spec.get("direct_off0")))) for i in range(self.spec.get("direct", 0)))

    def _euler(self, z, dt, u):
        return z + dt * (self._f(z) + self._g(z) @ u)


def _backup(spec):
    kind = spec.get("backup", "affine")
    if kind == "affine":
        return AffineBackup(spec["n"], spec["m"])
    return IntegralBackup(spec["n"], spec["m"], as_dict=(kind in ("dict", "inplace")), in_place=(kind == "inplace"), jit_enable=spec.get("backup_jit", False))


def _bound(b):
    """bound spec -> constructor argument"""
    if isinstance(b, dict):  # {"array": [...]}
        return np.array(b["array"], float)
    return b


class GExplicitASIF(_Sys, ExplicitASIFModule):
    def __init__(self, spec, **kw):
        self._init_spec(spec)
        super().__init__(control_dim=spec["m"], **kw)

    def state_transition_system(self, state):
        return self._f(state)

    def state_transition_input(self, state):
        return self._g(state)


class GImplicitASIF(_Sys, ImplicitASIFModule):
    def __init__(self, spec, **kw):
        self._init_spec(spec)
        super().__init__(
            control_dim=spec["m"],
            backup_window=spec.get("backup_window", 1.0),
            backup_controller=_backup(spec),
            integration_method=spec.get("integration_method", "Euler"),
            **kw,
        )

    def state_transition_system(self, state):
        return self._f(state)

    def state_transition_input(self, state):
        return self._g(state)


class GExplicitSimplex(_Sys, ExplicitSimplexModule):
    def __init__(self, spec, **kw):
        self._init_spec(spec)
        super().__init__(backup_controller=_backup(spec), latch_time=spec.get("latch_time", 0), **kw)

    def _pred_state(self, state, step_size, control):
        return self._euler(state, step_size, control)


class GImplicitSimplex(_Sys, ImplicitSimplexModule):
    def __init__(self, spec, **kw):
        self._init_spec(spec)
        super().__init__(
            backup_controller=_backup(spec), backup_window=spec.get("backup_window", 1.0), latch_time=spec.get("latch_time", 0), **kw
        )

    def _pred_state(self, state, step_size, control):
        return self._euler(state, step_size, control)


class GDiscreteASIF(_Sys, DiscreteASIFModule):
    def __init__(self, spec, **kw):
        self._init_spec(spec)
        super().__init__(control_dim=spec["m"], **kw)

    def next_state_differentiable(self, state, step_size, control):
        return self._euler(state, step_size, control)


def _discrete_integrator():
    from run_time_assurance.rta.asif import DiscreteASIFIntegratorModule

    class GDiscreteInt(_Sys, DiscreteASIFIntegratorModule):
        def __init__(self, spec, **kw):
            self._init_spec(spec)
            super().__init__(control_dim=spec["m"], **kw)

        def compute_state_dot(self, t, state, control):
            return self._f(state) + self._g(state) @ control

    return GDiscreteInt


KINDS = {
    "easif": lambda: GExplicitASIF,
    "iasif": lambda: GImplicitASIF,
    "esimplex": lambda: GExplicitSimplex,
    "isimplex": lambda: GImplicitSimplex,
    "discrete": lambda: GDiscreteASIF,
    "discrete_int": _discrete_integrator,
}
OPTIM = ("easif", "iasif", "discrete", "discrete_int")


def build(spec, cls=None):
    """construct the rta module of a spec (dict), optionally as an instance of a subclass"""
    kw = {"control_bounds_low": _bound(spec.get("low")), "control_bounds_high": _bound(spec.get("high"))}
    if spec.get("no_jit"):
        kw["jit_enable"] = False
    if spec["kind"] in OPTIM:
        if "epsilon" in spec:
            kw["epsilon"] = spec["epsilon"]
        if spec.get("solver_exception"):
            kw["solver_exception"] = True
    if "constraints_to_use" in spec:
        kw["constraints_to_use"] = spec["constraints_to_use"]
    if "jit_compile_dict" in spec:
        kw["jit_compile_dict"] = dict(spec["jit_compile_dict"])
    return (cls or KINDS[spec["kind"]]())(spec, **kw)


@functools.lru_cache(maxsize=None)
def _cached(key):
    return build(json.loads(key))


def module(spec):
    """shared instance of the spec (compiled once per process); callers reset() it first"""
    return _cached(json.dumps(spec, sort_keys=True))


# ------------------------------------------------------------------------------------------------- reference side
class Ref:
    """float64 reference of the system of one case"""

    def __init__(self, spec, case):
        self.spec = spec
        self.n, self.m = spec["n"], spec["m"]
        g = lambda k, *s: np.array(case[k], float).reshape(*s)  # noqa: E731
        self.x = grid_x(case)
        self.A, self.B = g("A", self.n, self.n), g("B", self.n, self.m)
        self.K, self.k0 = g("K", self.m, self.n), g("k0", self.m)
        self.low, self.high = self.bounds()

    def bounds(self):
        out = []
        for key, default in (("low", -np.inf), ("high", np.inf)):
            b = self.spec.get(key)
            if b is None:
                out.append(np.full(self.m, default))
            else:
                b = b["array"] if isinstance(b, dict) else b
                out.append(np.broadcast_to(np.array(b, float), (self.m,)).copy())
        return out

    def z(self, x=None):
        x = self.x if x is None else np.asarray(x, float)
        return np.concatenate((x, self.A.ravel(), self.B.ravel(), self.K.ravel(), self.k0)).astype(np.float64)

    def clip(self, u):
        return np.minimum(np.maximum(np.asarray(u, float), self.low), self.high)

    def f(self, x):
        return self.A @ x + NL * np.sin(x[::-1])

    def g(self, x):
        return self.B * (1 + 0.25 * np.tanh(x[0]))

    def ub(self, x, s=None):
        u = self.k0 - self.K @ x
        return u if s is None else u - 0.25 * s * (self.K @ x) - 0.25 * s

    def s_next(self, x, s, dt):
        return None if s is None else s + dt * np.tanh(self.K @ x)

    def s0(self):
        return None if self.spec.get("backup", "affine") == "affine" else np.full(self.m, 0.125)

    def closed(self, x, s=None):
        """f + g u_b with the unclipped backup control"""
        return self.f(x) + self.g(x) @ self.ub(x, s)

    def jac(self, x, s=None):
        """jacobian of closed() (analytic)"""
        n = self.n
        J = self.A.copy()
        for i in range(n):
            J[i, n - 1 - i] += NL * np.cos(x[n - 1 - i])
        J -= self.g(x) @ (self.K if s is None else (1 + 0.25 * s)[:, None] * self.K)
        t = np.tanh(x[0])
        J[:, 0] += 0.25 * (1 - t * t) * (self.B @ self.ub(x, s))
        return J

    def step(self, x, dt, u):
        return x + dt * (self.f(x) + self.g(x) @ u)


def grid_x(case):
    x = np.array(case["x"], float)
    return np.round(x * 8) / 8 if case.get("grid") else x


def h_val(par, x):
    return par["r"] + par["q"] @ x + x @ par["P"] @ x


def h_abs(par, x):
    ax = np.abs(x)
    return abs(par["r"]) + np.abs(par["q"]) @ ax + ax @ np.abs(par["P"]) @ ax


def h_grad(par, x):
    return par["q"] + (par["P"] + par["P"].T) @ x


def alpha_ref(spec, x):
    """value and derivative bound of a strengthening function"""
    if isinstance(spec, dict):
        a = spec["tanh"]
        return a * np.tanh(x), abs(a), abs(a * np.tanh(x))
    v = sum(c * x**i for i, c in enumerate(spec))
    d = sum(abs(i * c * x ** (i - 1)) for i, c in enumerate(spec) if i)
    return v, d, sum(abs(c * x**i) for i, c in enumerate(spec))


def exact_zero(case, i, bias):
    """is h of constraint i exactly 0 at x, without rounding?"""
    e = case["cons"][i].get("edge")
    return not bias and (e == "zero" or (e == "on" and bool(case.get("grid"))))


def case_params(case, i, n):
    c = case["cons"][i]
    if c.get("edge") == "zero":  # h == 0 everywhere
        return {"r": 0.0, "q": np.zeros(n), "P": np.zeros((n, n))}
    if c.get("edge") == "on" and case.get("grid"):  # h == 0 exactly at x: all numbers are multiples of 1/8
        q = np.round(np.array(c["q"], float) * 8) / 8
        return {"r": -float(q @ grid_x(case)), "q": q, "P": np.zeros((n, n))}
    return {"r": float(c["r"]), "q": np.array(c["q"], float), "P": np.array(c["P"], float).reshape(n, n)}


def lib_params(p):
    return {"r": np.float32(p["r"]), "q": p["q"].astype(np.float32), "P": p["P"].astype(np.float32)}


def direct_params(case, i, n, m):
    d = case["direct"][i]
    return {"w": np.array(d["w"], float), "W": np.array(d["W"], float).reshape(m, n), "d0": float(d["d0"]), "d": np.array(d["d"], float)}


def lib_direct(p):
    return {"w": p["w"].astype(np.float32), "W": p["W"].astype(np.float32), "d0": np.float32(p["d0"]), "d": p["d"].astype(np.float32)}


def apply_params(rta, spec, case):
    """install the constraint parameters and the enabled flags of the case"""
    n, m = spec["n"], spec["m"]
    for i, c in enumerate(rta.constraints.values()):
        c.params = lib_params(case_params(case, i, n))
        c.enabled = bool(case["cons"][i].get("on", True))
    if spec.get("direct"):
        for i, c in enumerate(rta.direct_inequality_constraints.values()):
            c.params = lib_direct(direct_params(case, i, n, m))
            c.enabled = bool(case["direct"][i].get("on", True))


# --------------------------------------------------------------------------------------------- barrier rows (QP)
TOL = 6e-6  # relative float32 error of a computed row (many operations)


def explicit_qp(ref, spec, case, ud, use=None):
    """reference QP of the explicit ASIF; returns (QP, ambiguous)"""
    x = ref.x
    weights = [np.sqrt(c["slack"]) for c in spec["constraints"] if c.get("slack") is not None]
    qp = QP(ud, ref.low, ref.high, weights)
    f, g = ref.f(x), ref.g(x)
    fabs = np.abs(ref.A) @ np.abs(x) + NL
    uscale = 1 + np.max(np.abs(np.where(np.isfinite(ref.low), ref.low, ud))) + np.max(np.abs(ud))
    slack_i = 0
    ambiguous = False
    for i, c in enumerate(spec["constraints"]):
        slack = None
        if c.get("slack") is not None:
            slack = slack_i
            slack_i += 1
        if not case["cons"][i].get("on", True) or (case["cons"][i].get("edge") == "zero" and not c.get("bias", 0)):
            continue  # disabled, or exactly 0 everywhere (vacuous)
        par = case_params(case, i, ref.n)
        h = h_val(par, x) + c.get("bias", 0)
        eh = TOL * (h_abs(par, x) + abs(c.get("bias", 0)) + 1e-3)
        if exact_zero(case, i, c.get("bias", 0)):
            h, eh = 0.0, 0.0
        elif abs(h) < eh:
            ambiguous = True
        acoef = c.get("alpha", [0, 1.0])
        if h < 0:
            if c.get("alpha_negative") is None:
                a, da, sa = (10 * v for v in alpha_ref(acoef, h))
            else:
                a, da, sa = alpha_ref(c["alpha_negative"], h)
            a += c.get("bias_negative", -0.01)
            sa += abs(c.get("bias_negative", -0.01))
        else:
            a, da, sa = alpha_ref(acoef, h)
        gr = h_grad(par, x)
        gabs = np.abs(par["q"]) + (np.abs(par["P"]) + np.abs(par["P"].T)) @ np.abs(x)
        row = gr @ g
        rabs = gabs @ np.abs(g)
        eps = da * eh * 2 + TOL * (sa + gabs @ fabs + float(np.sum(rabs)) * uscale + 1e-4)
        qp.add(row, -gr @ f - a, eps, slack, f"c{i}")
    add_direct(qp, ref, spec, case, uscale)
    return qp, ambiguous


def add_direct(qp, ref, spec, case, uscale):
    x = ref.x
    for i in range(spec.get("direct", 0)):
        if not case["direct"][i].get("on", True):
            continue
        p = direct_params(case, i, ref.n, ref.m)
        row = p["w"] + p["W"] @ x
        rabs = np.abs(p["w"]) + np.abs(p["W"]) @ np.abs(x)
        b = p["d0"] + p["d"] @ x
        eps = TOL * (abs(p["d0"]) + np.abs(p["d"]) @ np.abs(x) + float(np.sum(rabs)) * uscale + 1e-4)
        qp.add(row, b, eps, None, f"d{i}")


def ode_step(ref, x, dt, u, method, tight=False):
    """one integration step with constant control"""
    if method == "Euler":
        return ref.step(x, dt, u)
    from scipy.integrate import solve_ivp

    kw = {"rtol": 1e-9, "atol": 1e-11} if tight else {}
    return solve_ivp(lambda t, y: ref.f(y) + ref.g(y) @ u, (0.0, dt), x, **kw).y[:, -1]


def backup_trajectory(ref, spec, dt, num, tight=False, dtype=np.float64, s=None):
    """states and sensitivities at the num+1 points of the backup trajectory"""
    x = ref.x.astype(dtype)
    s = ref.s0() if s is None else s
    phi = np.eye(ref.n)
    xs, phis = [x.astype(float)], [phi]
    for _ in range(num):
        u = ref.clip(ref.ub(x.astype(float), s))
        s = ref.s_next(x.astype(float), s, dt)
        x = ode_step(ref, x.astype(float), dt, u.astype(dtype), spec.get("integration_method", "Euler"), tight).astype(dtype)
        phi = (phi + dt * (ref.jac(x.astype(float), s) @ phi)).astype(dtype).astype(float)
        xs.append(x.astype(float))
        phis.append(phi)
    return xs, phis


def kept_points(cfg, hs, errs):
    """indices of the trajectory points that have to be enforced (documented subsampling), or None when ties are too close"""
    n = len(hs)
    first = cfg.get("num_check_all", -1)
    skip = cfg.get("skip_length", 1)
    idx = [k for k in range(n) if k < first or (k - max(first, 0)) % skip == 0]
    least = cfg.get("subsample_constraints_num_least")
    if least is not None and least < len(idx):
        order = sorted(idx, key=lambda k: hs[k])
        a, b = order[least - 1], order[least]
        if hs[b] - hs[a] <= errs[a] + errs[b]:
            return None
        idx = order[:least]
    if cfg.get("keep_first"):
        idx.append(0)
    if cfg.get("keep_last"):
        idx.append(n - 1)
    return idx


def implicit_qp(ref, spec, case, ud, dt, num, s=None):
    """reference QP of the implicit ASIF; returns (QP, ambiguous)"""
    weights = [np.sqrt(c["slack"]) for c in spec["constraints"] if c.get("slack") is not None]
    qp = QP(ud, ref.low, ref.high, weights)
    tr = backup_trajectory(ref, spec, dt, num, s=s)
    alt = [backup_trajectory(ref, spec, dt, num, dtype=np.float32, s=s)]
    if spec.get("integration_method") == "RK45":
        alt.append(backup_trajectory(ref, spec, dt, num, tight=True, s=s))
    if not all(np.all(np.isfinite(t)) for t in tr[0]) or np.max(np.abs(tr[0])) > 100:
        return None, True
    f, g = ref.f(ref.x), ref.g(ref.x)
    fabs = np.abs(ref.A) @ np.abs(ref.x) + NL
    uscale = 1 + np.max(np.abs(np.where(np.isfinite(ref.low), ref.low, ud))) + np.max(np.abs(ud))
    slack_i = 0
    ambiguous = False
    for i, c in enumerate(spec["constraints"]):
        slack = None
        if c.get("slack") is not None:
            slack = slack_i
            slack_i += 1
        if not case["cons"][i].get("on", True) or (case["cons"][i].get("edge") == "zero" and not c.get("bias", 0)):
            continue  # disabled, or exactly 0 everywhere (vacuous)
        par = case_params(case, i, ref.n)
        bias = c.get("bias", 0)

        def row(x, phi):
            h = h_val(par, x) + bias
            gr = h_grad(par, x) @ phi
            a, da, sa = alpha_ref(c.get("alpha", [0, 1.0]), h)
            return h, gr @ g, -gr @ f - a, da, sa

        hs, errs, rows = [], [], []
        for k in range(num + 1):
            h, w, b, da, sa = row(tr[0][k], tr[1][k])
            eh = TOL * (h_abs(par, tr[0][k]) + abs(bias) + 1e-3)
            gabs = (np.abs(par["q"]) + (np.abs(par["P"]) + np.abs(par["P"].T)) @ np.abs(tr[0][k])) @ np.abs(tr[1][k])
            eps = da * eh * 2 + TOL * (sa + gabs @ fabs + float(np.sum(gabs @ np.abs(g))) * uscale + 1e-4)
            for xs, phis in alt:
                h2, w2, b2, _, _ = row(xs[k], phis[k])
                eps += 10 * (abs(b2 - b) + float(np.sum(np.abs(w2 - w))) * uscale)
                eh += 10 * abs(h2 - h)
            hs.append(h)
            errs.append(eh)
            rows.append((w, b, eps))
        keep = kept_points(c.get("subsample", {}), hs, errs)
        if keep is None:
            return None, True
        for k in keep:
            qp.add(*rows[k], slack, f"c{i}")
    add_direct(qp, ref, spec, case, uscale)
    return qp, ambiguous


# -------------------------------------------------------------------------------------------------- strategies
def con_strategy(n, r=(-1.0, 4.0), pscale=0.6, p_off=9):
    """one constraint; about half are linear"""
    return st.fixed_dictionaries(
        {
            "r": gen.num(*r),
            "q": gen.vec(n, -1.5, 1.5),
            "P": st.integers(0, 1).flatmap(lambda k: st.just([0.0] * (n * n)) if k == 0 else gen.vec(n * n, -pscale, pscale)),
            "on": st.integers(0, p_off).map(lambda k: k != p_off),
            "edge": st.sampled_from([None] * 12 + ["zero", "on", "on"]),
        }
    )


def system_fields(n, m, xr=2.0):
    return {
        "x": gen.vec(n, -xr, xr, special=(0.0,)),
        "A": gen.vec(n * n, -1.0, 1.0),
        "B": gen.vec(n * m, -1.5, 1.5),
        "K": gen.vec(n * m, -1.0, 1.0),
        "k0": gen.vec(m, -1.0, 1.0),
    }


def direct_strategy(n, m):
    return st.fixed_dictionaries(
        {
            "w": gen.vec(m, -1.5, 1.5),
            "W": gen.vec(m * n, -0.3, 0.3),
            "d0": gen.num(-3.0, 0.75),
            "d": gen.vec(n, -0.5, 0.5),
            "on": st.integers(0, 7).map(lambda k: k != 7),
        }
    )


def case_strategy(pool, extra=None, xr=2.0, ur=3.0, **con_kw):
    """case for one of the specs of the pool: {"spec": index, system, constraints, desired control, extra}"""

    def for_index(i):
        s = pool[i]
        n, m = s["n"], s["m"]
        d = {"spec": st.just(i), **system_fields(n, m, xr), "ud": gen.vec(m, -ur, ur), "grid": st.booleans()}
        d["cons"] = st.tuples(*[con_strategy(n, **con_kw) for _ in s["constraints"]]).map(list)
        if s.get("direct"):
            d["direct"] = st.tuples(*[direct_strategy(n, m) for _ in range(s["direct"])]).map(list)
        if extra:
            d.update(extra(s))
        return st.fixed_dictionaries(d)

    return st.integers(0, len(pool) - 1).flatmap(for_index)


# ------------------------------------------------------------------------------------------------------- cascades
def build_cascade(members, low=None, high=None, share=False):
    """CascadedRTA over the member specs (share: use the process wide instances of the members)"""
    from run_time_assurance.rta import CascadedRTA

    class GCascade(CascadedRTA):
        def _setup_rta_list(self):
            return [module(s) if share else build(s) for s in members]

    return GCascade(control_bounds_low=_bound(low), control_bounds_high=_bound(high))
