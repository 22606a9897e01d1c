"""Zoo modules: shared instances, state strategies and float64 reference formulas."""
from __future__ import annotations

import functools
import json

import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from rtav import gen
from rtav.ref import QP

N0, M0 = 0.001027, 12.0


# ------------------------------------------------------------------------------------------ construction
def make(name, **kw):
    """construct a zoo module by short name"""
    from run_time_assurance.zoo.cwh import docking_2d, docking_3d, inspection_1v1, inspection_3d
    from run_time_assurance.zoo.integrators import integrator_1d

    table = {
        "d2es": docking_2d.Docking2dExplicitSwitchingRTA,
        "d2is": docking_2d.Docking2dImplicitSwitchingRTA,
        "d2eo": docking_2d.Docking2dExplicitOptimizationRTA,
        "d2io": docking_2d.Docking2dImplicitOptimizationRTA,
        "d3es": docking_3d.Docking3dExplicitSwitchingRTA,
        "d3is": docking_3d.Docking3dImplicitSwitchingRTA,
        "d3eo": docking_3d.Docking3dExplicitOptimizationRTA,
        "d3io": docking_3d.Docking3dImplicitOptimizationRTA,
        "ies": integrator_1d.Integrator1dDockingExplicitSwitchingRTA,
        "iis": integrator_1d.Integrator1dDockingImplicitSwitchingRTA,
        "ieo": integrator_1d.Integrator1dDockingExplicitOptimizationRTA,
        "iio": integrator_1d.Integrator1dDockingImplicitOptimizationRTA,
        "i1": inspection_1v1.Inspection1v1RTA,
        "i1d": inspection_1v1.DiscreteInspection1v1RTA,
        "i3": inspection_3d.InspectionRTA,
        "comb": inspection_3d.CombinedInspectionRTA,
        "dv": inspection_1v1.SwitchingDeltaVLimitRTA,
    }
    if "backup" in kw:  # a user supplied backup controller u = b - k * velocity
        k, b = kw.pop("backup")
        kw["backup_controller"] = velocity_backup(k, b, control_dim(name))
    return table[name](**kw)


def velocity_backup(k, b, dim):
    from run_time_assurance.controller import RTABackupController

    class Backup(RTABackupController):
        def _generate_control(self, state, step_size, controller_state=None):
            return b - k * state[dim : 2 * dim], None

    return Backup()


@functools.lru_cache(maxsize=None)
def _cached(name, key):
    return make(name, **json.loads(key))


def module(name, **kw):
    return _cached(name, json.dumps(kw, sort_keys=True))


CONTROL_DIM = {"d2": 2, "d3": 3, "ie": 1, "ii": 1, "i1": 3, "i3": 3}


def control_dim(name):
    return CONTROL_DIM[name[:2]]


# -------------------------------------------------------------------------------------------- state strategies
def _sv(d, s):
    return [gen.f32(s * c) for c in d]


def docking_state(dim, v1):
    """position log-uniform in distance, speed relative to the velocity limit"""

    def mk(t):
        pd, r, vd, fac = t
        return _sv(pd, r) + _sv(vd, fac * (0.2 + v1 * r))

    return st.tuples(gen.direction(dim), gen.logmag(0.05, 5000.0), gen.direction(dim), gen.num(0.0, 1.4, special=(0.0, 1.0, 0.98))).map(mk)


def integrator_state():
    def mk(t):
        x, fac = t
        return [gen.f32(-x), gen.f32(fac * np.sqrt(2 * x))]

    return st.tuples(gen.logmag(0.01, 20.0), gen.num(-1.3, 1.3, special=(0.0, 1.0, 0.97))).map(mk)


def agent_state(rmin=10.6, rmax=990.0):
    def mk(t):
        pd, r, vd, fac = t
        return _sv(pd, r) + _sv(vd, fac * min(1.0, 0.2 + 2 * N0 * r))

    return st.tuples(gen.direction(3), gen.logmag(rmin, rmax), gen.direction(3), gen.num(0.0, 1.3, special=(0.0, 1.0, 0.95))).map(mk)


ANGLE = gen.num(0.0, 6.25, special=(0.0, 1.5707964, 3.1415927))


def inspection_state(**kw):
    return st.tuples(agent_state(**kw), ANGLE, gen.num(0.0, 25.0)).map(lambda t: t[0] + [t[1], t[2]])


def multi_state(n, **kw):
    return st.tuples(st.tuples(*[agent_state(**kw) for _ in range(n)]), ANGLE).map(lambda t: sum([list(a) for a in t[0]], []) + [t[1]])


def state_for(name, deputies=3):
    if name.startswith("d2"):
        return docking_state(2, 2 * N0)
    if name.startswith("d3"):
        return docking_state(3, 4 * N0)
    if name in ("ies", "iis", "ieo", "iio"):
        return integrator_state()
    if name.startswith("i1"):
        return inspection_state()
    return multi_state(deputies)


def ud_for(name, scale=2.0):
    return gen.vec(control_dim(name), -scale, scale, special=(0.0, 1.0, -1.0))


# ---------------------------------------------------------------------------------------------- formulas (float64)
def cwh(m, n, dim):
    """Clohessy-Wiltshire-Hill equations, written from the scalar equations of motion"""
    if dim == 2:
        A = np.zeros((4, 4))
        A[0, 2] = A[1, 3] = 1
        A[2, 0], A[2, 3] = 3 * n * n, 2 * n
        A[3, 2] = -2 * n
        B = np.zeros((4, 2))
        B[2, 0] = B[3, 1] = 1 / m
        return A, B
    A = np.zeros((6, 6))
    A[0, 3] = A[1, 4] = A[2, 5] = 1
    A[3, 0], A[3, 4] = 3 * n * n, 2 * n
    A[4, 3] = -2 * n
    A[5, 2] = -n * n
    B = np.zeros((6, 3))
    B[3, 0] = B[4, 1] = B[5, 2] = 1 / m
    return A, B


def integrator_mats(m):
    return np.array([[0.0, 1.0], [0.0, 0.0]]), np.array([[0.0], [1.0 / m]])


def zoh(A, B, dt):
    """exact discretisation with constant control"""
    n, m = B.shape
    M = np.zeros((n + m, n + m))
    M[:n, :n], M[:n, n:] = A, B
    E = expm(M * dt)
    return E[:n, :n], E[:n, n:]


@functools.lru_cache(maxsize=64)
def drift(n, dt, steps):
    """stack of transition matrices for t = dt .. steps*dt"""
    A, _ = cwh(1.0, n, 3)
    E = expm(A * dt)
    out = [E]
    for _ in range(steps - 1):
        out.append(E @ out[-1])
    return np.array(out)


def nd(v, delta=1e-5):
    return float(np.sqrt(v @ v + delta))


def h_rel_vel(p, v, v0, v1, v0d=0.0, delta=1e-5):
    return v0 + v1 * (nd(p, delta) - v0d) - nd(v, delta)


def h_avoid(p, v, r, a, k=2.0):
    """stopping distance keep-out sphere (k=2: the obstacle is passive, k=4: both brake)"""
    d = np.linalg.norm(p) - r
    return np.sign(d) * np.sqrt(k * a * abs(d)) + p @ v / np.linalg.norm(p)


def h_stay(p, v, r, a):
    d = r - np.linalg.norm(p)
    return np.sign(d) * np.sqrt(2 * a * abs(d)) - p @ v / np.linalg.norm(p)


def sun_vec(theta):
    return -np.array([np.cos(theta), np.sin(theta), 0.0])


def cone_distance(p, c, fov):
    """signed distance to the cone surface with half angle fov/2 about c, and the outward normal"""
    th = fov / 2
    along = p @ c
    perp = p - along * c
    q = np.linalg.norm(perp)
    e = perp / q
    nrm = np.cos(th) * e - np.sin(th) * c
    return np.cos(th) * q - np.sin(th) * along, nrm


def h_cone(p, v, theta, fov, a, omega):
    c = sun_vec(theta)
    d, nrm = cone_distance(p, c, fov)
    proj = p - d * nrm
    vproj = np.cross(np.array([0.0, 0.0, omega]), proj)
    return np.sign(d) * np.sqrt(2 * a * abs(d)) + nrm @ (v - vproj)


def phi_cone(p, theta, fov):
    c = sun_vec(theta)
    return float(np.arctan2(np.linalg.norm(np.cross(p, c)), p @ c)) - fov / 2


def h_psm(x, r, n, dt=1.0, steps=100):
    tr = drift(n, dt, steps) @ x
    return float(np.min(np.linalg.norm(tr[:, :3], axis=1))) - r


def a_max(m, n, r_max=1000.0, vel_limit=1.0, v0=0.2, v1=None, u_max=1.0):
    v1 = 2 * n if v1 is None else v1
    return u_max / m - 3 * n * n * r_max - 2 * n * min(vel_limit, v0 + v1 * r_max)


# -------------------------------------------------------------------------------- QP from the module's own functions
def own_qp(rta, z, ud, low, high, dim):
    """reference QP of an explicit module from the constraint functions and dynamics the module publishes"""
    import jax.numpy as jnp

    x = jnp.array(np.asarray(z, np.float32))
    f = np.array(rta.state_transition_system(x), float)
    g = np.array(rta.state_transition_input(x), float)
    qp = QP(ud, np.full(dim, low), np.full(dim, high))
    amb = False
    us = 1 + abs(low) + np.max(np.abs(ud))
    for k, c in rta.constraints.items():
        if not c.enabled:
            continue
        h = float(c(x, c.params))
        gr = np.array(c.grad(x, c.params), float)
        if not (np.isfinite(h) and np.all(np.isfinite(gr))):
            return None, True
        eh = 1e-5 * (1 + abs(h)) + (2e-3 if "PSM" in k else 2e-5 * float(np.abs(gr) @ np.abs(np.asarray(z, float))))
        if abs(h) < 3 * eh:
            amb = True
        al = c.alpha if h >= 0 else c.alpha_negative
        a = float(al(h)) + (c.bias_negative if h < 0 else 0.0)
        da = abs(float(al(h + eh)) - float(al(h - eh))) / 2
        egr = 2e-4 if "PSM" in k else 3e-5
        row = gr @ g
        b = -gr @ f - a
        eps = 2 * da + 1e-6 * abs(a) + egr * float(np.abs(gr) @ np.abs(f)) + egr * us * float(np.sum(np.abs(gr) @ np.abs(g))) + 1e-7
        if "PSM" in k or "sun" in k:
            eps += 1e-4
        qp.add(row, b, eps, None, k)
    return qp, amb
