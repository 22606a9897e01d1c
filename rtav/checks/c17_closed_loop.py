"""C17: zoo filters keep their system safe in closed loop, whatever is desired.

The plant is the exact (zero order hold, float64) solution of the module's own equations, safety is judged by the independent formulas
of C14. Episodes start inside the safe set and end with the horizon or as soon as the filter signals that its optimization failed.
"""
import warnings

import numpy as np
from hypothesis import strategies as st

from rtav import gen, zoo as Z
from rtav.checks import c14_constraints as c14
from rtav.core import check, subtest

MODES = ["constant", "bang", "uniform", "attack", "attack", "attack", "switching attack", "zero"]


def margin(kind, name, dt):
    """how far a constraint may be violated between continuous-time guarantees and the sampled closed loop"""
    if name in ("ies", "iis"):
        return 1.1 * dt * dt + 1e-4
    if name in ("ieo", "iio"):
        return 4.0 * dt * dt + 1e-3
    if name.endswith("s"):
        return 2e-4
    return {"rel_vel": 6e-3, "limit": 6e-3, "cone": 5e-3, "avoid": 0.02, "stay": 0.02, "psm": 0.02}[kind]


def parts(name):
    """mass, mean motion -> exact step of one agent"""
    if name[:2] in ("ie", "ii"):
        return Z.integrator_mats(1.0)
    return Z.cwh(Z.M0, Z.N0, 2 if name.startswith("d2") else 3)


class Plant:
    def __init__(self, name, dt, agents):
        self.name, self.dt, self.k = name, dt, agents
        A, B = parts(name)
        self.Ad, self.Bd = Z.zoh(A, B, dt)
        self.nx, self.nu = B.shape
        self.refs = c14.expected("i3" if name == "comb" else name, {"num_deputies": agents} if name in ("i3", "comb") else {})

    def step(self, x, u):
        y = x.copy()
        n, m = self.nx, self.nu
        for i in range(self.k):
            v = u[i * m : (i + 1) * m] if (i == 0 or self.name == "comb") else np.zeros(m)
            y[i * n : (i + 1) * n] = self.Ad @ x[i * n : (i + 1) * n] + self.Bd @ v
        if self.name in ("i1", "i1d", "i3", "comb"):
            y[n * self.k] = x[n * self.k] - Z.N0 * self.dt
            if self.name in ("i1", "i1d"):
                y[7] = x[7] + np.sum(np.abs(u)) / Z.M0 * self.dt
        return y

    def views(self, x):
        """states as seen by each guarded agent"""
        if self.name != "comb":
            return [x]
        out = []
        for i in range(self.k):
            order = [i] + [j for j in range(self.k) if j != i]
            out.append(np.concatenate([x[6 * j : 6 * j + 6] for j in order] + [x[-1:]]))
        return out

    def safe(self, x, m):
        for v in self.views(x):
            for c in self.refs.values():
                val, ph = c.value(v), c.phi(v)
                if not (val >= m and ph >= m):
                    return False
        return True

    def attack(self, x, key):
        """control that decreases the constraint fastest"""
        c = self.refs[key]
        out = []
        for i, v in enumerate(self.views(x)):
            h0 = c.value(v)
            for j in range(self.nu):
                y = v.copy()
                y[self.nx - self.nu + j] += 1e-5
                out.append(-np.sign(c.value(y) - h0))
        return np.array(out)


def run_case(case, ctx):
    name, dt, k = case["zoo"], case["dt"], case.get("agents", 1)
    plant = Plant(name, dt, k)
    x = np.array(case["z"], float)
    try:
        ok = plant.safe(x, case["start"])
    except (ZeroDivisionError, FloatingPointError):
        ok = False
    if not ok or any(c.skip(x, c.par) for c in plant.refs.values()):
        ctx.label("start not safe")
        return
    kw = {"num_deputies": k} if name in ("i3", "comb") else {}
    rta = Z.module(name, **kw)
    rta.reset()
    rng = np.random.default_rng(case["seed"])
    nu = plant.nu * (k if name == "comb" else 1)
    const = rng.choice([-1.0, 1.0], nu)
    keys = list(plant.refs)
    key = keys[case["target"] % len(keys)]
    acted = False
    for t in range(case["steps"]):
        mode = case["mode"]
        if mode == "constant":
            ud = const
        elif mode == "bang":
            ud = rng.choice([-1.0, 1.0], nu)
        elif mode == "uniform":
            ud = rng.uniform(-2, 2, nu)
        elif mode == "zero":
            ud = np.zeros(nu)
        else:
            if mode == "switching attack" and t % 7 == 0:
                key = keys[rng.integers(len(keys))]
            ud = plant.attack(x, key)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            u = np.array(rta.filter_control(x, dt, ud), float)
        if any("olv" in str(m.message) or "olv" in m.category.__name__ for m in w):
            ctx.label(f"{name}: solver failed")
            break
        acted = acted or bool(rta.intervening)
        x = plant.step(x, u)
        if name in ("iis", "iio") and (x[0] < -1.9 or x[1] < -1.9):
            ctx.label("left the domain of the backup window")
            break
        for i, v in enumerate(plant.views(x)):
            for q, c in plant.refs.items():
                ph = c.phi(v)
                lim = margin(c.kind, name, dt)
                check(ph >= -lim, lambda: f"{name}: constraint {q}{f' of agent {i}' if name == 'comb' else ''} is {ph} (margin {lim}) after {t + 1} steps of {dt} s (attack on {key if 'attack' in mode else mode}), state {v.tolist()}")
    ctx.label(f"{name}: {'intervened' if acted else 'idle'}")
    if acted:
        ctx.nontriv()


def aimed(pairs):
    return pairs


def docking(name):
    dim = int(name[1])

    def mk(t):
        pd, r, vd, fac, aim = t
        v = np.array(vd) if aim else -np.array(pd)
        return Z._sv(pd, r) + Z._sv(v, fac * (0.2 + (2 if dim == 2 else 4) * Z.N0 * r))

    base = st.tuples(gen.direction(dim), gen.logmag(0.3, 3000.0), gen.direction(dim), gen.num(0.0, 0.97), st.booleans()).map(mk)
    if name not in ("d2eo", "d3eo"):
        return base
    # far away the speed limit is slack, and the limits of the single velocity components matter
    fast = st.one_of(gen.num(9.0, 9.97), gen.num(-9.97, -9.0), gen.num(-9.0, 9.0))
    far = st.tuples(gen.direction(dim), gen.logmag(3500.0, 6000.0), st.lists(fast, min_size=dim, max_size=dim)).map(lambda t: Z._sv(t[0], t[1]) + [gen.f32(c) for c in t[2]])
    return st.integers(0, 2).flatmap(lambda k: far if k == 0 else base)


def integrator(name):
    far = 20.0 if name in ("ies", "ieo") else 1.6

    def mk(t):
        return [gen.f32(-t[0]), gen.f32(t[1] * np.sqrt(2 * t[0]))]

    return st.tuples(gen.logmag(0.02, far), gen.num(-0.9, 0.95)).map(mk)


def agent(rmin=12.0, rmax=950.0):
    def mk(t):
        pd, r, vd, fac, aim = t
        v = np.array(vd) if aim else -np.array(pd)
        return Z._sv(pd, r) + Z._sv(v, fac * min(1.0, 0.2 + 2 * Z.N0 * r))

    return st.tuples(gen.direction(3), gen.logmag(rmin, rmax), gen.direction(3), gen.num(0.0, 0.9), st.booleans()).map(mk)


def near_agents(k):
    """agents, the later ones near the first (deputy collision avoidance has work to do)"""

    def mk(t):
        a0, rest = t
        out = list(a0)
        for d, r, vd, s in rest:
            out += [gen.f32(a0[i] + r * d[i]) for i in range(3)] + [gen.f32(s * c) for c in vd]
        return out

    other = st.tuples(gen.direction(3), gen.logmag(13.0, 200.0), gen.direction(3), gen.num(0.0, 0.3))
    return st.tuples(agent(40.0, 800.0), st.lists(other, min_size=k - 1, max_size=k - 1)).map(mk)


def case_for(name, steps, dts, agents=None):
    base = {
        "zoo": st.just(name),
        "dt": st.sampled_from(dts),
        "steps": st.just(steps),
        "mode": st.sampled_from(MODES),
        "target": st.integers(0, 30),
        "seed": st.integers(0, 2**20),
        "start": st.sampled_from([0.005, 0.02, 0.05]),
    }
    if name.startswith("d"):
        base["z"] = docking(name)
    elif name[:2] in ("ie", "ii"):
        base["z"] = integrator(name)
    elif name in ("i1", "i1d"):
        base["z"] = st.tuples(agent(), Z.ANGLE).map(lambda t: t[0] + [t[1], 0.0])
    else:
        k = agents
        base["agents"] = st.just(k)
        base["z"] = st.tuples(near_agents(k), Z.ANGLE).map(lambda t: t[0] + [t[1]])
    return st.fixed_dictionaries(base)


def reg(sub, names, quick, steps, dts, agents=None, **kw):
    subtest("C17", sub, lambda: st.sampled_from(names).flatmap(lambda n: case_for(n, steps, dts, agents)), quick, rule="the filter intervenes during the episode", **kw)(run_case)


reg("docking_switching", ["d2es", "d3es"], 120, 60, [1.0, 0.5])
reg("docking_switching_implicit", ["d2is", "d3is"], 60, 40, [1.0])
reg("docking_optimization", ["d2eo", "d3eo"], 160, 160, [0.25])
reg("docking_optimization_implicit", ["d2io", "d3io"], 10, 30, [0.25], thorough=120)
# the cubic strengthening functions are stiff: the sampled closed loop is only safe for steps well below 1/alpha'
reg("integrator_switching", ["ies"], 60, 200, [0.1, 0.02])
reg("integrator_optimization", ["ieo"], 120, 250, [0.02])
reg("integrator_implicit", ["iis"], 30, 60, [0.1])
reg("integrator_optimization_implicit", ["iio"], 30, 60, [0.05])
reg("inspection", ["i1"], 90, 160, [0.25])
reg("inspection_discrete", ["i1d"], 24, 40, [1.0, 2.0])
reg("inspection_multi", ["i3"], 50, 120, [0.25], 3)
reg("inspection_combined", ["comb"], 24, 100, [0.25], 3)
