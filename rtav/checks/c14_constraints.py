"""C14: zoo constraint functions, gradients and logging values against independent float64 formulas."""
import collections
import functools

import numpy as np
from hypothesis import strategies as st

from rtav import gen, zoo as Z
from rtav.core import check, subtest

FOV0 = 60 * np.pi / 180
OrderedDict = collections.OrderedDict


# ------------------------------------------------------------------------------------------------ reference formulas
class C:
    """reference of one constraint: value without bias, logging value, expected parameters"""

    def __init__(self, kind, par, **extra):
        self.kind, self.par, self.e = kind, {k: float(v) for k, v in par.items()}, extra

    # -- geometry
    def geo(self, x):
        e = self.e
        p, v = x[:3], x[3:6]
        if "deputy" in e:
            i = 6 * e["deputy"]
            p, v = p - x[i : i + 3], v - x[i + 3 : i + 6]
        return p, v

    def cone_geo(self, x):
        p, v = self.geo(x)
        th = x[self.e["sun"]]
        c = Z.sun_vec(th)
        if "deputy" in self.e and p @ c < 0:  # the pair is watched along the sun line in whichever order looks at the sun
            p, v = -p, -v
        return p, v, th, c

    def value(self, x, par=None):
        q = par or self.par
        k = self.kind
        if k == "rel_vel":
            d = len(x[: self.e["dim"]])
            return Z.h_rel_vel(x[:d], x[d : 2 * d], q["v0"], q["v1"], q["v0_distance"])
        if k == "limit":
            return q["limit_val"] ** 2 - x[self.e["index"]] ** 2
        if k == "avoid":
            p, v = self.geo(x)
            return Z.h_avoid(p, v, q["collision_radius"], q["a_max"], 4.0 if "deputy" in self.e else 2.0)
        if k == "stay":
            p, v = self.geo(x)
            return Z.h_stay(p, v, q["r_max"], q["a_max"])
        if k == "cone":
            p, v, th, _ = self.cone_geo(x)
            return Z.h_cone(p, v, th, q["fov"], q["a_max"], self.e["omega"])
        if k == "psm":
            p, v = self.geo(x)
            return Z.h_psm(np.concatenate((p, v)), q["collision_radius"], self.e["n"], q["dt"], self.e["steps"])
        if k == "int_explicit":
            return -2 * x[0] - x[1] ** 2
        if k == "int_implicit":
            return -x[0]
        if k == "hocbf":
            p, v = self.geo(x)
            h = np.linalg.norm(p) - q["collision_radius"]
            return p @ v / np.linalg.norm(p) + self.e["alpha"](h)
        raise KeyError(k)

    def phi(self, x, par=None):
        q = par or self.par
        if self.kind in ("avoid", "hocbf"):
            return float(np.linalg.norm(self.geo(x)[0])) - q["collision_radius"]
        if self.kind == "stay":
            return q["r_max"] - float(np.linalg.norm(self.geo(x)[0]))
        if self.kind == "cone":
            p, _, th, _ = self.cone_geo(x)
            return Z.phi_cone(p, th, q["fov"])
        return self.value(x, q)

    # -- numerical error of a float32 evaluation
    def skip(self, x, par, grad=False):
        """outside the domain where a comparison is meaningful?"""
        q = par
        if self.kind == "cone":
            p, v, th, c = self.cone_geo(x)
            r = np.linalg.norm(p)
            if r < 0.5 or np.linalg.norm(p - (p @ c) * c) < 0.3:
                return True
            if "deputy" in self.e and abs(p @ c) < 2e-3 * r:
                return True
            d = abs(Z.cone_distance(p, c, q["fov"])[0])
            return d < (0.02 if grad else 2e-3) * max(r, 1.0)
        if self.kind in ("avoid", "stay", "hocbf", "psm"):
            p, _ = self.geo(x)
            r = np.linalg.norm(p)
            if r < 0.5:
                return True
            if grad and self.kind in ("avoid", "stay"):
                return abs(r - q.get("collision_radius", q.get("r_max"))) < max(0.02, 1e-4 * np.max(np.abs(x)))
        return False

    def extra_tol(self, x, par, grad=False):
        if self.kind == "cone":
            p, v, th, c = self.cone_geo(x)
            r = np.linalg.norm(p)
            d = abs(Z.cone_distance(p, c, par["fov"])[0])
            big = np.max(np.abs(x))
            dv = np.linalg.norm(v) + abs(self.e["omega"]) * r
            qn = np.linalg.norm(p - (p @ c) * c)
            t = 2e-6 * big / d * dv + 1e-5 / qn * (dv / qn + np.sqrt(par["a_max"] / (2 * d)))
            return t * (1 + r / d + r / qn) if grad else t
        if self.kind == "psm":
            idx = [slice(0, 6)] + ([slice(6 * self.e["deputy"], 6 * self.e["deputy"] + 6)] if "deputy" in self.e else [])
            t = sum(4e-7 * np.linalg.norm(x[i][3:]) / self.e["n"] + 5e-6 * np.linalg.norm(x[i][:3]) for i in idx)
            T = par["dt"] * self.e["steps"]
            return 1e-6 + t * (1 + self.e["n"] * T) * (1.0 if not grad else 0.0)
        return 0.0


def perturbed(x, k=4):
    rng = np.random.default_rng(7)
    for _ in range(k):
        yield x * (1 + 2e-7 * rng.choice([-1.0, 1.0], size=x.size))


def tol_of(f, x, scale):
    v = f(x)
    return v, 8 * max(abs(f(y) - v) for y in perturbed(x)) + 3e-6 * (abs(v) + scale) + 1e-9


def num_grad(f, x):
    g = np.zeros(x.size)
    for i in range(x.size):
        s = 1e-6 * max(1.0, abs(x[i]))
        a, b = x.copy(), x.copy()
        a[i] += s
        b[i] -= s
        g[i] = (f(a) - f(b)) / (a[i] - b[i])
    return g


def psm_grad(c, x, par):
    """gradient of the smallest distance, or None when several instants compete"""
    E = Z.drift(c.e["n"], par["dt"], c.e["steps"])[:, :3, :]
    p, v = c.geo(x)
    w = E @ np.concatenate((p, v))
    d = np.linalg.norm(w, axis=1)
    tol = 2 * c.extra_tol(x, par)
    near = np.flatnonzero(d <= d.min() + tol)
    gs = np.einsum("ki,kij->kj", w[near] / d[near, None], E[near])
    if d.min() < 1e-2 or np.max(np.abs(gs - gs[0])) > 5e-3 * np.max(np.abs(gs)):
        return None
    g = np.zeros(x.size)
    g[:6] = gs[0]
    if "deputy" in c.e:
        i = 6 * c.e["deputy"]
        g[i : i + 6] -= gs[0]
    return g


# ----------------------------------------------------------------------------------------- what each module must contain
def expected(name, kw=None):
    """OrderedDict name -> C for a module constructed with kw"""
    kw = dict(kw or {})
    g = kw.get
    n, m = g("n", Z.N0), g("m", Z.M0)
    v0 = g("v0", 0.2)
    out = OrderedDict()
    if name.startswith("d"):
        dim = int(name[1])
        v1 = g("v1_coef", 2.0 if dim == 2 else 4.0) * n
        out["rel_vel"] = C("rel_vel", {"v0": v0, "v1": v1, "v0_distance": g("v0_distance", 0.0)}, dim=dim)
        for i, ax in enumerate("xyz"[:dim]):
            out[f"{ax}_vel"] = C("limit", {"limit_val": g(f"{ax}_vel_limit", 10.0)}, index=dim + i)
        return out
    if name in ("ies", "ieo"):
        out["rel_vel"] = C("int_explicit", {})
        return out
    if name in ("iis", "iio"):
        out["rel_vel"] = C("int_implicit", {})
        return out
    v1 = g("v1_coef", 2.0) * n
    rmax, fov, vl = g("r_max", 1000.0), g("fov", FOV0), g("vel_limit", 1.0)
    omega = g("sun_vel", -Z.N0)
    a = Z.a_max(m, n, rmax, vl, v0, v1)
    chief, dep = g("chief_radius", 5.0), g("deputy_radius", 5.0)
    rc = chief + dep
    deputies = g("num_deputies", 5) if name == "i3" else 1
    sun = 6 * deputies
    items = {
        "rel_vel": C("rel_vel", {"v0": v0, "v1": v1, "v0_distance": g("v0_distance", 0.0)}, dim=3),
        "sun": C("cone", {"fov": fov, "a_max": a}, sun=sun, omega=omega),
        "r_max": C("stay", {"r_max": rmax, "a_max": a}),
        "PSM": C("psm", {"collision_radius": rc, "dt": 1.0}, n=n, steps=100),
        "chief_collision": C("avoid", {"collision_radius": rc, "a_max": a}),
    }
    vel = [(f"{ax}_vel", C("limit", {"limit_val": vl}, index=3 + i)) for i, ax in enumerate("xyz")]
    if name == "i1":
        order = ["rel_vel", "sun", "r_max", "PSM", "vel", "hocbf" if g("use_hocbf") else "chief_collision"]
    elif name == "i1d":
        order = ["chief_collision", "rel_vel", "sun", "r_max", "PSM", "vel"]
    else:
        order = ["chief_collision", "rel_vel", "chief_sun", "r_max", "PSM", "vel"]
        items["chief_sun"] = items["sun"]
    for k in order:
        if k == "vel":
            out.update(vel)
        elif k == "hocbf":
            out["chief_collision_hocbf"] = C("hocbf", {"collision_radius": rc})
        else:
            out[k] = items[k]
    for i in range(1, deputies):
        out[f"deputy_collision_{i}"] = C("avoid", {"collision_radius": 2 * dep, "a_max": a}, deputy=i)
        out[f"deputy_sun_{i}"] = C("cone", {"fov": fov, "a_max": a}, deputy=i, sun=sun, omega=omega)
        out[f"deputy_PSM_{i}"] = C("psm", {"collision_radius": 2 * dep, "dt": 1.0}, deputy=i, n=n, steps=100)
    return out


@functools.lru_cache(maxsize=None)
def _default(name, deputies):
    return expected(name, {"num_deputies": deputies} if name == "i3" else {})


def phi_of(name, key, z):
    """(logging value, tolerance) of a constraint of a default module, None when not comparable"""
    z = np.asarray(np.asarray(z, np.float32), float)
    if name in ("comb", "i3"):
        ref = _default("i3", (len(z) - 1) // 6)
    else:
        ref = _default(name, 0)
    c = ref[key]
    if c.skip(z, c.par):
        return None
    v, t = tol_of(lambda x: c.phi(x), z, 1e-3)
    if c.kind == "cone":
        s = abs(np.sin(v + c.par["fov"] / 2))
        t += min(1e-3, 1e-6 / max(s, 1e-9))
    return v, t + c.extra_tol(z, c.par)


def compare(name, key, lib, ref, x, par, ctx, with_grad=True):
    """library constraint against the reference at one state"""
    import jax.numpy as jnp

    xj = jnp.array(np.asarray(x, np.float32))
    h = float(lib(xj, par))
    f64 = {k: float(np.float32(v)) for k, v in par.items()}
    bias = float(lib.bias)
    check(-0.02 <= bias <= 0.0, f"{name}.{key}: bias {bias} makes the constraint less conservative")
    gr = np.array(lib.grad(xj, par), float) if with_grad else None
    check(np.isfinite(h), f"{name}.{key} is {h} at {list(x)} with {par}")
    ph = float(lib.phi(xj, par))
    check(np.isfinite(ph) or np.linalg.norm(x[:3]) < 0.5 or ("deputy" in ref.e and np.linalg.norm(ref.geo(x)[0]) < 0.5), lambda: f"{name}.{key}: logging value is {ph} at {list(x)} with {par}")
    if ref.skip(x, f64):
        ctx.label("near-singular")
        return
    f = lambda y: ref.value(y, f64)  # noqa: E731
    v, t = tol_of(f, x, 1e-3)
    t += ref.extra_tol(x, f64)
    check(abs(h - bias - v) <= t, lambda: f"{name}.{key} at {list(x)} with {par}: {h - bias} (bias {bias} removed), expected {v} +- {t:.2g}")
    p, tp = tol_of(lambda y: ref.phi(y, f64), x, 1e-3)
    if ref.kind == "cone":
        s = abs(np.sin(p + f64["fov"] / 2))
        tp += min(1e-3, 1e-6 / max(s, 1e-9)) + 4e-6
    else:
        tp += ref.extra_tol(x, f64)
    check(abs(ph - p) <= tp, lambda: f"{name}.{key}: logging value at {list(x)} with {par} is {ph}, expected {p} +- {tp:.2g}")
    ctx.label(ref.kind + ("+" if v >= 0 else "-"))
    ctx.nontriv((key, v >= 0))
    if with_grad and not ref.skip(x, f64, grad=True):
        check(gr.shape == x.shape, f"{name}.{key}: gradient has shape {gr.shape}")
        if ref.kind == "psm":
            g = psm_grad(ref, x, f64)
            if g is None:
                return
            tg = 6e-3 * np.max(np.abs(g))
        else:
            g = num_grad(f, x)
            tg = 8 * max(np.max(np.abs(num_grad(f, y) - g)) for y in perturbed(x, 2))
            # in the columns of the velocity the gradient is dimensionless, judge columns by their own size
            tg = np.maximum(tg, 1e-5 * np.abs(g)) + 2e-6 * np.max(np.abs(g)) + ref.extra_tol(x, f64, True) + 2e-7
        bad = np.abs(gr - g) > tg
        check(not np.any(bad), lambda: f"{name}.{key}: gradient at {list(x)} with {par} is {gr.tolist()}, expected {g.tolist()}")
        ctx.label("grad")
    # trajectories of the passive safety constraint
    if ref.kind == "psm":
        arr = np.array(lib.get_array(xj, par), float)
        pp, vv = ref.geo(x)
        tr = np.concatenate((np.eye(6)[None], Z.drift(ref.e["n"], f64["dt"], ref.e["steps"]))) @ np.concatenate((pp, vv))
        want = np.linalg.norm(tr[:, :3], axis=1) - f64["collision_radius"]
        check(arr.shape == want.shape and np.all(np.abs(arr - want) <= t + 1e-5 * np.abs(want)), lambda: f"{name}.{key}.get_array at {list(x)}: {arr[:4]}..{arr[-1]}, expected {want[:4]}..{want[-1]}")


def class_k(name, key, c):
    """the strengthening function vanishes at 0 and does not decrease"""
    v = [float(c.alpha(h)) for h in (-2.0, -0.5, 0.0, 0.25, 1.0, 3.0)]
    check(abs(v[2]) < 1e-12 and all(b >= a - 1e-12 for a, b in zip(v, v[1:])), f"{name}.{key}: alpha is not increasing through 0: {v}")


# ------------------------------------------------------------------------------------------------ generated parameters
KINDS = ["d2es", "d2is", "d2eo", "d2io", "d3es", "d3is", "d3eo", "d3io", "ies", "iis", "ieo", "iio", "i1", "i1", "i1d", "i3", "i3", "i3"]
PAR = {
    "v0": gen.num(0.05, 1.0),
    "v1": gen.logmag(1e-4, 0.05),
    "v0_distance": gen.num(0.0, 20.0, special=(0.0,)),
    "limit_val": gen.num(0.1, 12.0),
    "collision_radius": gen.logmag(0.5, 60.0),
    "a_max": gen.logmag(0.005, 1.0),
    "fov": gen.num(0.1, 2.4),
    "r_max": gen.logmag(50.0, 3000.0),
    "dt": gen.num(0.25, 3.0, special=(1.0,)),
}


def spatial(n_agents):
    """states near, inside and outside the keep-out/keep-in sets"""

    def one(sep):
        def mk(t):
            d, r, vd, s = t
            return [gen.f32(r * c) for c in d] + [gen.f32(s * c) for c in vd]

        return st.tuples(gen.direction(3), gen.logmag(1.0, 2500.0), gen.direction(3), gen.logmag(1e-3, 3.0)).map(mk)

    def near(t):
        """agents after the first are sometimes placed relative to the first one"""
        agents, rel = t
        out = [list(agents[0])]
        for a, r in zip(agents[1:], rel):
            if r:
                a = [gen.f32(a[j] * 0.05 + out[0][j]) for j in range(3)] + list(a[3:])
            out.append(list(a))
        return sum(out, [])

    return st.tuples(st.tuples(*[one(i) for i in range(n_agents)]), st.lists(st.booleans(), min_size=n_agents, max_size=n_agents)).map(near)


def state_for(name, deputies):
    if name.startswith("d"):
        return Z.docking_state(int(name[1]), 2 * Z.N0)
    if name in ("ies", "iis", "ieo", "iio"):
        return st.tuples(Z.integrator_state(), st.integers(0, 3)).map(lambda t: t[0] if t[1] else [-t[0][0], t[0][1]])
    if name == "i3":
        return st.tuples(spatial(deputies), Z.ANGLE).map(lambda t: t[0] + [t[1]])
    return st.tuples(spatial(1), Z.ANGLE, gen.num(0.0, 25.0)).map(lambda t: t[0] + [t[1], t[2]])


def dyn_strategy():
    def one(i):
        name = KINDS[i]
        keys = sorted({k for c in expected(name, {"num_deputies": 3}).values() for k in c.par})
        par = st.fixed_dictionaries({k: st.integers(0, 3).flatmap(lambda j, k=k: st.none() if j == 0 else PAR[k]) for k in keys})
        return st.fixed_dictionaries({"module": st.just(name), "par": par, "z": state_for(name, 3)})

    return st.integers(0, len(KINDS) - 1).flatmap(one)


@subtest("C14", "values", dyn_strategy, 330, rule="a constraint compared with its formula on either side of its boundary, with user supplied parameters")
def values(case, ctx):
    name = case["module"]
    kw = {"num_deputies": 3} if name == "i3" else {}
    rta = Z.module(name, **kw)
    ref = expected(name, kw)
    check(set(rta.constraints) == set(ref), f"{name}: constraints {list(rta.constraints)}, expected {list(ref)}")
    x = np.array(case["z"], float)
    for k, c in rta.constraints.items():
        par = {p: (case["par"].get(p) if case["par"].get(p) is not None else v) for p, v in c.params.items()}
        compare(name, k, c, ref[k], x, par, ctx)
        class_k(name, k, c)


def on_axis_strategy():
    num = gen.num(-1.0, 1.0)
    return st.fixed_dictionaries(
        {
            "module": st.sampled_from(["i1", "i1d", "i3", "i3"]),
            "sign": st.sampled_from([1, -1]),
            "r": gen.logmag(2.0, 2000.0),
            "sun": Z.ANGLE,
            "v": st.lists(num, min_size=3, max_size=3),
            "others": st.lists(num, min_size=12, max_size=12),
            "fov": gen.num(0.1, 2.4),
        }
    )


@subtest("C14", "on_axis", on_axis_strategy, 120, rule="the line of sight lies exactly on the axis of a keep-out cone (within float32 rounding)")
def on_axis(case, ctx):
    """on the cone axis: finite, the logging value is the angle, and the constraint value has the sign of the cone distance"""
    import jax.numpy as jnp

    name = case["module"]
    kw = {"num_deputies": 3} if name == "i3" else {}
    rta = Z.module(name, **kw)
    th = np.float32(case["sun"])
    c = np.array([-np.cos(th), -np.sin(th), np.float32(0)], np.float32)
    off = case["sign"] * np.float32(case["r"]) * c
    v = 0.05 * np.array(case["v"], np.float32)
    o = np.array(case["others"], np.float32)
    if name == "i3":
        p1 = 300 * o[:3]
        x = np.concatenate((p1, v, p1 - off, 0 * v, 300 * o[6:9], o[9:12], [th]))
        keys = ["deputy_sun_1"]
    else:
        x = np.concatenate((off, v, [th, np.float32(0)]))
        keys = ["sun"]
    x = x.astype(np.float32)
    xd = x.astype(float)
    for k in keys:
        lib, ref = rta.constraints[k], expected(name, kw)[k]
        par = {**lib.params, "fov": case["fov"]}
        half = case["fov"] / 2
        a = float(lib.params["a_max"])
        p, w = ref.geo(xd)
        r = np.linalg.norm(p)
        # rounding of the positions tilts the line of sight away from the axis
        tilt = 4e-7 * (np.max(np.abs(xd)) + r) / r + 1e-3
        if tilt > 0.2 * half:
            ctx.label("rounding")
            continue
        inside = case["sign"] > 0 or name == "i3"
        ph, h = float(lib.phi(jnp.array(x), par)), float(lib(jnp.array(x), par))
        want = (0.0 if inside else np.pi) - half
        check(abs(ph - want) <= tilt, lambda: f"{name}.{k}: logging value {ph} on the cone axis, expected {want}, at {x.tolist()}")
        d = r * np.sin(half)
        slack = 1.05 * (np.linalg.norm(w) + abs(ref.e["omega"]) * r * 1.5) + 0.02
        lim = 0.9 * np.sqrt(2 * a * d)
        if inside:
            check(h <= slack - lim, lambda: f"{name}.{k}: value {h} inside the cone (on its axis), expected at most {slack - lim}, at {x.tolist()}")
        else:
            check(h >= lim - slack, lambda: f"{name}.{k}: value {h} opposite the cone, expected at least {lim - slack}, at {x.tolist()}")
        ctx.label("axis" if inside else "behind")
        ctx.nontriv((k, inside))


CONFIG = {
    "m": gen.logmag(2.0, 60.0),
    "n": gen.logmag(2e-4, 0.02),
    "v0": PAR["v0"],
    "v1_coef": gen.num(0.5, 6.0),
    "v0_distance": PAR["v0_distance"],
}
DOCK = ["x_vel_limit", "y_vel_limit", "z_vel_limit"]
INSP = {
    "m": gen.logmag(2.0, 30.0),
    "n": gen.logmag(2e-4, 2e-3),
    "chief_radius": gen.logmag(1.0, 30.0),
    "deputy_radius": gen.logmag(1.0, 20.0),
    "r_max": gen.logmag(100.0, 1500.0),
    "fov": gen.num(0.2, 2.2),
    "vel_limit": gen.num(0.2, 3.0),
    "sun_vel": gen.num(-0.01, 0.01),
}


def config_strategy():
    def one(i):
        name = KINDS[i]
        d = {}
        if name.startswith("d"):
            d.update(CONFIG)
            d.update({k: PAR["limit_val"] for k in DOCK[: int(name[1])]})
        elif name in ("ies", "iis", "ieo", "iio"):
            d["m"] = CONFIG["m"]
        else:
            d.update(CONFIG)
            d.update(INSP)
        opt = {k: st.integers(0, 4).flatmap(lambda j, s=s: st.none() if j == 0 else s) for k, s in d.items()}
        fields = {"module": st.just(name), "kw": st.fixed_dictionaries(opt)}
        if name == "i1":
            fields["hocbf"] = st.booleans()
        if name == "i3":
            return st.integers(1, 5).flatmap(lambda n: st.fixed_dictionaries({**fields, "deputies": st.just(n), "z": state_for(name, n)}))
        return st.fixed_dictionaries({**fields, "z": state_for(name, 1)})

    return st.integers(0, len(KINDS) - 1).flatmap(one)


@subtest("C14", "config", config_strategy, 130, rule="a constraint of a module constructed with non default parameters compared with its formula")
def config(case, ctx):
    import jax

    name = case["module"]
    kw = {k: v for k, v in case["kw"].items() if v is not None}
    if name == "i3":
        kw["num_deputies"] = case["deputies"]
    if case.get("hocbf"):
        kw["use_hocbf"] = True
    ref = expected(name, kw)
    if any(c.par.get("a_max", 1.0) <= 1e-4 for c in ref.values()):
        ctx.label("no-braking")
        return
    with jax.disable_jit():
        rta = Z.make(name, **kw)
        check(set(rta.constraints) == set(ref), f"{name}: constraints {list(rta.constraints)}, expected {list(ref)}")
        x = np.array(case["z"], float)
        for k, c in rta.constraints.items():
            r = ref[k]
            if r.kind == "hocbf":
                r.e["alpha"] = lambda h, c=c: float(c.alpha(h))
            for p, v in r.par.items():
                check(p in c.params and abs(float(c.params[p]) - v) <= 1e-6 * abs(v) + 1e-12, f"{name}({kw}).{k}: parameter {p} is {c.params.get(p)}, expected {v}")
            compare(name, k, c, r, x, dict(c.params), ctx, with_grad=False)


# ------------------------------------------------------------------------------------- documented default strengthening
DEFAULT_ALPHA = {  # class -> (constructor arguments, documented coefficients)
    "docking_2d.ConstraintDocking2dRelativeVelocity": ({"v0": 0.2, "v1": 0.002}, [0, 0.01, 0, 0.1]),
    "inspection_1v1.ConstraintPassivelySafeManeuver": ({"collision_radius": 10.0, "m": 12.0, "n": 0.001027, "dt": 1.0, "steps": 5}, [0, 0.01, 0, 0.001]),
    "inspection_3d.ConstraintPSMDeputy": ({"collision_radius": 10.0, "m": 12.0, "n": 0.001027, "dt": 1.0, "steps": 5, "deputy": 1}, [0, 0.01, 0, 0.001]),
    "inspection_1v1.HOCBFExampleChiefCollision": ({"collision_radius": 10.0}, [0, 0.01, 0, 0.01]),
    "integrator_1d.ConstraintIntegrator1dDockingCollisionExplicit": ({}, [0, 1, 0, 30]),
    "integrator_1d.ConstraintIntegrator1dDockingCollisionImplicit": ({}, [0, 10, 0, 30]),
}


@functools.lru_cache(maxsize=None)
def with_default_alpha(name, given):
    from run_time_assurance import constraint as M
    from run_time_assurance.zoo.cwh import docking_2d, inspection_1v1, inspection_3d
    from run_time_assurance.zoo.integrators import integrator_1d

    mod, cls = name.split(".")
    kw = dict(DEFAULT_ALPHA[name][0])
    if given is not None:
        kw["alpha"] = M.PolynomialConstraintStrengthener(list(given))
    return getattr({"docking_2d": docking_2d, "inspection_1v1": inspection_1v1, "inspection_3d": inspection_3d, "integrator_1d": integrator_1d}[mod], cls)(**kw)


@subtest(
    "C14", "strengthening",
    lambda: st.fixed_dictionaries({"cls": st.sampled_from(sorted(DEFAULT_ALPHA)), "given": st.sampled_from([None, None, [0, 0.5, 0, 2.0], [0, 3.0]]), "h": gen.num(-3.0, 5.0)}),
    150, rule="the strengthening function is evaluated away from 0",
)
def strengthening(case, ctx):
    """a constraint class uses the strengthening function it is given, or the one documented as its default"""
    given = case["given"]
    c = with_default_alpha(case["cls"], None if given is None else tuple(given))
    coefs = given or DEFAULT_ALPHA[case["cls"]][1]
    h = case["h"]
    want = sum(a * h**i for i, a in enumerate(coefs))
    got = float(c.alpha(h))
    check(abs(got - want) <= 1e-5 * (1e-4 + sum(abs(a * h**i) for i, a in enumerate(coefs))), f"{case['cls']}: alpha({h}) = {got}, expected {want} ({'documented default' if given is None else 'as given'} {coefs})")
    ctx.label("default" if given is None else "given")
    if abs(h) > 1e-2:
        ctx.nontriv()
