"""C01: bounds, shape and finiteness of the filtered control; disabled filters; inputs are not modified."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen, systems as S, zoo as Z
from rtav.core import check, subtest

BOUNDS = {
    1: [
        {"low": -1, "high": 1},
        {"low": [-0.3], "high": [0.7]},
        {"low": 0.1, "high": 0.9},
        {"high": -0.25},
        {},
    ],
    2: [
        {"low": -0.1, "high": 0.3},
        {"low": [-1.0, -0.5], "high": [0.75, 2.0]},
        {"low": {"array": [0.25, -2.0]}, "high": {"array": [0.5, -1.0]}},
        {"low": -0.5},
        {"low": {"array": [-1.5, -0.2]}, "high": 0.4},
    ],
    3: [
        {"low": {"array": [-2.0, -1.0, -0.25]}, "high": {"array": [2.0, 0.5, 1.0]}},
        {"high": [1, 0, 3]},
        {"low": -2, "high": [0.5, 0.1, 7.0]},
    ],
}
KIND = {
    "easif": {"n": 2, "m": 2, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5], "bias": -0.1}]},
    "easif1": {"n": 2, "m": 1, "constraints": [{"alpha": [0, 1.0]}]},
    "easif3": {"n": 4, "m": 3, "constraints": [{"alpha": [0, 1.0], "slack": 1e6}, {"alpha": [0, 0.3]}], "direct": 1},
    "iasif": {"n": 2, "m": 1, "backup_window": 0.5, "constraints": [{"alpha": [0, 1.0]}]},
    "iasif2": {"n": 3, "m": 2, "backup_window": 0.75, "constraints": [{"alpha": [0, 1.0]}]},
    "esimplex": {"n": 2, "m": 1, "constraints": [{}]},
    "esimplex2": {"n": 3, "m": 2, "latch_time": 0.75, "constraints": [{}, {}]},
    "isimplex": {"n": 2, "m": 1, "backup_window": 0.5, "constraints": [{}]},
    "isimplex3": {"n": 4, "m": 3, "backup_window": 0.5, "backup": "array", "constraints": [{}]},
    "discrete": {"n": 2, "m": 1, "constraints": [{"alpha": [0, 0.5]}]},
    "discrete2": {"n": 3, "m": 2, "constraints": [{"alpha": [0, 0.5], "slack": 100.0}, {"alpha": [0, 0.25]}]},
}


def pool_for(*names):
    out = []
    for k in names:
        base = dict(KIND[k], kind=k.rstrip("0123456789"))
        for b in BOUNDS[base["m"]]:
            out.append({**base, **b})
    return out


def arr(kind, v):
    """the same numbers as another array type"""
    if kind == "f64":
        return np.array(v, np.float64)
    if kind == "f32":
        return np.array(v, np.float32)
    if kind == "jnp":
        return jnp.array(v, dtype=jnp.float32)
    a = np.zeros((2, len(v)), np.float64)  # a strided view
    a[:, :] = v
    return np.asfortranarray(a)[0]


TYPES = ["f64", "f64", "f32", "jnp", "view"]


def checked_call(rta, z, dt, ud, low, high, types, enabled, what=""):
    """one filter_control call with all the checks of this property"""
    za, ua = arr(types[0], z), arr(types[1], ud)
    z0, u0 = np.array(za), np.array(ua)
    rta.enable = enabled
    u = rta.filter_control(za, dt, ua)
    check(np.array_equal(np.array(za), z0, equal_nan=True), f"{what}the caller's state array was modified")
    check(np.array_equal(np.array(ua), u0), f"{what}the caller's control array was modified: {u0} -> {ua}")
    check(np.shape(u) == np.shape(u0), f"{what}shape {np.shape(u)} of the control, desired {np.shape(u0)}")
    v = np.array(u, float)
    if isinstance(u, np.ndarray) and u.flags.writeable:  # the caller may use the returned array as its own
        u[...] = 1234.5
        check(np.array_equal(np.array(za), z0, equal_nan=True) and np.array_equal(np.array(ua), u0), f"{what}the returned control shares its memory with the caller's arrays")
        u = v
    if not enabled:
        check(np.array_equal(v, np.array(u0, float)), f"{what}disabled filter returned {u} instead of the desired control {u0}")
        check(rta.intervening is False or rta.intervening == False, f"{what}disabled filter reports that it is intervening")  # noqa: E712
        return v
    check(np.all(np.isfinite(v)), f"{what}control {u} is not finite (desired {u0})")
    lo, hi = np.array(low, float), np.array(high, float)
    ok = np.all(v >= lo - 3e-7 * (1e-3 + np.abs(lo))) and np.all(v <= hi + 3e-7 * (1e-3 + np.abs(hi)))
    check(ok, lambda: f"{what}control {v.tolist()} outside the bounds {lo.tolist()} .. {hi.tolist()} (desired {u0.tolist()})")
    return v


def calls_strategy(n, m, hi=200.0):
    return st.lists(
        st.fixed_dictionaries(
            {
                "x": gen.vec(n, -2.0, 2.0, special=(0.0,)),
                "ud": st.one_of(gen.vec(m, -3.0, 3.0, special=(0.0,)), st.lists(gen.signed_log(0.01, hi), min_size=m, max_size=m)),
                "dt": st.just(0.25),
                "types": st.tuples(st.sampled_from(TYPES), st.sampled_from(TYPES)).map(list),
                "enabled": st.integers(0, 7).map(lambda k: k != 7),
            }
        ),
        min_size=1,
        max_size=4,
    )


def generic(pool):
    def fn(case, ctx):
        spec = pool[case["spec"]]
        rta = S.module(spec)
        rta.reset()
        S.apply_params(rta, spec, case)
        ref = S.Ref(spec, case)
        for i, c in enumerate(case["calls"]):
            v = checked_call(rta, ref.z(c["x"]), c["dt"], c["ud"], ref.low, ref.high, c["types"], c["enabled"], f"call {i}: ")
            if not c["enabled"]:
                ctx.label("disabled")
            elif np.any(v <= ref.low + 1e-6) or np.any(v >= ref.high - 1e-6):
                ctx.label("at-bound")
                ctx.nontriv(i)

    return fn


for _name, _kinds, _q in (
    ("asif", ("easif1", "easif", "easif3"), 260),
    ("implicit_asif", ("iasif", "iasif2"), 70),
    ("simplex", ("esimplex", "esimplex2", "isimplex", "isimplex3"), 260),
    ("discrete", ("discrete", "discrete2"), 130),
):
    _pool = pool_for(*_kinds)
    subtest(
        "C01", _name, lambda _pool=_pool: S.case_strategy(_pool, lambda s: {"calls": calls_strategy(s["n"], s["m"])}), _q,
        rule="an enabled call whose result lies on a bound",
    )(generic(_pool))


# ----------------------------------------------------------------------------------------------------- zoo
ZOO = {
    "zoo_docking2d": [("d2es", {}), ("d2is", {"control_bounds_low": -0.5, "control_bounds_high": [0.25, 0.75]}), ("d2eo", {"control_bounds_low": [-1.0, -0.2]}), ("d2io", {"control_bounds_high": 0.3})],
    "zoo_docking3d": [("d3es", {"control_bounds_high": 0.5}), ("d3is", {}), ("d3eo", {"control_bounds_low": [-0.5, -1.0, -0.1], "control_bounds_high": 0.25}), ("d3io", {})],
    "zoo_other": [("ies", {}), ("iis", {"control_bounds_low": -0.5}), ("ieo", {"control_bounds_high": 0.25}), ("iio", {}), ("i1", {"control_bounds_low": [-0.5, -1.0, -0.25]}), ("i1d", {"control_bounds_high": 0.5}), ("dv", {"m": 100.0, "n": 0.1, "n_steps": 20, "control_bounds_low": -0.25, "control_bounds_high": 0.125})],
    "zoo_multi": [("i3", {"num_deputies": 3, "control_bounds_high": [0.5, 0.25, 1.0]}), ("comb", {"num_deputies": 2, "control_bounds_low": -0.25})],
}


def zoo_bounds(kw, dim):
    lo, hi = kw.get("control_bounds_low", -1.0), kw.get("control_bounds_high", 1.0)
    return np.broadcast_to(np.array(lo, float), (dim,)), np.broadcast_to(np.array(hi, float), (dim,))


def zoo_dim(name, kw):
    return 3 * kw["num_deputies"] if name == "comb" else 3 if name == "dv" else Z.control_dim(name)


def zoo_strategy(entries):
    def one(i):
        name, kw = entries[i]
        key = "i1" if name == "dv" else name
        dim = zoo_dim(name, kw)
        item = st.fixed_dictionaries(
            {
                "z": Z.state_for(key, kw.get("num_deputies", 3)),
                "ud": st.one_of(gen.vec(dim, -2.0, 2.0, special=(0.0, 1.0, -1.0)), st.lists(gen.signed_log(0.01, 100.0), min_size=dim, max_size=dim)),
                "types": st.tuples(st.just("f64") if name == "dv" else st.sampled_from(TYPES), st.sampled_from(TYPES)).map(list),
                "enabled": st.integers(0, 7).map(lambda k: k != 7),
            }
        )
        return st.fixed_dictionaries({"entry": st.just(i), "calls": st.lists(item, min_size=1, max_size=3)})

    return lambda: st.integers(0, len(entries) - 1).flatmap(one)


def zoo_fn(entries):
    def fn(case, ctx):
        name, kw = entries[case["entry"]]
        rta = Z.module(name, **kw)
        rta.reset()
        lo, hi = zoo_bounds(kw, zoo_dim(name, kw))
        for i, c in enumerate(case["calls"]):
            ctx.label("calls-" + name)
            v = checked_call(rta, c["z"], 1.0, c["ud"], lo, hi, c["types"], c["enabled"], f"{name} call {i}: ")
            if c["enabled"] and (np.any(v <= lo + 1e-6) or np.any(v >= hi - 1e-6)):
                ctx.label("at-bound-" + name)
                ctx.nontriv(i)

    return fn


for _name, _entries in ZOO.items():
    subtest("C01", _name, zoo_strategy(_entries), {"zoo_docking2d": 130, "zoo_docking3d": 130, "zoo_other": 170, "zoo_multi": 60}[_name],
            rule="an enabled call whose result lies on a bound")(zoo_fn(_entries))
