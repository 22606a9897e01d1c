"""C13: zoo filters with compilation switched off, filters with a custom state type."""
import functools

import numpy as np
from hypothesis import strategies as st

from rtav import gen, systems as S, zoo as Z
from rtav.checks.c13_pure import POOL, TYPES, as_type, observe, same_obs
from rtav.core import check, subtest
from run_time_assurance.rta import CascadedRTA

NOJIT = [
    ("d2is", {"integration_method": "Euler", "backup_window": 3.0}), ("d2io", {"integration_method": "Euler", "backup_window": 3.0}),
    ("d3eo", {}), ("d3es", {}), ("ies", {}), ("iis", {"backup_window": 3.0}), ("iio", {"backup_window": 3.0}),
    ("i3", {"num_deputies": 2, "constraints_to_use": ["rel_vel", "deputy_collision_2", "y_vel"]}),
]


def nojit_strategy():
    def one(i):
        name = NOJIT[i][0]
        pert = st.lists(st.integers(-1, 1), min_size=13, max_size=13)
        return st.fixed_dictionaries({"entry": st.just(i), "z": Z.state_for(name, 2), "ud": Z.ud_for(name), "perturb": st.lists(pert, min_size=4, max_size=4)})

    return st.integers(0, len(NOJIT) - 1).flatmap(one)


@subtest("C13", "zoo_nojit", nojit_strategy, 100, rule="the call changes the control")
def zoo_nojit(case, ctx):
    """jit_enable=False gives the same results, wherever the result does not hinge on rounding"""
    name, kw = NOJIT[case["entry"]]
    jitted, plain = Z.module(name, **kw), Z.module(name, jit_enable=False, **kw)
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    jitted.reset()
    first = observe(jitted, z.copy(), 1.0, ud.copy())
    spread, vspread, flags, warns = 0.0, {k: 0.0 for k in first["values"]}, {first["intervening"]}, {first["warned"]}
    for d in case["perturb"]:  # how far is the result determined?
        zp = z * (1 + 1e-5 * np.array(d[: z.size]))
        jitted.reset()
        o = observe(jitted, zp, 1.0, ud.copy())
        spread = max(spread, float(np.max(np.abs(o["u"] - first["u"]))))
        flags.add(o["intervening"])
        warns.add(o["warned"])
        for k in vspread:
            vspread[k] = max(vspread[k], abs(o["values"][k] - first["values"][k]))
    plain.reset()
    other = observe(plain, z.copy(), 1.0, ud.copy())
    check(list(other["values"]) == list(first["values"]), f"{name}: reported constraints {list(other['values'])}, with compilation {list(first['values'])}")
    for k, v in first["values"].items():
        check(abs(v - other["values"][k]) <= 1e-4 * (1 + abs(v)) + 10 * vspread[k], f"{name}: constraint value {k} {other['values'][k]}, with compilation {v}")
    if len(flags) > 1 or len(warns) > 1 or spread > 0.02:
        ctx.label("rounding decides")
        return
    check(other["warned"] == first["warned"], f"{name}: solver warning {other['warned']}, with compilation {first['warned']}")
    if not name.endswith(("eo", "io")) and name[:2] not in ("i1", "i3"):  # the threshold of an optimization filter may be met by chance
        check(other["intervening"] == first["intervening"], f"{name}: intervening {other['intervening']}, with compilation {first['intervening']}")
    check(np.all(np.abs(other["u"] - first["u"]) <= 1e-3 + 10 * spread), lambda: f"{name}: control {other['u']}, with compilation {first['u']}")
    ctx.label(name)
    if np.max(np.abs(first["u"] - np.clip(ud, -1, 1))) > 1e-3:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------- custom state types
class Box:
    """state of an environment that is no array; order of the entries is up to the filter"""

    def __init__(self, z):
        self.parts = [float(v) for v in z]


@functools.lru_cache(maxsize=None)
def boxed(i):
    import jax.numpy as jnp

    plain = type(S.module(POOL[i]))

    class Boxed(plain):  # type: ignore
        def _get_state(self, input_state):
            assert isinstance(input_state, Box), f"the filter was given a {type(input_state)}"
            return jnp.array(input_state.parts)

    spec = dict(POOL[i])
    return S.build(spec, cls=Boxed)


@functools.lru_cache(maxsize=None)
def boxed_cascade(i):
    class Casc(CascadedRTA):
        def _setup_rta_list(self):
            return [boxed(i)]

    return Casc()


def custom_strategy():
    def extra(s):
        call = st.tuples(gen.vec(s["n"], -2.0, 2.0), gen.vec(s["m"], -3.0, 3.0), st.booleans(), st.booleans()).map(list)
        return {"calls": st.lists(call, min_size=1, max_size=4), "cascade": st.booleans()}

    return S.case_strategy(POOL, extra, xr=1.5, r=(-0.5, 3.0))


@subtest("C13", "custom_state", custom_strategy, 150, rule="a call changes the control")
def custom_state(case, ctx):
    """a filter that reads its state from a custom type (_get_state) behaves as the one that is given the array"""
    i = case["spec"]
    spec = POOL[i]
    arr, box = S.module(spec), boxed(i)
    outer = boxed_cascade(i) if case["cascade"] else box
    ref = S.Ref(spec, case)
    for r in (arr, outer):
        r.reset()
    for r in (arr, box):
        r.reset()
        S.apply_params(r, spec, case)
    for j, (x, ud, refresh, on) in enumerate(case["calls"]):
        z, ud = ref.z(x), np.array(ud, float)
        arr.enable = outer.enable = on
        a = observe(arr, z.copy(), 0.25, ud.copy())
        b = observe(outer, Box(z), 0.25, ud.copy())
        if outer is not box:
            check(same_obs_u(a, b), lambda: f"call {j}: cascade with custom state type {b}, filter with array {a}")
        else:
            check(same_obs(a, b), lambda: f"call {j}: custom state type {b}, array {a}")
        if refresh:
            arr.update_constraint_values(z)
            box.update_constraint_values(Box(z))
            va, vb = arr.generate_info().get("constraints"), box.generate_info().get("constraints")
            check(va == vb, lambda: f"call {j}: refreshed constraint values {vb}, array {va}")
        if np.max(np.abs(a["u"] - ref.clip(ud))) > 1e-3 and on:
            ctx.nontriv(j)
    ctx.label(spec["kind"] + ("-cascade" if case["cascade"] else ""))


def same_obs_u(a, b):
    return np.array_equal(a["u"], b["u"]) and a["warned"] == b["warned"] and a["intervening"] == b["intervening"]


# ------------------------------------------------------------------------- composite filters and filters with memory
@functools.lru_cache(maxsize=None)
def composite(name):
    dv = {"m": 100.0, "n": 0.1, "n_steps": 20, "delta_v_limit": 20}
    small = {"constraints_to_use": ["rel_vel", "chief_collision", "x_vel"]}
    if name.startswith("comb"):
        k = int(name[4:])
        return Z.make("comb", num_deputies=k, deputy_rta=Z.make("i3", num_deputies=k, constraints_to_use=["rel_vel", "chief_collision", "deputy_collision_2", "y_vel"]))
    if name == "dv":
        return Z.make("dv", **dv)
    members = {"cascade": [("i1", small), ("dv", dv)], "cascade2": [("i1d", small), ("i1", small)]}[name]

    class Casc(CascadedRTA):
        def _setup_rta_list(self):
            return [Z.make(n, **kw) for n, kw in members]

    return Casc()


COMPOSITE = ["comb2", "comb3", "comb2", "comb3", "dv", "cascade", "cascade2"]


def composite_strategy():
    def one(name):
        k = int(name[4:]) if name.startswith("comb") else 0
        s = Z.multi_state(k) if k else Z.inspection_state()
        call = st.fixed_dictionaries({"z": s, "ud": gen.vec(3 * max(k, 1), -2.0, 2.0, special=(0.0, 1.0)), "zt": st.sampled_from(TYPES), "ut": st.sampled_from(TYPES)})
        return st.fixed_dictionaries({"name": st.just(name), "calls": st.lists(call, min_size=1, max_size=3), "reuse": st.booleans()})

    return st.sampled_from(COMPOSITE).flatmap(one)


@subtest("C13", "composite", composite_strategy, 150, rule="the episode has a call that changes the control, and an input of another array type")
def composite_pure(case, ctx):
    """combined and cascaded filters and the delta-v filter: an episode repeats after a reset, for any array type, and the inputs stay as they are"""
    rta = composite(case["name"])
    runs = []
    for plain in (True, False):
        rta.reset()
        out = []
        for j, c in enumerate(case["calls"]):
            z, ud = np.array(c["z"], np.float32).astype(float), np.array(c["ud"], np.float32).astype(float)
            zt, ut = (z.copy(), ud.copy()) if plain else (as_type(c["zt"], z), as_type(c["ut"], ud))
            o = observe(rta, zt, 1.0, ut)
            check(np.array_equal(np.array(zt, float), z) and np.array_equal(np.array(ut, float), ud), f"{case['name']} call {j}: the caller's arrays were modified")
            if case["reuse"]:  # the caller re-uses its buffers
                for a in (zt, ut):
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = 3.0
            out.append(o)
            if plain and np.max(np.abs(o["u"] - np.clip(ud, -1, 1))) > 1e-3 and (c["zt"], c["ut"]) != ("f64", "f64"):
                ctx.nontriv(j)
        runs.append(out)
    for j, (a, b) in enumerate(zip(*runs)):
        ok = a["u"].shape == b["u"].shape and np.all(np.abs(a["u"].astype(float) - b["u"].astype(float)) <= 1e-5)
        if not ok and (a["warned"] or b["warned"]):
            ctx.label("solver-failed")
            return
        check(ok and a["intervening"] == b["intervening"], lambda: f"{case['name']} call {j}: {b}, the same episode before: {a}")
    ctx.label(case["name"])


# ---------------------------------------------------------------------------------------------- states without the sun
PLAIN = {"i1": ["rel_vel", "r_max", "PSM", "x_vel", "y_vel", "z_vel", "chief_collision"], "i3": ["chief_collision", "rel_vel", "r_max", "PSM", "x_vel", "y_vel", "z_vel", "deputy_collision_1", "deputy_PSM_1"]}


@functools.lru_cache(maxsize=None)
def _plain(name, which):
    return Z.make(name, constraints_to_use=PLAIN[name], **({"num_deputies": 2} if name == "i3" else {}))


def short_strategy():
    def one(name):
        return st.fixed_dictionaries({"module": st.just(name), "z": Z.state_for(name, 2), "ud": Z.ud_for(name), "jax": st.booleans(), "calls": st.integers(1, 2)})

    return st.sampled_from(["i1", "i3"]).flatmap(one)


@subtest("C13", "short_states", short_strategy, 90, rule="the call changes the control")
def short_states(case, ctx):
    """without the sun constraints, the sun angle (and the used delta-v) may be left out of the state"""
    import jax.numpy as jnp

    name = case["module"]
    full, short = _plain(name, "full"), _plain(name, "short")
    z, ud = np.array(case["z"], np.float32), np.array(case["ud"], float)
    n = 6 if name == "i1" else 12
    obs = []
    for rta, s in ((full, z), (short, jnp.array(z[:n]) if case["jax"] else z[:n].copy())):
        rta.reset()
        for _ in range(case["calls"]):
            o = observe(rta, s, 1.0, ud.copy())
        obs.append(o)
    a, b = obs
    if a["warned"] != b["warned"]:  # on the edge of infeasibility
        ctx.label("rounding decides")
        return
    check(np.allclose(a["u"], b["u"], atol=1e-4), lambda: f"{name}: control {b['u']} without the sun angle, {a['u']} with it")
    check(set(a["values"]) == set(b["values"]) and all(abs(v - b["values"][k]) <= 1e-5 * (1 + abs(v)) for k, v in a["values"].items()), lambda: f"{name}: constraint values {b['values']} without the sun angle, {a['values']} with it")
    ctx.label(name)
    if np.max(np.abs(a["u"] - np.clip(ud, -1, 1))) > 1e-3:
        ctx.nontriv()
