"""C13: filtering is deterministic, pure, and independent of history, other instances, array types and jit settings."""
import functools
import warnings

import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen, pools, systems as S, zoo as Z
from rtav.checks.c02_explicit import run_filter
from rtav.core import check, probe, subtest
from rtav.ref import same
from rtav.simplex_model import SimplexModel, n_steps

BOX = {"low": -1, "high": 1}
POOL = [
    {"kind": "easif", "n": 2, "m": 1, **BOX, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5], "bias": -0.1}]},
    {"kind": "easif", "n": 3, "m": 2, "low": [-1.0, -0.5], "high": [0.75, 2.0], "direct": 1, "constraints": [{"alpha": [0, 0.7]}, {"alpha": [0, 0.5], "slack": 1e4}]},
    {"kind": "iasif", "n": 2, "m": 1, **BOX, "backup_window": 0.75, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5], "subsample": {"subsample_constraints_num_least": 2}}]},
    {"kind": "discrete", "n": 2, "m": 1, **BOX, "constraints": [{"alpha": [0, 0.5]}]},
    {"kind": "discrete", "n": 3, "m": 2, **BOX, "constraints": [{"alpha": [0, 0.5]}, {"alpha": [0, 0.3], "slack": 100.0}]},
    {"kind": "esimplex", "n": 2, "m": 1, **BOX, "constraints": [{}, {"bias": -0.1}]},
    {"kind": "isimplex", "n": 3, "m": 2, **BOX, "backup_window": 0.75, "constraints": [{}, {}]},
    {"kind": "iasif", "n": 2, "m": 1, **BOX, "backup_window": 0.5, "backup": "array", "constraints": [{"alpha": [0, 1.0]}]},
]


def observe(rta, z, dt, ud):
    """result of a call with everything it reports"""
    u, warned, _ = run_filter(rta, z, dt, ud)
    info = rta.generate_info()
    vals = info.get("constraints_at_last_state", info.get("constraints"))
    cause = list(getattr(rta, "constraints_causing_intervention", []) or [])
    return {"u": np.array(u), "intervening": rta.intervening, "warned": warned, "cause": cause, "values": dict(vals or {})}


def same_obs(a, b):
    return same(a["u"], b["u"]) and all(a[k] == b[k] for k in ("intervening", "warned", "cause")) and all(same(a["values"][k], b["values"][k]) for k in a["values"])


@functools.lru_cache(maxsize=None)
def twin(i):
    """a second instance, on its own"""
    return S.build(POOL[i])


def history_strategy():
    def extra(s):
        n, m, k = s["n"], s["m"], len(s["constraints"])
        call = st.tuples(st.just("call"), st.integers(0, 1), gen.vec(n, -2.0, 2.0), gen.vec(m, -3.0, 3.0), st.sampled_from([0.25, 0.25, 0.5]))
        other = st.one_of(
            st.tuples(st.just("disabled"), st.integers(0, 1), gen.vec(n, -2.0, 2.0), gen.vec(m, -3.0, 3.0), st.just(0.25)),
            st.tuples(st.just("params"), st.integers(0, 1), st.integers(0, k - 1), gen.vec(n, -1.5, 1.5), gen.num(-1.0, 3.0)),
            st.tuples(st.just("flag"), st.integers(0, 1), st.integers(0, k - 1)),
            st.tuples(st.just("values"), st.integers(0, 1), gen.vec(n, -2.0, 2.0)),
            st.tuples(st.just("mutate"), st.integers(0, 1)),
            st.tuples(st.just("info"), st.integers(0, 1)),
        )
        return {"hist": st.lists(st.integers(0, 2).flatmap(lambda q: other if q == 2 else call).map(list), min_size=1, max_size=7)}

    return S.case_strategy(POOL, extra, xr=1.5, r=(-0.5, 3.0))


@subtest("C13", "history", history_strategy, 400, rule="the probed call changes the control and other calls lie between its repetitions")
def history(case, ctx):
    spec = POOL[case["spec"]]
    pair = (S.module(spec), twin(case["spec"]))
    ref = S.Ref(spec, case)
    z, ud, dt = ref.z(), np.array(case["ud"], float), 0.25
    for r in pair:
        r.reset()
        S.apply_params(r, spec, case)
    zin, uin = z.copy(), ud.copy()
    first = observe(pair[0], zin, dt, uin)
    check(np.array_equal(zin, z) and np.array_equal(uin, ud), "the caller's arrays were modified")
    calls = 0
    for op in case["hist"]:
        r = pair[op[1]]
        if op[0] in ("call", "disabled"):
            r.enable = op[0] == "call"
            z2, u2 = ref.z(op[2]), np.array(op[3], float)
            out, _, _ = run_filter(r, z2, op[4], u2)
            for a in (z2, u2, out):  # the caller re-uses its buffers
                if isinstance(a, np.ndarray) and a.flags.writeable:
                    a[...] = 55.0
            calls += 1
        elif op[0] == "params":
            c = list(r.constraints.values())[op[2]]
            c.params = S.lib_params({"r": op[4], "q": np.array(op[3], float), "P": np.zeros((spec["n"], spec["n"]))})
        elif op[0] == "flag":
            c = list(r.constraints.values())[op[2]]
            c.enabled = not c.enabled
        elif op[0] == "values":
            r.update_constraint_values(ref.z(op[2]))
        else:
            info = r.generate_info()
            if op[0] == "mutate":
                for key in ("control_desired", "control_actual"):
                    a = info.get(key)
                    if isinstance(a, np.ndarray) and a.flags.writeable:
                        a[...] = -66.0
    for which, r in zip(("same instance", "other instance"), pair):
        r.enable = True
        S.apply_params(r, spec, case)
        again = observe(r, z.copy(), dt, ud.copy())
        check(same_obs(first, again), lambda: f"{which}: the same call gave {again} after a history of {calls} calls, before: {first}")
    ctx.label(spec["kind"])
    if calls and np.max(np.abs(first["u"] - ref.clip(ud))) > 1e-3:
        ctx.nontriv()


# ------------------------------------------------------------------------------------------------- neighbouring calls
def variation_strategy():
    def extra(s):
        n, m, k = s["n"], s["m"], len(s["constraints"])
        vary = st.one_of(
            st.tuples(st.just("dt"), st.sampled_from([0.5, 0.125])),
            st.tuples(st.just("dt"), st.sampled_from([0.5, 0.125])),
            st.tuples(st.just("x"), st.integers(0, n - 1), gen.num(-2.0, 2.0)),
            st.tuples(st.just("system"), st.sampled_from(["A", "B", "K", "k0"])),
            st.tuples(st.just("ud"), st.integers(0, m - 1), gen.num(-3.0, 3.0)),
            st.tuples(st.just("params"), st.integers(0, k - 1), gen.num(-1.0, 3.0)),
            st.tuples(st.just("flag"), st.integers(0, k - 1)),
        )
        return {"vary": st.lists(vary.map(list), min_size=1, max_size=3), "f32": st.booleans()}

    return S.case_strategy(POOL, extra, xr=1.5, r=(-0.5, 3.0))


@subtest("C13", "variation", variation_strategy, 400, rule="a call that differs from the previous one in a single argument has another result")
def variation(case, ctx):
    """consecutive calls that differ in one argument only: each gives what an instance gives that did not see the previous one"""
    spec = POOL[case["spec"]]
    a, b = S.module(spec), twin(case["spec"])
    case = dict(case, grid=False, cons=[dict(c, edge=None) for c in case["cons"]], dt=0.25)
    a.reset()
    b.reset()
    S.apply_params(a, spec, case)
    # the caller updates the same two buffers from call to call
    zbuf, ubuf = S.Ref(spec, case).z(), np.array(case["ud"], float)
    if case.get("f32"):
        zbuf, ubuf = zbuf.astype(np.float32), ubuf.astype(np.float32)
    last = observe(a, zbuf, case["dt"], ubuf)
    away = S.Ref(spec, case).z()
    away[: spec["n"]] += 0.75
    for v in case["vary"]:
        what = v[0]
        case = dict(case)
        if what == "dt":
            case["dt"] = v[1]
        elif what in ("x", "ud"):
            case[what] = [v[2] if i == v[1] else w for i, w in enumerate(case[what])]
        elif what == "system":
            case[v[1]] = [-w for w in case[v[1]]]
        elif what == "params":
            case["cons"] = [dict(c, r=v[2]) if i == v[1] else c for i, c in enumerate(case["cons"])]
        else:
            case["cons"] = [dict(c, on=not c.get("on", True)) if i == v[1] else c for i, c in enumerate(case["cons"])]
        z, ud = S.Ref(spec, case).z(), np.array(case["ud"], float)
        if case.get("f32"):
            z, ud = z.astype(np.float32), ud.astype(np.float32)
        S.apply_params(a, spec, case)
        zbuf[...], ubuf[...] = z, ud
        got = observe(a, zbuf, case["dt"], ubuf)
        S.apply_params(b, spec, case)
        b.reset()
        run_filter(b, away, 0.375, -ud)
        b.reset()
        exp = observe(b, z, case["dt"], ud)
        check(same_obs(got, exp), lambda: f"after a call that differs in {v} only: {got}, without it: {exp}")
        if not same(got["u"], last["u"]) or got["intervening"] != last["intervening"]:
            ctx.label("changed-by-" + what)
            ctx.nontriv()
        last = got


# ------------------------------------------------------------------------------------------------------- array types
TYPES = ["f64", "f32", "jnp", "readonly", "strided", "fortran", "reversed"]


def as_type(kind, v):
    a = np.array(v, np.float64)
    if kind == "f32":
        return a.astype(np.float32)
    if kind == "jnp":
        return jnp.array(a.astype(np.float32))
    if kind == "readonly":
        a.setflags(write=False)
        return a
    if kind == "strided":
        b = np.full(2 * a.size, 9.0)
        b[::2] = a
        return b[::2]
    if kind == "reversed":
        return a[::-1].copy()[::-1]
    if kind == "fortran":
        return np.asfortranarray(np.stack((a, a + 1.0)))[0]
    return a


@subtest(
    "C13", "types",
    lambda: S.case_strategy(POOL, lambda s: {"zt": st.sampled_from(TYPES), "ut": st.sampled_from(TYPES), "dtt": st.sampled_from(["float", "np64"])}, xr=1.5, r=(-0.5, 3.0)),
    320, rule="the call changes the control and at least one input has another array type",
)
def types(case, ctx):
    spec = POOL[case["spec"]]
    rta = S.module(spec)
    rta.reset()
    S.apply_params(rta, spec, case)
    ref = S.Ref(spec, case)
    # exactly representable in float32, so that the conversion loses nothing
    z, ud = ref.z().astype(np.float32).astype(float), np.array(case["ud"], float)
    a = observe(rta, z.copy(), 0.25, ud.copy())
    zt, ut = as_type(case["zt"], z), as_type(case["ut"], ud)
    b = observe(rta, zt, np.float64(0.25) if case["dtt"] == "np64" else 0.25, ut)
    check(np.array_equal(np.array(zt, float), z) and np.array_equal(np.array(ut, float), ud), "the caller's arrays were modified")
    lim = 1e-5 * (1 + np.max(np.abs(ud)))
    ok = a["u"].shape == b["u"].shape and np.all(np.abs(a["u"].astype(float) - b["u"].astype(float)) <= lim)
    if not ok and spec["kind"].startswith("discrete") and (a["warned"] or b["warned"]):
        ctx.label("solver-failed")
        return
    check(ok and a["intervening"] == b["intervening"] and a["warned"] == b["warned"], lambda: f"types {case['zt']}/{case['ut']}: {b}, with float64 arrays: {a}")
    ctx.label(case["zt"], case["ut"])
    if (case["zt"], case["ut"]) != ("f64", "f64") and np.max(np.abs(a["u"] - ref.clip(ud))) > 1e-3:
        ctx.nontriv()


# --------------------------------------------------------------------------------------------------------------- jit
J1 = {"kind": "easif", "n": 3, "m": 2, **BOX, "direct": 1, "constraints": [{"alpha": [0, 0.7]}, {"alpha": [0, 0.5], "bias": -0.1}]}
J2 = {"kind": "iasif", "n": 2, "m": 1, **BOX, "backup_window": 0.75, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5], "subsample": {"num_check_all": 1, "skip_length": 2}}]}
J3 = {"kind": "esimplex", "n": 2, "m": 1, **BOX, "constraints": [{}, {"bias": -0.1}]}
J4 = {"kind": "isimplex", "n": 2, "m": 1, **BOX, "backup_window": 0.75, "constraints": [{}, {}]}
VARIANTS = [
    (J1, [{}, {"no_jit": True}, {"jit_compile_dict": {"generate_barrier_constraint_mats": False}}, {"jit_compile_dict": {"generate_barrier_constraint_mats": True}}]),
    (J2, [{}, {"no_jit": True}, {"jit_compile_dict": {"generate_ineq_constraint_mats": True}}, {"jit_compile_dict": {"generate_ineq_constraint_mats": False, "integrate": False}}]),
    (J3, [{}, {"no_jit": True}, {"jit_compile_dict": {"pred_state": True, "constraint_violation": True}}, {"jit_compile_dict": {"constraint_violation": False}}]),
    (J4, [{}, {"no_jit": True}, {"jit_compile_dict": {"integrate": True, "pred_state": True}}, {"jit_compile_dict": {"integrate": False, "constraint_violation": False}}]),
]


def jit_strategy():
    def one(t):
        i, v = t
        return S.case_strategy([VARIANTS[i][0]], lambda s: {"group": st.just(i), "variant": st.just(v)}, xr=1.5, r=(-0.5, 3.0))

    return st.tuples(st.integers(0, len(VARIANTS) - 1), st.integers(1, 3)).flatmap(one)


@subtest("C13", "jit", jit_strategy, 400, rule="the call changes the control")
def jit(case, ctx):
    base, variants = VARIANTS[case["group"]]
    other = dict(base, **variants[case["variant"]])
    ref = S.Ref(base, case)
    z, ud, dt = ref.z(), np.array(case["ud"], float), 0.25
    obs = []
    for spec in (base, other):
        rta = S.module(spec)
        rta.reset()
        S.apply_params(rta, spec, case)
        obs.append(observe(rta, z.copy(), dt, ud.copy()))
    a, b = obs
    tol = 1e-4
    if base["kind"] in ("easif", "iasif"):
        qp, amb = S.explicit_qp(ref, base, case, ud) if base["kind"] == "easif" else S.implicit_qp(ref, base, case, ud, dt, n_steps(base["backup_window"], dt))
        if qp is None or amb or qp.verdict()[0] == "ambiguous":
            ctx.label("ambiguous")
            return
        hi, lo = qp.solve(1), qp.solve(-1)
        if hi is not None and lo is not None:
            tol += 3 * float(np.max(np.abs(hi - lo)))
        check(a["warned"] == b["warned"], f"{variants[case['variant']]}: solver warning {b['warned']}, default {a['warned']}")
    else:
        model = SimplexModel(base, case)
        if model.call(ref.x, dt, ud)[0] is None:
            ctx.label("ambiguous")
            return
        check(a["intervening"] == b["intervening"], f"{variants[case['variant']]}: intervening {b['intervening']}, default {a['intervening']}")
        tol += 1e-4 * float(np.sum(np.abs(ref.K) @ np.abs(ref.x)))
    check(np.all(np.abs(a["u"] - b["u"]) <= tol), lambda: f"{variants[case['variant']]}: control {b['u']}, with the default compilation {a['u']}")
    for k in a["values"]:
        check(abs(a["values"][k] - b["values"][k]) <= 1e-5 * (1 + abs(a["values"][k])), f"constraint value {k}: {b['values'][k]}, default {a['values'][k]}")
    ctx.label(f"{base['kind']}-{case['variant']}")
    if np.max(np.abs(a["u"] - ref.clip(ud))) > 1e-3:
        ctx.nontriv()


# --------------------------------------------------------------------------------------------------------------- zoo
ZOO = [("d2eo", {}), ("d2es", {}), ("d2is", {"integration_method": "Euler"}), ("d3eo", {}), ("ieo", {}), ("iis", {}), ("iio", {}), ("i1", {}), ("i1d", {"constraints_to_use": ["rel_vel", "chief_collision", "x_vel"]}), ("i3", {"num_deputies": 2})]


@functools.lru_cache(maxsize=None)
def zoo_twin(i):
    return Z.make(ZOO[i][0], **ZOO[i][1])


def zoo_strategy():
    def one(i):
        name = ZOO[i][0]
        s = Z.state_for(name, 2)
        call = st.tuples(st.integers(0, 1), s, Z.ud_for(name), st.booleans()).map(list)
        return st.fixed_dictionaries({"entry": st.just(i), "z": s, "ud": Z.ud_for(name), "zt": st.sampled_from(TYPES), "hist": st.lists(call, min_size=1, max_size=4)})

    return st.integers(0, len(ZOO) - 1).flatmap(one)


@subtest("C13", "zoo", zoo_strategy, 220, rule="the probed call changes the control")
def zoo(case, ctx):
    i = case["entry"]
    name, kw = ZOO[i]
    pair = (Z.module(name, **kw), zoo_twin(i))
    z, ud = np.array(case["z"], float), np.array(case["ud"], float)
    for r in pair:
        r.reset()
    first = observe(pair[0], z.copy(), 1.0, ud.copy())
    for which, z2, u2, on in case["hist"]:
        pair[which].enable = on
        run_filter(pair[which], np.array(z2, float), 1.0, np.array(u2, float))
    for what, r, zz in (("same instance", pair[0], z.copy()), ("other instance", pair[1], z.copy()), ("array type " + case["zt"], pair[1], as_type(case["zt"], z))):
        r.enable = True
        keep = np.array(zz, float)
        again = observe(r, zz, 1.0, ud.copy())
        check(np.array_equal(np.array(zz, float), keep), f"{name}: state array modified")
        check(same_obs(first, again), lambda: f"{name} {what}: {again}, first call: {first}")
    ctx.label(name)
    if np.max(np.abs(first["u"] - np.clip(ud, -1, 1))) > 1e-3:
        ctx.nontriv()


@probe("C13", "short-state-history")
def short_state_history():
    """a call with a 6 dimensional state switches the sun motion off for all later calls"""
    z = np.array([-500 * np.cos(np.radians(33)), 500 * np.sin(np.radians(33)), 0, 0, -1.0, 0, 0, 0])
    u = np.array([0, -1.0, 0])
    out = []
    for short in (False, True):
        r = Z.make("i1", constraints_to_use=["sun"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if short:
                r.filter_control(z[:6], 1.0, u)
            out.append(np.array(r.filter_control(z, 1.0, u)))
    return bool(np.max(np.abs(out[0] - out[1])) > 1e-3)
