"""C12: cascaded and combined filters equal the composition of their parts."""
import functools

import numpy as np
from hypothesis import strategies as st

from rtav import gen, systems as S, zoo as Z
from rtav.checks.c02_explicit import run_filter
from rtav.core import also, check, subtest
from run_time_assurance.rta import CascadedRTA, RTAModule

BOUND = st.one_of(st.none(), gen.num(0.2, 2.0), st.lists(gen.num(0.2, 2.0), min_size=3, max_size=3))


def bounds_args(b, dim):
    """(low, high) constructor arguments from the generated magnitudes"""
    lo, hi = b
    cut = lambda v: v[:dim] if isinstance(v, list) else v  # noqa: E731
    neg = lambda v: None if v is None else ([-c for c in v] if isinstance(v, list) else -v)  # noqa: E731
    return neg(cut(lo)), cut(hi)


def clip(u, b, dim):
    lo, hi = bounds_args(b, dim)
    u = np.asarray(u, float)
    if lo is not None:
        u = np.maximum(u, np.asarray(lo, float))
    if hi is not None:
        u = np.minimum(u, np.asarray(hi, float))
    return u


# --------------------------------------------------------------------------------------------------- scripted members
class Script(RTAModule):
    """u -> clip(M u + N x + dt k), intervening when w.u + w0 > 0; keeps a call counter that reset() clears"""

    def __init__(self, d, memory=True, **kw):
        self.memory = memory
        self.d = {k: np.array(v, float) for k, v in d.items() if k in ("M", "N", "k", "w")}
        self.seen = []
        self.count = 0
        super().__init__(**kw)

    def reset(self):
        super().reset()
        self.count = 0

    def compute_filtered_control(self, input_state, step_size, control_desired):
        self.seen.append((np.array(input_state, float), step_size, np.array(control_desired, float)))
        self.count += 1
        out, self.intervening = script_out(self.d, np.array(input_state, float), step_size, np.array(control_desired, float), self.count if self.memory else 0)
        return out


def script_out(d, x, dt, u, count):
    dim = u.size
    n = d["N"].shape[1]
    out = d["M"][:dim, :dim] @ u + d["N"][:dim] @ x[:n] + dt * d["k"][:dim] + 0.03125 * count
    return out, bool(d["w"][:dim] @ u + d["w"][-1] > 0)


def script_strategy(dim=3, n=4):
    return st.fixed_dictionaries(
        {
            "M": st.lists(gen.vec(dim, -1.5, 1.5, special=(0.0, 1.0)), min_size=dim, max_size=dim),
            "N": st.lists(gen.vec(n, -1.0, 1.0), min_size=dim, max_size=dim),
            "k": gen.vec(dim, -1.0, 1.0),
            "w": gen.vec(dim + 1, -1.0, 1.0),
            "b": st.tuples(BOUND, BOUND).map(list),
            "on": st.integers(0, 5).map(bool),
        }
    )


def script_cascade_strategy():
    item = st.fixed_dictionaries(
        {"x": gen.vec(4, -2.0, 2.0), "u": gen.vec(3, -2.0, 2.0), "dt": st.sampled_from([0.25, 0.5, 1.0]), "op": st.sampled_from(["", "", "", "reset", "toggle", "off", "on"]), "i": st.integers(0, 4)}
    )
    return st.fixed_dictionaries({"dim": st.integers(1, 3), "members": st.lists(script_strategy(), min_size=0, max_size=5), "outer": st.tuples(BOUND, BOUND).map(list), "calls": st.lists(item, min_size=1, max_size=5)})


def build_script(d, dim, memory=True):
    lo, hi = bounds_args(d["b"], dim)
    r = Script(d, memory, control_bounds_low=lo, control_bounds_high=hi)
    return r


@subtest("C12", "scripted_cascade", script_cascade_strategy, 500, rule="at least two enabled members change the control in turn and outer bounds or member states matter")
def scripted_cascade(case, ctx):
    dim = case["dim"]
    members = [build_script(d, dim) for d in case["members"]]

    class Casc(CascadedRTA):
        def _setup_rta_list(self):
            return members

    lo, hi = bounds_args(case["outer"], dim)
    casc = Casc(control_bounds_low=lo, control_bounds_high=hi)
    for m, d in zip(members, case["members"]):
        m.enable = d["on"]
    on = [d["on"] for d in case["members"]]
    counts = [0] * len(members)
    enabled = True
    for j, c in enumerate(case["calls"]):
        if c["op"] == "reset":
            casc.reset()
            counts = [0] * len(members)
            enabled = True
            on = [True] * len(members)
            check(not casc.intervening, "cascade intervenes right after reset")
        elif c["op"] == "toggle" and members:
            i = c["i"] % len(members)
            on[i] = not on[i]
            members[i].enable = on[i]
        elif c["op"] in ("on", "off"):
            enabled = c["op"] == "on"
            casc.enable = enabled
        x, u = np.array(c["x"], float), np.array(c["u"][:dim], float)
        for m in members:
            m.seen.clear()
        xin, uin = x.copy(), u.copy()
        got = casc.filter_control(xin, c["dt"], uin)
        check(np.array_equal(xin, x) and np.array_equal(uin, u), "the caller's arrays were modified")
        if not enabled:
            check(np.array_equal(got, u) and not casc.intervening, f"disabled cascade: {got}, intervening {casc.intervening}")
            continue
        cur, any_int = u.copy(), False
        for i, (d, m) in enumerate(zip(case["members"], members)):
            if on[i]:
                check(len(m.seen) == 1, f"member {i} was called {len(m.seen)} times in one call of the cascade")
                sx, sdt, su = m.seen[0]
                check(np.allclose(sx, x, atol=1e-6) and sdt == c["dt"], f"member {i} saw state {sx}, step {sdt}; expected {x}, {c['dt']}")
                check(np.allclose(su, cur, atol=1e-5), f"member {i} saw the control {su}, expected {cur}")
                counts[i] += 1
                out, flag = script_out({k: np.array(d[k], float) for k in ("M", "N", "k", "w")}, x, c["dt"], cur, counts[i])
                out = clip(out, d["b"], dim)
                any_int = any_int or flag
                if np.max(np.abs(out - cur)) > 1e-3:
                    ctx.label("changed")
                cur = out
            else:
                check(not m.seen, f"disabled member {i} was called")
        exp = clip(cur, case["outer"], dim)
        check(np.shape(got) == exp.shape and np.allclose(got, exp, atol=1e-4, rtol=1e-5), f"call {j}: cascade returned {got}, composition gives {exp}")
        check(casc.intervening == any_int, f"call {j}: intervening is {casc.intervening}, members say {any_int}")
        info = casc.generate_info()
        check(info["intervening"] == any_int, f"call {j}: report says intervening {info['intervening']}")
        if sum(on) >= 2:
            ctx.nontriv(j)
            ctx.label("intervening" if any_int else "quiet")


# --------------------------------------------------------------------------------------------- real filters as members
BOX = {"low": -1, "high": 1, "n": 2, "m": 1}
POOL = [
    {"kind": "easif", **BOX, "constraints": [{"alpha": [0, 1.0]}]},
    {"kind": "esimplex", **BOX, "latch_time": 0.5, "backup": "array", "constraints": [{}]},
    {"kind": "isimplex", **BOX, "backup_window": 0.5, "constraints": [{}], "no_jit": True},
    {"kind": "discrete", **BOX, "constraints": [{"alpha": [0, 0.5]}]},
]


def filters_strategy():
    base = S.case_strategy([POOL[0]], lambda s: {})
    calls = st.lists(st.tuples(gen.vec(2, -2.0, 2.0), gen.vec(1, -2.0, 2.0)).map(list), min_size=1, max_size=3)
    own = st.lists(S.con_strategy(2), min_size=4, max_size=4)
    return st.tuples(base, st.permutations(range(4)), st.integers(1, 3), calls, st.tuples(BOUND, BOUND).map(list), own).map(
        lambda t: {**t[0], "order": list(t[1][: t[2]]), "calls": t[3], "outer": t[4], "own": t[5]}
    )


@functools.lru_cache(maxsize=None)
def pair(i):
    return S.build(POOL[i]), S.build(POOL[i])


@subtest("C12", "filters", filters_strategy, 150, rule="two or more real filters in a row, at least one intervening")
def filters(case, ctx):
    ins, outs = zip(*[pair(i) for i in case["order"]])
    for i, a, b in zip(case["order"], ins, outs):
        own = dict(case, cons=[case["own"][i]])
        for r in (a, b):
            r.reset()
            S.apply_params(r, POOL[i], own)

    class Casc(CascadedRTA):
        def _setup_rta_list(self):
            return list(ins)

    lo, hi = bounds_args(case["outer"], 1)
    casc = Casc(control_bounds_low=lo, control_bounds_high=hi)
    ref = S.Ref(POOL[0], case)
    for j, (x, u) in enumerate(case["calls"]):
        z, u = ref.z(x), np.array(u, float)
        got, _, _ = run_filter(casc, z.copy(), 0.25, u.copy())
        cur, flags = u, []
        for b in outs:
            cur, _, _ = run_filter(b, z.copy(), 0.25, np.array(cur))
            flags.append(b.intervening)
        exp = clip(cur, case["outer"], 1)
        check(np.allclose(got, exp, atol=1e-5), f"call {j}: cascade of {case['order']} returned {got}, composition gives {exp}")
        check(casc.intervening == any(flags), f"call {j}: intervening is {casc.intervening}, members {flags}")
        if len(flags) > 1 and any(flags):
            ctx.label(f"flags-{sum(flags)}of{len(flags)}")
            ctx.nontriv(j)


# ----------------------------------------------------------------------------------------------------- combined filter
def rotate(z, i):
    """state seen by deputy i: itself first, the others in order, everything else behind"""
    k = (len(z) - len(z) % 6) // 6
    blocks = [z[6 * a : 6 * a + 6] for a in range(k)]
    return np.concatenate([blocks[i]] + [b for a, b in enumerate(blocks) if a != i] + [z[6 * k :]])


def comb_script_strategy():
    def one(k):
        call = st.fixed_dictionaries({"z": gen.vec(6 * k + 1, -2.0, 2.0), "u": gen.vec(3 * k, -2.0, 2.0), "dt": st.sampled_from([0.5, 1.0])})
        return st.fixed_dictionaries({"k": st.just(k), "script": script_strategy(3, 6 * k + 1), "calls": st.lists(call, min_size=1, max_size=3), "outer": st.sampled_from([None, 1.0, 0.25, 100.0])})

    return st.integers(1, 5).flatmap(one)


@subtest("C12", "scripted_combined", comb_script_strategy, 250, rule="two or more deputies")
def scripted_combined(case, ctx):
    from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA

    k, d = case["k"], case["script"]
    dep = build_script(d, 3, memory=False)
    kw = {} if case["outer"] is None else {"control_bounds_low": -case["outer"], "control_bounds_high": case["outer"]}
    comb = CombinedInspectionRTA(num_deputies=k, deputy_rta=dep, **kw)
    ob = case["outer"] or 1.0
    mats = {q: np.array(d[q], float) for q in ("M", "N", "k", "w")}
    for j, c in enumerate(case["calls"]):
        z, u = np.array(c["z"], float), np.array(c["u"], float)
        dep.seen.clear()
        got = comb.filter_control(z.copy(), c["dt"], u.copy())
        exp, flags = [], []
        check(len(dep.seen) == k, f"deputy filter called {len(dep.seen)} times for {k} deputies")
        # every deputy's own call, whatever the order in which they are processed
        for i in range(k):
            zi, ui = rotate(z, i), u[3 * i : 3 * i + 3]
            match = [a for a, (sx, sdt, su) in enumerate(dep.seen) if sx.shape == zi.shape and np.allclose(sx, zi, atol=1e-6) and np.allclose(su, ui, atol=1e-6) and sdt == c["dt"]]
            check(match, f"deputy {i}: no call with its state {zi} and control {ui}; calls {dep.seen}")
            out, flag = script_out(mats, zi, c["dt"], ui, 0)
            exp.append(clip(out, d["b"], 3))
            flags.append(flag)
        exp = np.clip(np.concatenate(exp), -ob, ob)
        check(np.shape(got) == exp.shape and np.allclose(got, exp, atol=1e-4, rtol=1e-5), f"call {j}: {got}, expected {exp}")
        check(comb.intervening == any(flags), f"call {j}: intervening is {comb.intervening}, deputies {flags}")
        if k > 1:
            ctx.nontriv(j)
            ctx.label(f"{k}-deputies", "mixed-flags" if len(set(flags)) == 2 else "same-flags")


@functools.lru_cache(maxsize=None)
def comb_modules(k):
    return Z.make("comb", num_deputies=k), Z.make("i3", num_deputies=k)


def comb_strategy():
    return st.sampled_from([2, 3]).flatmap(lambda k: st.fixed_dictionaries({"k": st.just(k), "z": Z.multi_state(k), "u": gen.vec(3 * k, -1.5, 1.5, special=(0.0,))}))


@subtest("C12", "combined", comb_strategy, 120, rule="a deputy's control is changed by its filter")
def combined(case, ctx):
    k = case["k"]
    comb, dep = comb_modules(k)
    comb.reset()
    dep.reset()
    z, u = np.array(case["z"], float), np.array(case["u"], float)
    got, _, _ = run_filter(comb, z.copy(), 1.0, u.copy())
    exp, flags = [], []
    for i in range(k):
        v, _, _ = run_filter(dep, rotate(z, i), 1.0, u[3 * i : 3 * i + 3].copy())
        exp.append(np.array(v))
        flags.append(dep.intervening)
    exp = np.clip(np.concatenate(exp), -1, 1)
    check(np.allclose(got, exp, atol=1e-5), f"combined filter returned {got}, deputies by hand {exp}")
    check(comb.intervening == any(flags), f"intervening is {comb.intervening}, deputies {flags}")
    ctx.label(f"{k}-{sum(flags)}-intervening")
    if any(flags):
        ctx.nontriv()


# ----------------------------------------------------------------------------------- the inspection cascade and its parts
@functools.lru_cache(maxsize=None)
def zoo_pair(real):
    kw = {} if real else {"m": 100.0, "n": 0.1, "n_steps": 25, "delta_v_limit": 20}
    parts = [[Z.make("i1"), Z.make("dv", **kw)] for _ in range(1 if real else 2)]
    if real:
        from run_time_assurance.zoo.cwh.inspection_1v1 import InspectionCascadedRTA

        return InspectionCascadedRTA(), parts[0]

    class Casc(CascadedRTA):
        def _setup_rta_list(self):
            return parts[0]

    return Casc(), parts[1]


@subtest(
    "C12", "inspection_cascade",
    lambda: st.fixed_dictionaries({"real": st.booleans(), "calls": st.lists(st.tuples(Z.inspection_state(), gen.vec(3, -1.5, 1.5)).map(list), min_size=1, max_size=4)}),
    90, rule="both or one of the members intervene",
)
def inspection_cascade(case, ctx):
    """InspectionCascadedRTA, and a cascade of the same kinds of parts with a low delta-v budget"""
    casc, outs = zoo_pair(case["real"])
    casc.reset()
    for r in outs:
        r.reset()
    for j, (z, u) in enumerate(case["calls"]):
        z, u = np.array(z, float), np.array(u, float)
        got, _, _ = run_filter(casc, z.copy(), 1.0, u.copy())
        cur, flags = u, []
        for b in outs:
            cur, _, _ = run_filter(b, z.copy(), 1.0, np.array(cur))
            flags.append(b.intervening)
        check(np.allclose(got, cur, atol=1e-5), f"call {j}: cascade {got}, composition {cur}")
        check(casc.intervening == any(flags), f"call {j}: intervening {casc.intervening}, members {flags}")
        ctx.label(f"{'real' if case['real'] else 'low budget'} {flags}")
        if any(flags):
            ctx.nontriv(j)


also("C01", "C12", "scripted_cascade", quick=200)
also("C01", "C12", "filters", quick=80)
