"""C10: a reset filter behaves like a freshly constructed one."""
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from rtav import gen, systems as S, zoo as Z
from rtav.core import check, subtest
from run_time_assurance.rta.base import BackupControlBasedRTA

NJ = {"no_jit": True}
SPECS = {
    "asif": [
        {"kind": "easif", "n": 3, "m": 2, "low": -1, "high": 1, "direct": 1, "constraints": [{"alpha": [0, 1.0]}, {"alpha": [0, 0.5], "slack": 100.0}], **NJ},
        {"kind": "easif", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0]}]},
        {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.5, "backup": "dict", "constraints": [{"alpha": [0, 1.0]}], **NJ},
        {"kind": "iasif", "n": 2, "m": 1, "low": -1, "high": 1, "backup_window": 0.5, "backup": "array", "constraints": [{"alpha": [0, 1.0]}], **NJ},
        {"kind": "discrete", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 0.5]}], **NJ},
    ],
    "simplex": [
        {"kind": "esimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 1.0, "constraints": [{}, {}], **NJ},
        {"kind": "esimplex", "n": 3, "m": 2, "low": -1, "high": 1, "latch_time": 0.75, "backup": "array", "constraints": [{}], **NJ},
        {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 0.5, "backup": "dict", "backup_window": 0.5, "constraints": [{}], **NJ},
        {"kind": "isimplex", "n": 2, "m": 1, "low": -1, "high": 1, "backup": "array", "backup_window": 0.75, "constraints": [{}]},
    ],
}


def ops_strategy(n, m, lo, hi):
    call = st.tuples(st.just("call"), st.one_of(st.none(), gen.vec(n, -2.0, 2.0)), gen.vec(m, -3.0, 3.0), st.sampled_from([0.25, 0.5]))
    other = st.sampled_from([("enable",), ("disable",), ("info",), ("values",), ("backup",), ("reset",)])
    return st.lists(st.integers(0, 4).flatmap(lambda k: other if k == 4 else call).map(list), min_size=lo, max_size=hi)


def snapshot(rta):
    """everything a user can observe after a call"""
    out = {"info": rta.generate_info(), "intervening": rta.intervening}
    if hasattr(rta, "constraints_causing_intervention"):
        out["cause"] = rta.constraints_causing_intervention
    return out


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bool)):
        return a == b
    x, y = np.array(a, float), np.array(b, float)
    return x.shape == y.shape and bool(np.allclose(x, y, rtol=2e-6, atol=1e-6, equal_nan=True))


def run_op(rta, op, zf, last):
    """returns (observation, interesting)"""
    kind = op[0]
    if kind == "enable":
        rta.enable = True
    elif kind == "disable":
        rta.enable = False
    elif kind == "reset":
        rta.reset()
    elif kind == "values" and hasattr(rta, "update_constraint_values"):
        rta.update_constraint_values(zf(last))
    elif kind == "backup" and isinstance(rta, BackupControlBasedRTA):
        return {"backup": np.array(rta.backup_control(jnp.array(zf(last), dtype=jnp.float32), 0.25))}
    elif kind == "call":
        u = rta.filter_control(zf(op[1] if op[1] is not None else last), op[3], np.array(op[2], float))
        return {"u": np.array(u), **snapshot(rta)}
    return snapshot(rta)


def compare(dirty, fresh, case, zf, x0, ctx):
    """dirty has a history: after reset both see the same operations"""
    last = x0
    intervened = False
    for op in case["before"]:
        if op[0] == "call" and op[1] is not None:
            last = op[1]
        run_op(dirty, op, zf, last)
        intervened = intervened or bool(dirty.intervening)
    dirty.reset()
    check(equal(snapshot(dirty), snapshot(fresh)), lambda: f"after reset: {snapshot(dirty)}, fresh: {snapshot(fresh)}")
    last = x0
    differs = False
    for i, op in enumerate([["call", None, case["ud"], 0.25]] + case["after"]):
        if op[0] == "call" and op[1] is not None:
            last = op[1]
        a, b = run_op(dirty, op, zf, last), run_op(fresh, op, zf, last)
        check(equal(a, b), lambda: f"operation {i} {op[0]} after the reset: {a}, fresh filter: {b}")
        differs = differs or bool(fresh.intervening)
    ctx.label("intervened-before" if intervened else "quiet-before", "intervenes-after" if differs else "quiet-after")
    if intervened and differs:
        ctx.nontriv()


def extra(spec):
    return {"before": ops_strategy(spec["n"], spec["m"], 1, 6), "after": ops_strategy(spec["n"], spec["m"], 1, 5)}


def make_generic(pool):
    def fn(case, ctx):
        spec = pool[case["spec"]]
        dirty, fresh = S.module(spec), S.build(spec)
        ref = S.Ref(spec, case)
        dirty.reset()
        for r in (dirty, fresh):
            S.apply_params(r, spec, case)
        compare(dirty, fresh, case, ref.z, ref.x, ctx)

    return fn


RULE = "the filter intervened before the reset and intervenes again afterwards"
for _n, _p in SPECS.items():
    subtest("C10", _n, lambda _p=_p: S.case_strategy(_p, extra), {"asif": 45, "simplex": 70}[_n], rule=RULE)(make_generic(_p))

# --------------------------------------------------------------------------------------------------------- cascade
MEMBERS = [
    {"kind": "esimplex", "n": 2, "m": 1, "low": -1, "high": 1, "latch_time": 1.0, "backup": "array", "constraints": [{}], **NJ},
    {"kind": "easif", "n": 2, "m": 1, "low": -1, "high": 1, "constraints": [{"alpha": [0, 1.0]}], **NJ},
]


@subtest("C10", "cascade", lambda: S.case_strategy([MEMBERS[0]], extra), 50, rule=RULE)
def cascade(case, ctx):
    case = dict(case)
    ref = S.Ref(MEMBERS[0], case)

    def mk():
        r = S.build_cascade(MEMBERS, low=-0.75)
        for m, s in zip(r.rta_list, MEMBERS):
            S.apply_params(m, s, case)
        return r

    compare(mk(), mk(), case, ref.z, ref.x, ctx)


# ------------------------------------------------------------------------------------------------------------- zoo
ZOO = [
    ("d2is", {"latch_time": 3}), ("iis", {"latch_time": 2}), ("ieo", {}), ("i1", {"constraints_to_use": ["rel_vel", "x_vel"]}),
    ("dv", {"m": 100.0, "n": 0.1, "n_steps": 30, "delta_v_limit": 20}),
]


def zoo_strategy():
    def one(i):
        name, _ = ZOO[i]
        key = "i1" if name == "dv" else name
        dim = 3 if name == "dv" else Z.control_dim(name)
        call = st.tuples(st.just("call"), Z.state_for(key), gen.vec(dim, -2.0, 2.0, special=(0.0, 1.0)), st.just(1.0))
        other = st.sampled_from([("enable",), ("disable",), ("values",), ("reset",)])
        ops = st.lists(st.integers(0, 4).flatmap(lambda k: other if k == 4 else call).map(list), min_size=1, max_size=4)
        return st.fixed_dictionaries({"entry": st.just(i), "x": Z.state_for(key), "ud": gen.vec(dim, -2.0, 2.0), "before": ops, "after": ops})

    return st.integers(0, len(ZOO) - 1).flatmap(one)


@subtest("C10", "zoo", zoo_strategy, 60, rule=RULE)
def zoo(case, ctx):
    name, kw = ZOO[case["entry"]]
    if name == "dv":
        kw = dict(kw)
    dirty, fresh = Z.module(name, **kw), Z.make(name, **kw)
    dirty.reset()
    compare(dirty, fresh, case, lambda x: np.array(x, float), case["x"], ctx)
    ctx.label(name)


@subtest("C10", "combined", lambda: st.fixed_dictionaries({
    "x": Z.multi_state(2), "ud": gen.vec(6, -2.0, 2.0),
    "before": st.lists(st.tuples(st.just("call"), Z.multi_state(2), gen.vec(6, -2.0, 2.0), st.just(1.0)).map(list), min_size=1, max_size=3),
    "after": st.lists(st.tuples(st.just("call"), Z.multi_state(2), gen.vec(6, -2.0, 2.0), st.just(1.0)).map(list), min_size=1, max_size=3),
    "latch": st.booleans(),
}), 25, rule=RULE)
def combined(case, ctx):
    """the combined filter with a stateful (latched switching) deputy filter"""
    from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA

    def mk():
        dep = Z.make("d3es", latch_time=3) if case["latch"] else Z.make("i3", num_deputies=2, constraints_to_use=["rel_vel", "x_vel", "r_max"])
        return CombinedInspectionRTA(num_deputies=2, deputy_rta=_Six(dep) if case["latch"] else dep)

    compare(mk(), mk(), case, lambda x: np.array(x, float), case["x"], ctx)


def _Six(inner):
    """adapter: deputy filter that looks at its own six states only"""
    from run_time_assurance.rta import RTAModule

    class Adapter(RTAModule):
        def reset(self):
            super().reset()
            inner.reset()

        def compute_filtered_control(self, input_state, step_size, control_desired):
            u = inner.filter_control(np.array(input_state)[:6], step_size, control_desired)
            self.intervening = inner.intervening
            return u

    return Adapter()
