"""C02: filters whose constraints coincide (same constraint twice, up to its scale): the optimization has to come to an end."""
import functools
from collections import OrderedDict

import numpy as np
from hypothesis import strategies as st

from rtav.checks.c02_explicit import run_filter
from rtav.core import check, subtest
from rtav.ref import QP

ROWS = 7
# problems for which a solver that is given the equal rows is known to cycle for ever
CYCLING = [1261, 14970, 15476, 20817, 23677, 24522, 27956, 28336, 28971, 29388, 30490, 30771, 34350, 34626, 34811, 35536, 39010, 39586, 40121, 41469]


def problem(seed):
    """bounds -1..1, up to six random half planes that leave room for a control, one of them given twice"""
    r = np.random.default_rng(seed)
    m = int(r.integers(1, 4))
    k = int(r.integers(1, ROWS - 1))
    C = r.normal(size=(k, m)).astype(np.float32) * np.float32(10 ** r.uniform(-1, 2))
    ud = (2 * r.normal(size=m)).astype(np.float32)
    x = r.uniform(-0.7, 0.7, size=m)
    b = (C @ x - np.abs(r.normal(size=k)) * r.choice([0, 0.1, 1])).astype(np.float32)
    j = int(r.integers(0, k))
    s = np.float32(r.choice([1.0, 1.0, 2.0 ** r.integers(-4, 5)]))
    return m, ud, np.vstack((C, s * C[j])), np.append(b, s * b[j])


@functools.lru_cache(maxsize=None)
def module(m):
    import jax.numpy as jnp

    from run_time_assurance import constraint as K
    from run_time_assurance.rta import ExplicitASIFModule

    class Never(K.ConstraintModule):
        def _compute(self, state, params):
            return state[0] + 10.0

    class Row(K.DirectInequalityConstraint):
        def ineq_weight(self, state, params):
            return params["w"]

        def ineq_constant(self, state, params):
            return params["b"]

    class Filter(ExplicitASIFModule):
        def _setup_constraints(self):
            return OrderedDict(never=Never(alpha=K.PolynomialConstraintStrengthener([0, 1]), enabled=False))

        def _setup_direct_constraints(self):
            return OrderedDict((f"row{i}", Row(params={"w": jnp.zeros(m), "b": 0.0})) for i in range(ROWS))

        def state_transition_system(self, state):
            return jnp.zeros(m)

        def state_transition_input(self, state):
            return jnp.eye(m)

        def _pred_state(self, state, step_size, control):
            return state + step_size * control

    return Filter(control_dim=m, control_bounds_low=-1, control_bounds_high=1)


def equal_strategy():
    seed = st.one_of(st.integers(0, 2**31), st.integers(0, 2**31), st.sampled_from(CYCLING))
    return st.fixed_dictionaries({"seeds": st.lists(seed, min_size=3, max_size=20)})


@subtest("C02", "equal_constraints", equal_strategy, 60, rule="the two equal constraints are active at the optimum", hang_seconds=120.0)
def equal_constraints(case, ctx):
    import jax.numpy as jnp

    for seed in case["seeds"]:
        m, ud, C, b = problem(seed)
        rta = module(m)
        rta.reset()
        for i, c in enumerate(rta.direct_inequality_constraints.values()):
            c.enabled = i < len(b)
            c.params = {"w": jnp.array(C[i]), "b": float(b[i])} if i < len(b) else {"w": jnp.zeros(m), "b": 0.0}
        u, warned, _ = run_filter(rta, np.zeros(m), 1.0, ud)
        qp = QP(ud.astype(float), -np.ones(m), np.ones(m))
        for i in range(len(b)):
            qp.add(C[i].astype(float), float(b[i]), 1e-6 * (1 + float(np.sum(np.abs(C[i])))), None, f"row{i}")
        kind, _ = qp.verdict()
        ctx.label(kind)
        if kind == "feasible":
            check(not warned, f"problem {seed}: feasible, but reported as infeasible; control {u}")
            qp.check_solution(u, f"problem {seed}: ")
            if abs(float(C[-1] @ u - b[-1])) < 1e-4 * (1 + float(np.sum(np.abs(C[-1])))):
                ctx.nontriv(seed)
