"""C16: generic limit constraints, polynomial strengthening, bias/logging split and higher order barrier functions."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from rtav import gen
from rtav.core import also, check, subtest


# ------------------------------------------------------------------------------------------ multivariate polynomials
class Poly:
    """float64 polynomial {exponents: coefficient}: exact recursion for the higher order barrier functions"""

    def __init__(self, terms, n):
        self.t = {k: v for k, v in terms.items() if v != 0.0}
        self.n = n

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0.0) + v
        return Poly(r, self.n)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({k: v * o for k, v in self.t.items()}, self.n)
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(i + j for i, j in zip(a, b))
                r[k] = r.get(k, 0.0) + x * y
        return Poly(r, self.n)

    def diff(self, i):
        r = {}
        for k, v in self.t.items():
            if k[i]:
                q = list(k)
                q[i] -= 1
                r[tuple(q)] = r.get(tuple(q), 0.0) + v * k[i]
        return Poly(r, self.n)

    def terms(self, x):
        return np.array([v * np.prod([x[i] ** e for i, e in enumerate(k)]) for k, v in self.t.items()] or [0.0])

    def at(self, x):
        return float(np.sum(self.terms(x)))

    def mag(self, x):
        return float(np.sum(np.abs(self.terms(x))))

    @staticmethod
    def const(c, n):
        return Poly({(0,) * n: float(c)}, n)

    def compose(self, coefs):
        out, p = Poly.const(0.0, self.n), Poly.const(1.0, self.n)
        for c in coefs:
            out = out + p * c
            p = p * self
        return out


MONO = {n: [e for e in np.ndindex(*(3,) * n) if sum(e) <= 2] for n in (1, 2, 3)}


def poly(coefs, n):
    return Poly({tuple(e): float(c) for e, c in zip(MONO[n], coefs)}, n)


def poly_strategy(n):
    k = len(MONO[n])
    return st.lists(gen.num(-1.0, 1.0, special=(0.0, 0.0, 1.0)), min_size=k, max_size=k)


def hocbf_strategy():
    def rest(t):
        n, r = t
        d = {
            "n": st.just(n),
            "r": st.just(r),
            "h": poly_strategy(n),
            "f": st.lists(poly_strategy(n), min_size=n, max_size=n),
            "alpha": st.lists(gen.num(0.0, 1.0, special=(0.0, 0.5)), min_size=1, max_size=3 if r <= 2 else (2 if r == 3 else 1)).map(lambda c: [0.0] + c),
            "scale": gen.num(-2.0, 2.0, special=(1.0,)),
            "bias0": gen.num(-0.2, 0.2, special=(0.0, 0.0)),
            "bias": gen.num(-0.2, 0.2, special=(0.0, 0.0)),
            "x": gen.vec(n, -1.5, 1.5, special=(0.0, 1.0)),
        }
        return st.fixed_dictionaries(d)

    return st.tuples(st.integers(1, 3), st.sampled_from([1, 2, 2, 2, 3, 3, 4])).flatmap(rest)


def _library():
    """constraint class over polynomials with one user parameter"""
    import jax.numpy as jnp
    from run_time_assurance.constraint import ConstraintModule

    def forms(ps):
        """constant, linear and quadratic part of polynomials of degree two (few array operations: cheap without compilation)"""
        n = ps[0].n
        c, b, q = np.zeros(len(ps)), np.zeros((len(ps), n)), np.zeros((len(ps), n, n))
        for r, p in enumerate(ps):
            for k, v in p.t.items():
                i = [j for j, e in enumerate(k) for _ in range(e)]
                if not i:
                    c[r] += v
                elif len(i) == 1:
                    b[r, i[0]] += v
                else:
                    q[r, i[0], i[1]] += v
        return [jnp.array(a, jnp.float32) for a in (c, b, q)]

    def evaluate(fm, x):
        return fm[0] + fm[1] @ x + (fm[2] @ x) @ x

    class PolyConstraint(ConstraintModule):
        def __init__(self, p, scale, **kw):
            self.fm = [a[0] for a in forms([p])]
            super().__init__(params={"scale": scale}, **kw)

        def _compute(self, state, params):
            return params["scale"] * evaluate(self.fm, state)

        def _phi(self, state, params):
            return params["scale"] * evaluate(self.fm, state) + 7.0

    return PolyConstraint, forms, evaluate


@subtest("C16", "hocbf", hocbf_strategy, 200, rule="relative degree at least two and the barrier function differs from h and from grad h . f")
def hocbf(case, ctx):
    import jax
    import jax.numpy as jnp
    from run_time_assurance.constraint import HOCBFConstraint, PolynomialConstraintStrengthener

    n, r = case["n"], case["r"]
    PolyConstraint, forms, evaluate = _library()
    hp = poly(case["h"], n)
    fp = [poly(c, n) for c in case["f"]]
    x = np.array(case["x"], float)
    ff = forms(fp)

    def drift(state):
        return evaluate(ff, state)

    def reference(scale):
        psi = hp * scale + Poly.const(case["bias0"], n)
        mag = psi.mag(x)
        steps = [psi]
        for _ in range(r - 1):
            lie = Poly.const(0.0, n)
            for i in range(n):
                lie = lie + psi.diff(i) * fp[i]
            psi = lie + psi.compose(case["alpha"])
            steps.append(psi)
            mag = max(mag, psi.mag(x))
        return steps, mag

    with jax.disable_jit():
        h = PolyConstraint(hp, case["scale"], bias=case["bias0"])
        alpha = PolynomialConstraintStrengthener(list(case["alpha"]))
        c = HOCBFConstraint(h, relative_degree=r, state_transition_system=drift, alpha=alpha, bias=case["bias"])
        check(dict(c.params) == {"scale": case["scale"]}, f"HOCBF parameters {c.params}, expected those of h")
        xj = jnp.array(x, jnp.float32)
        for scale in (case["scale"], 0.5 - case["scale"]):
            par = {"scale": scale}
            v = float(c(xj, par))
            g = np.array(c.grad(xj, par), float)
            steps, mag = reference(scale)
            psi = steps[-1]
            e = psi.at(x) + case["bias"]
            tol = 1e-5 * mag + 1e-6
            check(abs(v - e) <= tol, lambda: f"barrier of relative degree {r}: {v}, expected {e} (psi sequence {[p.at(x) for p in steps]})")
            eg = np.array([psi.diff(i).at(x) for i in range(n)])
            tg = 1e-5 * np.array([psi.diff(i).mag(x) for i in range(n)]) + 1e-5 * mag + 1e-6
            check(g.shape == (n,) and np.all(np.abs(g - eg) <= tg), lambda: f"gradient of the barrier of relative degree {r}: {g}, expected {eg}")
            ph, ep = float(c.phi(xj, par)), float(hp.at(x) * scale + 7.0)
            check(abs(ph - ep) <= 1e-5 * (hp.mag(x) * abs(scale) + 7), f"logging value {ph}, expected that of h: {ep}")
            al = float(c.alpha(0.7))
            ea = sum(a * 0.7**i for i, a in enumerate(case["alpha"]))
            check(abs(al - ea) < 1e-6, f"alpha(0.7) = {al}, expected {ea}")
    ctx.label(f"degree {r}")
    if r >= 2 and abs(steps[-1].at(x) - steps[0].at(x)) > 0.01:
        ctx.nontriv()


# ----------------------------------------------------------------------------------------------------- limits
LIMITS = ["Magnitude", "Max", "Min"]


def limit_strategy():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(LIMITS),
            "n": st.integers(1, 5),
            "idx": st.integers(0, 4),
            "limit": gen.num(-20.0, 20.0, special=(0.0, 1.0)),
            "later": gen.num(-20.0, 20.0),
            "rel": st.sampled_from([None, 0.0, 1e-3, -1e-3, 0.1, -0.1]),
            "x": gen.vec(5, -25.0, 25.0, special=(0.0, 1.0)),
            "bias": gen.num(-2.0, 2.0, special=(0.0, 0.0, -0.001)),
            "alpha": st.one_of(st.none(), st.lists(gen.num(0.0, 2.0), min_size=1, max_size=4)),
            "neg": st.one_of(st.none(), st.lists(gen.num(0.0, 5.0), min_size=1, max_size=3)),
            "jit": st.booleans(),
        }
    )


def poly_at(coefs, v):
    return sum(c * v**i for i, c in enumerate(coefs)), sum(abs(c * v**i) for i, c in enumerate(coefs))


@subtest("C16", "limits", limit_strategy, 600, rule="the limit is violated, or the state is within 0.1 of it")
def limits(case, ctx):
    import jax
    import jax.numpy as jnp
    from run_time_assurance import constraint as M

    cls = getattr(M, f"Constraint{case['kind']}StateLimit")
    n = case["n"]
    i = case["idx"] % n
    kw = {"bias": case["bias"], "jit_enable": case["jit"]}
    if case["alpha"] is not None:
        kw["alpha"] = M.PolynomialConstraintStrengthener(list(case["alpha"]))
    if case["neg"] is not None:
        kw["alpha_negative"] = M.PolynomialConstraintStrengthener(list(case["neg"]))
    with jax.disable_jit():
        c = cls(limit_val=case["limit"], state_index=i, **kw)
        check(dict(c.params) == {"limit_val": case["limit"]} and c.enabled is True, f"params {c.params}, enabled {c.enabled}")
        for L in (case["limit"], case["later"]):
            x = np.array(case["x"][:n], float)
            if case["rel"] is not None:
                x[i] = np.float32(L + case["rel"])
            xj = jnp.array(x, jnp.float32)
            par = {"limit_val": L}
            h, ph, g = float(c(xj, par)), float(c.phi(xj, par)), np.array(c.grad(xj, par), float)
            if case["kind"] == "Magnitude":
                e, d = L**2 - x[i] ** 2, -2 * x[i]
                inside, mag = abs(x[i]) <= abs(L), L**2 + x[i] ** 2
            elif case["kind"] == "Max":
                e, d = L - x[i], -1.0
                inside, mag = x[i] <= L, abs(L) + abs(x[i])
            else:
                e, d = x[i] - L, 1.0
                inside, mag = x[i] >= L, abs(L) + abs(x[i])
            tol = 4e-7 * mag
            check(abs(ph - e) <= tol, f"{case['kind']} limit {L}: reported value {ph} at x[{i}]={x[i]}, expected {e}")
            check(abs(h - (e + case["bias"])) <= tol + 4e-7 * abs(case["bias"]), f"{case['kind']} limit {L}: enforced value {h} at x[{i}]={x[i]}, expected {e + case['bias']}")
            eg = np.zeros(n)
            eg[i] = d
            check(np.all(np.abs(g - eg) <= 1e-6 * abs(d)), f"{case['kind']} limit: gradient {g}, expected {eg}")
            if abs(e) > tol:
                check((ph >= 0) == inside, f"{case['kind']} limit {L}: value {ph} at {x[i]}")
            for v in (h, -h, 0.0, 0.3):
                co = case["alpha"] if case["alpha"] is not None else [0, 0.0005, 0, 0.001]
                a, am = poly_at(co, v)
                check(abs(float(c.alpha(v)) - a) <= 1e-6 * am + 1e-9, f"alpha({v}) = {c.alpha(v)}, expected {a}")
                if case["neg"] is not None:
                    b, bm = poly_at(case["neg"], v)
                else:
                    b, bm = 10 * a, 10 * am
                check(abs(float(c.alpha_negative(v)) - b) <= 1e-6 * bm + 1e-9, f"alpha_negative({v}) = {c.alpha_negative(v)}, expected {b}")
            ctx.label(case["kind"] + ("-inside" if inside else "-outside"))
            if not inside or case["rel"] is not None:
                ctx.nontriv(L)


@subtest(
    "C16",
    "polynomial",
    lambda: st.fixed_dictionaries({"coefs": st.one_of(st.none(), st.lists(gen.num(-5.0, 5.0, special=(0.0, 1.0)), min_size=0, max_size=7)), "xs": gen.vec(4, -4.0, 4.0, special=(0.0, 1.0, -1.0)), "arr": st.booleans()}),
    300,
    rule="a coefficient beyond the linear one is not zero",
)
def polynomial(case, ctx):
    import jax.numpy as jnp
    from run_time_assurance.constraint import PolynomialConstraintStrengthener

    given = None if case["coefs"] is None else list(case["coefs"])
    a = PolynomialConstraintStrengthener(given) if given is not None else PolynomialConstraintStrengthener()
    co = [0.0, 1.0] if given is None else case["coefs"]
    xs = case["xs"]
    got = np.broadcast_to(np.array(a(jnp.array(xs, jnp.float32)), float), len(xs)) if case["arr"] else [float(a(v)) for v in xs]
    for v, g in zip(xs, got):
        e, m = poly_at(co, v)
        check(abs(float(g) - e) <= 2e-6 * m + 1e-9, f"polynomial {co} at {v}: {g}, expected {e}")
    check(given is None or given == case["coefs"], "the list of coefficients was modified")
    if any(co[2:]):
        ctx.nontriv()


# -------------------------------------------------------------------------------------------- HOCBF inside a filter
@functools.lru_cache(maxsize=None)
def hocbf_filter(side, alpha, bias, two, bound, inner):
    """double integrator with the position limit x_0 <= L (side 1) or x_0 >= L (side -1), relative degree 2"""
    from collections import OrderedDict

    import jax.numpy as jnp
    from run_time_assurance import constraint as M
    from run_time_assurance.rta import ExplicitASIFModule

    nu = 2 if two else 1

    class Filter(ExplicitASIFModule):
        def __init__(self):
            super().__init__(control_dim=nu, control_bounds_high=bound, control_bounds_low=-bound)

        def _setup_constraints(self):
            cls = M.ConstraintMaxStateLimit if side > 0 else M.ConstraintMinStateLimit
            c = cls(limit_val=3.0, state_index=0, bias=inner)
            return OrderedDict([("limit", M.HOCBFConstraint(c, relative_degree=2, state_transition_system=self.state_transition_system, alpha=M.PolynomialConstraintStrengthener(list(alpha)), bias=bias))])

        def state_transition_system(self, state):
            return jnp.concatenate((state[nu:], jnp.zeros(nu)))

        def state_transition_input(self, state):
            return jnp.vstack((jnp.zeros((nu, nu)), jnp.eye(nu)))

        def _pred_state(self, state, step_size, control):
            raise NotImplementedError

    return Filter()


FILTERS = [(1, (0.0, 0.5), 0.0, False, 8.0, 0.0), (-1, (0.0, 0.3, 0.0, 0.2), -0.01, False, 20.0, -0.25), (1, (0.0, 0.3, 0.0, 0.2), -0.05, True, 20.0, 0.0), (-1, (0.0, 1.0), 0.0, True, 3.0, 0.125)]


@subtest(
    "C16",
    "filter",
    lambda: st.fixed_dictionaries(
        {"f": st.integers(0, len(FILTERS) - 1), "calls": st.lists(st.fixed_dictionaries({"L": gen.num(-5.0, 5.0), "x": gen.vec(4, -2.0, 2.0, special=(0.0,)), "ud": gen.vec(2, -4.0, 4.0, special=(0.0,))}), min_size=1, max_size=4)}
    ),
    250,
    rule="the barrier condition changes the desired control",
)
def in_filter(case, ctx):
    side, alpha, bias, two, bound, inner = FILTERS[case["f"]]
    rta = hocbf_filter(*FILTERS[case["f"]])
    nu = 2 if two else 1
    al = lambda v: poly_at(alpha, v)[0]  # noqa: E731
    dal = lambda v: sum(i * c * v ** (i - 1) for i, c in enumerate(alpha) if i)  # noqa: E731
    for k, call in enumerate(case["calls"]):
        L = call["L"]
        x = np.array([L + call["x"][0], call["x"][1], call["x"][2], call["x"][3]], float) if two else np.array([L + call["x"][0], call["x"][2]], float)
        x = x.astype(np.float32).astype(float)
        ud = np.array(call["ud"][:nu], float)
        rta.constraints["limit"].params["limit_val"] = L
        pos, vel = x[0], x[nu]
        h = side * (L - pos) + inner
        psi = -side * vel + al(h) + bias
        a = al(psi) if psi >= 0 else 10 * al(psi) - 0.01
        # d/dt psi = -side*u - side*alpha'(h)*vel >= -a
        lim = a - side * dal(h) * vel  # side*u <= lim
        if abs(psi) < 1e-5 or lim < -bound + 1e-3:
            ctx.label("ambiguous" if abs(psi) < 1e-5 else "infeasible")
            continue
        e = np.clip(ud, -bound, bound)
        e[0] = side * min(side * e[0], lim)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            u = np.array(rta.filter_control(x, 1.0, ud), float)
        check(np.all(np.abs(u - e) <= 2e-5 * (1 + abs(lim))), lambda: f"call {k}: control {u}, expected {e} (psi {psi}, h {h})")
        if e[0] != np.clip(ud, -bound, bound)[0]:
            ctx.nontriv(k)
            ctx.label("negative" if psi < 0 else "active")


also("C02", "C16", "filter", quick=100)
